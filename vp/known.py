"""Known findings: specific failing inputs that are recorded rather than repaired."""

from __future__ import annotations

import json
import os


def load(path, prop):
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as fd:
        data = json.load(fd)
    return [f for f in data["findings"] if f["property"] == prop]


def check(finding):
    """True if the recorded input still fails."""
    from . import known_cases

    return getattr(known_cases, finding["case"])(*finding.get("args", []))
