"""The recorded inputs of known findings: each function is True if its input still fails."""

from __future__ import annotations

import jsonpath

BIG = "9007199254740992"  # 2**53, one more than the index limit


def pointer_construction():
    """A pointer with the token BIG, which RFC 6901 allows, is refused."""
    try:
        return str(jsonpath.JSONPointer("/" + BIG)) != "/" + BIG
    except jsonpath.JSONPointerError:
        return True


def pointer_resolution():
    """The member named BIG can't be reached."""
    try:
        return jsonpath.pointer.resolve("/" + BIG, {BIG: "v"}) != "v"
    except jsonpath.JSONPointerError:
        return True


def match_pointer_text():
    """The text of a match's pointer can't be parsed again."""
    match = jsonpath.match("$['" + BIG + "']", {BIG: "v"})
    if match is None:
        return True
    try:
        return jsonpath.JSONPointer(str(match.pointer())).resolve({BIG: "v"}) != "v"
    except jsonpath.JSONPointerError:
        return True


def patch_path():
    """A patch can't address the member named BIG."""
    try:
        doc = jsonpath.patch.apply([{"op": "replace", "path": "/" + BIG, "value": 1}], {BIG: 0})
    except jsonpath.JSONPatchError:
        return True
    return doc != {BIG: 1}


def relative_pointer():
    """A relative pointer can't step to the member named BIG."""
    try:
        return str(jsonpath.JSONPointer("/a").to("0/" + BIG)) != "/a/" + BIG
    except (jsonpath.JSONPointerError, jsonpath.RelativeJSONPointerError):
        return True


def many_digits():
    """An offset of more digits than Python converts (4300 by default) is refused."""
    text = "0+" + "1" * 4301
    try:
        return str(jsonpath.RelativeJSONPointer(text)) != text
    except jsonpath.RelativeJSONPointerError:
        return True
