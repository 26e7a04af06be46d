#!/usr/bin/env python3
"""Run one check: run.py C01 [--tier quick|thorough] [--seed N] [--scale F] [--only NAME]
                          run.py C01 --replay FILE

VERIF_SEED and VERIF_TIER give the seed and the tier.  Exit 0: the property held on
everything explored; 1: violated (a VIOLATION line is printed); 2: error of the check.
"""

import os
import sys

VENV = "/opt/veriftools/pyvenv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

if os.environ.get("VP_CHILD") != "1":
    import shutil
    import subprocess
    import tempfile

    env = dict(os.environ)
    env["VP_CHILD"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    cache = tempfile.mkdtemp(prefix="vp-pyc-")
    env["PYTHONPYCACHEPREFIX"] = cache
    env.pop("PYTHONPATH", None)
    py = VENV if os.path.exists(VENV) else sys.executable
    try:
        rc = subprocess.call([py, "-u", os.path.abspath(__file__), *sys.argv[1:]], env=env, cwd=HERE)
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 2)

sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

from vp.main import main  # noqa: E402

sys.exit(main(sys.argv[1:], HERE, REPO))
