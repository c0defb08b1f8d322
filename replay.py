#!/usr/bin/env python3
"""Replay a reported counterexample on the unmodified code of /repo.
usage: replay.py evidence/replay/<file>.json   (exit 1: violation reproduced)"""
import json
import os
import sys
import tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
NATIVE = "/opt/venv/bin/python"
if os.path.exists(NATIVE) and not sys.prefix.startswith("/opt/venv"):
    os.execv(NATIVE, [NATIVE] + sys.argv)
sys.path.insert(0, VERIF)
from symx import native  # noqa: E402


def main():
    with open(sys.argv[1], encoding="UTF-8") as fd:
        case = json.load(fd)
    native.setup_path(VERIF, os.environ.get("VERIF_REPO", "/repo"))
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        r = native.run_one(case["module"], case["func"], case["params"],
                           case["inputs"])
        os.chdir("/")
    print(json.dumps(r, indent=1))
    return 1 if r["failed"] else 0


sys.exit(main())
