#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python"


def setup():
    want = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
    if any(os.environ.get(k) != v for k, v in want.items()) or os.path.realpath(sys.prefix) != "/opt/veriftools/pyvenv":
        os.environ.update(want)
        os.execv(PY, [PY] + sys.argv)


if __name__ == "__main__":
    setup()
    sys.path.insert(0, HERE)
    from symx.runner import main
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(main(sys.argv[1].upper(), tier))
