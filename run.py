#!/opt/venv/bin/python
"""run.py check <property> [--tier quick|thorough] [--seed N] [-v] [--only SUBSTR]
run.py replay <file>"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
from lv import runner  # noqa

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay"])
    ap.add_argument("what")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--no-evidence", action="store_true", help="do not rewrite the evidence file (experiments)")
    a = ap.parse_args()
    if a.cmd == "replay":
        sys.exit(runner.replay(a.what))
    sys.exit(runner.check(a.what, a.tier, a.seed, a.v, a.only, not a.no_evidence))
