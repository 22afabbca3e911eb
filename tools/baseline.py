#!/opt/venv/bin/python
"""baseline.py SEED... : runs every check with each seed (evidence in place) and writes baseline_proved.json,
the contracts that the verifier accepted in full every time in at most half of their time budget."""
import glob, importlib, json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
props = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(VERIF + "/contracts/c[0-9][0-9].py"))
pat = sys.argv[1].split(",") if len(sys.argv) > 1 else ["1"]
only = sys.argv[2].split(",") if len(sys.argv) > 2 else props
out = VERIF + "/baseline_proved.json"
old = set(json.load(open(out))) if os.path.exists(out) else set()
keep = {k for k in old if k.split(":")[0] not in only}
from lv.world import CONTRACTS

for p in only:
    good = None
    importlib.import_module("contracts." + p.lower())
    for s in pat:
        subprocess.run([VERIF + "/run.py", "check", p, "--seed", s], cwd=VERIF, stdout=subprocess.DEVNULL)
        e = json.load(open(VERIF + "/evidence/%s.json" % p))
        g = {c["contract"] for c in e["coverage"]["contracts"] if c["proof"] and c["time"] < 0.5 * CONTRACTS[c["contract"]].timeout}
        good = g if good is None else good & g
    print(p, len(good), flush=True)
    keep |= good
    json.dump(sorted(keep), open(out, "w"), indent=0)
