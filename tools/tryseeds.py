#!/opt/venv/bin/python
"""tryseeds.py [ids...]: runs the quick check of each seeded change in a scratch copy of /repo (LV_REPO)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LV_REPO", "/repo")
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i
    if not os.path.exists(d + "/meta.json"):
        continue
    m = json.load(open(d + "/meta.json"))
    wt = "/tmp/ts_" + i
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run("cp -a " + REPO + " %s && cd %s && git apply %s/patch.diff" % (wt, wt, d), shell=True, check=True)
    r = subprocess.run([sys.executable, V + "/run.py", "check", m["property"], "--no-evidence"], env=dict(os.environ, LV_REPO=wt), capture_output=True, text=True, cwd=V)
    lines = [l for l in r.stdout.split("\n") if "VIOLATION" in l or "failed obligation" in l]
    print(i, m["property"], "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, lines[0][:160] if lines else r.stdout[-200:], flush=True)
    shutil.rmtree(wt, ignore_errors=True)
