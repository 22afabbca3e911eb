#!/opt/venv/bin/python
"""mkseed.py SPEC.py : builds /verif/seeded/<id> from a spec defining
ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source), TESTS (pytest paths).
Works in a scratch copy /tmp/wt of /repo, which is removed."""
import json, os, runpy, shutil, subprocess, sys

PY = "/opt/venv/bin/python"
REPO = os.environ.get("LV_REPO", "/repo")


def sh(cmd, cwd=None, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", NUMBA_CACHE_DIR="/tmp/wt_numba")
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True)


for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    wt = "/tmp/wt_" + s["ID"]
    shutil.rmtree(wt, ignore_errors=True)
    sh("cp -a " + REPO + " %s" % wt)
    for f, old, new in s["EDITS"]:
        p = os.path.join(wt, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(s["ID"], "PATTERN count", t.count(old), f)
            sys.exit(1)
        open(p, "w").write(t.replace(old, new))
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded") + "/" + s["ID"]
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git diff", wt).stdout)
    open(d + "/demo.py", "w").write(s["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg NUMBA_DISABLE_JIT=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    a, b = sh("bash %s/demo.sh" % d, REPO), sh("bash %s/demo.sh" % d, wt)
    t = sh("%s -m pytest -q -x -n 8 --timeout 600 -p no:cacheprovider -c setup.cfg --rootdir . %s 2>&1 | tail -5" % (PY, s["TESTS"]), wt, {"PYTHONPATH": wt + ":/opt/vp/pytest_plugins"})
    print(s["ID"], "demo clean", a.returncode, "demo patched", b.returncode, b.stdout.strip()[-150:], a.stderr[-200:] if a.returncode else "", "| tests:", t.stdout.strip().split("\n")[-1])
    shutil.rmtree(wt, ignore_errors=True)
