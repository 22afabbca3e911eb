"""Runs all contracts of a property: float world, symbolic world, replay of counterexamples."""
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("LV_REPO", "/repo")

ASSUMED = [
    "machine floating point is treated as exact real arithmetic (float literals by their decimal value)",
    "numpy/scipy.special/math functions satisfy their textbook definitions over the reals (lv/shim.py)",
    "numba-compiled functions behave as their Python source (NUMBA_DISABLE_JIT)",
    "results are claimed where the real-valued expressions are defined (no division by zero, no root of a negative)",
    "equalities are decided by randomised identity testing in GF(p), p of 128 bits (lv/pit.py), cross-checked by mpmath at sampled points of the same path",
    "z3 (reals) for path feasibility and inequalities",
    "CPython executes the mechanically transformed source as the original (lv/loader.py)",
]


class Pool:
    def __init__(self, world, module, n):
        self.world, self.module = world, module
        self.tasks = queue.Queue()
        self.results = {}
        self.lock = threading.Lock()
        self.threads = []
        self.n = n
        self.crashes = []

    def spawn(self):
        env = dict(os.environ)
        env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
        env["PYTHONHASHSEED"] = "0"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["NUMBA_DISABLE_JIT"] = "1"
        env["MPLBACKEND"] = "Agg"
        p = subprocess.Popen(
            [PY, "-u", os.path.join(VERIF, "lv", "worker.py"), self.world, self.module],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=VERIF)
        line = p.stdout.readline()
        if not line:
            p.kill()
            return None
        return p

    def work(self):
        p = self.spawn()
        while True:
            try:
                t = self.tasks.get_nowait()
            except queue.Empty:
                break
            if p is None or p.poll() is not None:
                p = self.spawn()
            if p is None:
                with self.lock:
                    self.results[t["id"]] = dict(contract=t["contract"], crash="worker does not start")
                continue
            killer = threading.Timer(t.get("hard", 300), p.kill)
            killer.start()
            try:
                p.stdin.write(json.dumps(t) + "\n")
                p.stdin.flush()
                line = p.stdout.readline()
            except (BrokenPipeError, OSError):
                line = ""
            killer.cancel()
            if not line:
                r = dict(contract=t["contract"], crash="worker ended (time or memory limit)")
                p.kill()
                p = None
            else:
                r = json.loads(line)
            with self.lock:
                self.results[t["id"]] = r
        if p is not None:
            try:
                p.stdin.close()
                p.wait(5)
            except Exception:
                p.kill()

    def run(self, tasks):
        for t in tasks:
            self.tasks.put(t)
        self.threads = [threading.Thread(target=self.work) for _ in range(min(self.n, max(1, len(tasks))))]
        for t in self.threads:
            t.start()

    def join(self):
        for t in self.threads:
            t.join()
        return self.results


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def is_known(kf, key, label):
    for d in kf:
        if d["contract"] == key and (d.get("label") in (None, label)):
            return d
    return None


def baseline():
    """contracts that the verifier accepts in full on the committed tree (tools/baseline.py)"""
    p = os.path.join(VERIF, "baseline_proved.json")
    return set(json.load(open(p))) if os.path.exists(p) else set()


def rejected(s):
    """obligations that the verifier refutes or shows not to follow, for reasons other than time"""
    out = []
    for o in (s or {}).get("obligations", []):
        if o["status"] == "refuted":
            out.append(o)
        elif o["status"] == "unknown" and o["backend"] == "pit" and "non-zero at a random point" in str(o.get("why")):
            out.append(o)
    return out


def check(prop, tier="quick", seed=1, verbose=False, only=None, evidence=True):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    from lv.world import CONTRACTS

    module = prop.lower()
    importlib.import_module("contracts." + module)
    cons = {k: c for k, c in CONTRACTS.items() if c.prop == prop and (tier == "thorough" or not c.thorough_only)}
    if only:
        cons = {k: c for k, c in cons.items() if only in k}
    if os.environ.get("LV_ONLY"):  # development aid: file of contract names
        names = set(open(os.environ["LV_ONLY"]).read().split("\n"))
        cons = {k: c for k, c in cons.items() if k in names}
    if not cons:
        print("no contracts for", prop)
        return 2
    thorough = tier == "thorough"
    mult = 12 if thorough else 1
    ftasks, stasks = [], []
    for k, c in cons.items():
        runs = [dict(seed="%s/%s/%d" % (seed, k, i), wide=i % 3 == 2) for i in range(c.samples * mult)]
        ftasks.append(dict(id="f:" + k, contract=k, runs=runs, limit=60 if thorough else 30, total=600 if thorough else 60, hard=900 if thorough else 150))
        if c.sym:
            b = c.timeout * (4 if thorough else 1)
            stasks.append(dict(id="s:" + k, contract=k, seed=seed, budget=b, hard=b * 2 + 60))
    stasks.sort(key=lambda t: -t["budget"])
    nf = 2 if stasks else 8
    fp, sp = Pool("float", module, nf), Pool("sym", module, 6)
    fp.run(ftasks)
    sp.run(stasks)
    fres, sres = fp.join(), sp.join()
    # replay of counterexamples and path witnesses on the plain code
    rt = []
    for k, c in cons.items():
        s = sres.get("s:" + k)
        if not s:
            continue
        seen, runs = set(), []
        for o in s.get("obligations", []):
            if o.get("cex") and len(runs) < 30:
                key = json.dumps(o["cex"], sort_keys=True)
                if key not in seen:
                    seen.add(key)
                    runs.append(dict(seed="%s/cex" % seed, assign=o["cex"], why="counterexample " + o["label"]))
        for w in s.get("witnesses", [])[: 400 if thorough else 60]:
            key = json.dumps(w, sort_keys=True)
            if key not in seen:
                seen.add(key)
                runs.append(dict(seed="%s/wit" % seed, assign=w, why="path witness"))
        if runs:
            rt.append(dict(id="r:" + k, contract=k, runs=runs, limit=30, total=90 if not thorough else 600, hard=200 if not thorough else 900))
    rp = Pool("float", module, 8)
    rp.run(rt)
    rres = rp.join()

    # obligations of contracts that hold in full on the committed tree and are rejected now: second opinion
    base = baseline()
    suspect = {}
    for k, c in cons.items():
        if k not in base:
            continue
        fl = [f for src in (fres.get("f:" + k), rres.get("r:" + k)) for r in (src or {}).get("runs", []) for f in r["failures"]]
        if not fl and rejected(sres.get("s:" + k)):
            suspect[k] = c
    if suspect:
        sp2 = Pool("sym", module, 6)
        sp2.run([dict(id="t:" + k, contract=k, seed=int(seed) + 1000, budget=c.timeout * 2, hard=c.timeout * 3 + 60) for k, c in suspect.items()])
        tres = sp2.join()
        rt, rej = [], {}
        for k in suspect:
            a, b = rejected(sres.get("s:" + k)), rejected(tres.get("t:" + k))
            labs = {o["label"] for o in a} & {o["label"] for o in b}
            if not labs:
                continue
            rej[k] = [o for o in a + b if o["label"] in labs]
            runs = [dict(seed="%s/cex2/%d" % (seed, i), assign=o["cex"], why="counterexample " + o["label"]) for i, o in enumerate(b) if o.get("cex")][:30]
            runs += [dict(seed="%s/more/%s/%d" % (seed, k, i), wide=i % 2 == 1, why="random input") for i in range(40)]
            rt.append(dict(id="q:" + k, contract=k, runs=runs, limit=30, total=90, hard=200))
        rp2 = Pool("float", module, 8)
        rp2.run(rt)
        for k, r in rp2.join().items():
            rres.setdefault("r:" + k[2:], dict(contract=k[2:], runs=[]))
            if r.get("runs"):
                rres["r:" + k[2:]].setdefault("runs", []).extend(r["runs"])
    else:
        rej = {}

    # ---------------------------------------------------------------- verdict
    kf = known_findings(prop)
    violations, known, unproved, cerrors, bounded = [], [], [], [], []
    nob = ndis = 0
    backends, z3s = {}, dict(queries=0, time=0.0)
    funcs = set()
    nofail = []
    evals = nontriv = checked = disc = 0
    unconf = 0
    nullp = 0
    percon = []
    samples = []
    for k, c in cons.items():
        fails = []
        okruns = 0
        for src in (fres.get("f:" + k), rres.get("r:" + k)):
            if not src:
                continue
            if src.get("crash"):
                cerrors.append("%s: %s" % (k, src["crash"][:200]))
                continue
            for r in src["runs"]:
                evals += 1
                checked += r["checked"]
                if r["status"] == "discard":
                    disc += 1
                elif r["status"] in ("contract-error", "timeout"):
                    cerrors.append("%s: %s %s" % (k, r["status"], r["notes"][:1]))
                elif r["checked"]:
                    okruns += 1
                    nontriv += 1
                    if len(samples) < 5:
                        samples.append(dict(contract=k, inputs=r["values"]))
                for f in r["failures"]:
                    fails.append((f, r))
        s = sres.get("s:" + k)
        st = {}
        n = d = 0
        if s is not None:
            if s.get("crash"):
                unproved.append("%s: symbolic run failed: %s" % (k, s["crash"][:160]))
            for e in sorted(set(s.get("errors", []))):
                unproved.append("%s: %s" % (k, e))
            for o in s.get("obligations", []):
                if o["status"] == "null":
                    nullp += 1
                    continue
                n += 1
                st[o["status"]] = st.get(o["status"], 0) + 1
                if o["status"] == "proved":
                    d += 1
                    backends[o["backend"]] = backends.get(o["backend"], 0) + 1
                else:
                    if o["status"] == "refuted" and not fails:
                        unconf += 1
                    unproved.append("%s/%s path %s: %s %s" % (k, o["label"], o["path"], o["status"], o.get("why", "")))
            if s.get("errors"):
                n += len(set(s["errors"]))
            funcs.update(s.get("functions", []))
            for q in ("queries", "time"):
                z3s[q] += s.get("z3", {}).get(q, 0)
            if c.bounded:
                bounded.append("%s: %s" % (k, c.bounded))
        else:
            bounded.append("%s: bounded, %d executions of the real code" % (k, okruns))
        nob += n
        ndis += d
        percon.append(dict(contract=k, functions=c.fns, obligations=n, discharged=d, paths=(s or {}).get("paths"),
                           executions=okruns, proof=bool(s is not None and n and n == d), bounded=c.bounded or (None if c.sym else "sampled inputs only"),
                           time=round((s or {}).get("wall", 0), 2)))
        for f, r in fails:
            kn = is_known(kf, k, f[0])
            (known if kn else violations).append((k, f, r, kn))
        if k in rej and not fails:
            nofail.append((k, rej[k]))
        if okruns == 0 and not n:
            cerrors.append("%s: no obligation and no execution (vacuous)" % k)
        if verbose:
            print("%-50s ob %d/%d %s paths %s exec %d fails %d %.1fs/%.1fs %s" % (
                k, d, n, st, (s or {}).get("paths"), okruns, len(fails), (s or {}).get("wall", 0), (fres.get("f:" + k) or {}).get("wall", 0), "" ))
            for f, r in fails[:3]:
                print("    FAIL", f, json.dumps(r["spec"])[:200], r["values"])
    if verbose:
        grp = {}
        for u in unproved:
            grp.setdefault(u.split(":")[1].split("/")[0], []).append(u)
        for g, us in grp.items():
            print("  unproved %s (%d): %s" % (g, len(us), us[0][len(prop) + 1:][:240]))
        for u in cerrors:
            print("  contract error:", u[:300])
    printed = set()
    for k, f, r, kn in known:
        if kn["id"] not in printed:
            printed.add(kn["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop, kn["what"]))
    code = 0
    if violations:
        code = 1
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        byc = {}
        for k, f, r, _ in violations:
            byc.setdefault((k, f[0]), (f, r))
        i = 0
        for (k, lab), (f, r) in list(byc.items())[:10]:
            path = os.path.join("evidence", "replay", "%s_%d.json" % (prop, i))
            i += 1
            ob = [o for o in (sres.get("s:" + k) or {}).get("obligations", []) if o["label"].split("[")[0] == lab.split("[")[0] and o["status"] != "proved"]
            json.dump(dict(property=prop, contract=k, obligation=lab, message=f[1], seed=r["spec"]["seed"], assign=r["values"],
                           wide=r["spec"].get("wide", False),
                           why=r["spec"].get("why", "random input"), verifier=[dict(status=o["status"], backend=o["backend"], why=o.get("why"), path=o.get("conds")) for o in ob[:5]],
                           replay_cmd="%s run.py replay %s" % (PY, path)), open(os.path.join(VERIF, path), "w"), indent=1)
            print("failed obligation %s/%s: %s" % (k, lab, f[1][:300]))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.join(VERIF, path)))
    for i, (k, obs) in enumerate(nofail[:5]):
        code = 1
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        path = os.path.join("evidence", "replay", "%s_obligation_%d.json" % (prop, i))
        json.dump(dict(property=prop, contract=k, obligation=obs[0]["label"], seed="%s/none" % seed, assign=obs[0].get("cex") or {},
                       message="the verifier accepts this contract in full on the committed tree and rejects the obligation now; no input that fails in floating point was found",
                       verifier=[dict(label=o["label"], status=o["status"], backend=o["backend"], why=o.get("why"), path=o.get("conds"), cex=o.get("cex")) for o in obs[:8]],
                       replay_cmd="%s run.py check %s --only '%s' -v" % (PY, prop, k)), open(os.path.join(VERIF, path), "w"), indent=1)
        print("failed obligation %s/%s: %s %s" % (k, obs[0]["label"], obs[0]["status"], str(obs[0].get("why"))[:200]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, os.path.join(VERIF, path)))
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=int(seed), level="proof" if nob else "exploration",
        coverage=dict(
            obligations=nob, discharged=ndis,
            checker_cmd="%s run.py check %s --tier %s" % (PY, prop, tier),
            trusted_base=ASSUMED + sorted({a for c in cons.values() for a in c.assumes}),
            backends=backends, z3_queries=z3s["queries"], z3_time_s=round(z3s["time"], 2),
            solver_time_s=round(sum((sres.get("s:" + k) or {}).get("wall", 0) for k in cons), 1),
            functions_executed_symbolically=sorted(funcs), functions_executed_symbolically_count=len(funcs),
            contracts=percon, contracts_fully_proved=sum(1 for p in percon if p["proof"]),
            undischarged=[u[:300] for u in unproved][:200], bounded=bounded, null_paths=nullp,
            refuted_unconfirmed=unconf, contract_errors=cerrors[:50],
            evaluations=evals, distinct_nontrivial=nontriv, discarded=disc, postconditions_checked=checked,
            rule="an execution of the plain code on random inputs satisfying the precondition, or on a counterexample / path witness from the symbolic run; non-trivial if at least one postcondition was evaluated",
            samples=samples,
        ),
        assumptions=ASSUMED + sorted({a for c in cons.values() for a in c.assumes}), wall_s=round(wall, 1), violations=len(violations) + len(nofail))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if evidence and not only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d contracts, %d/%d obligations discharged, %d contracts fully proved, %d executions (%d non-trivial), %d functions, %.0f s" % (
        prop, len(cons), ndis, nob, ev["coverage"]["contracts_fully_proved"], evals, nontriv, len(funcs), wall))
    if code == 0 and nontriv == 0 and ndis == 0:
        print("nothing was checked")
        return 2
    return code


def replay(path):
    sys.path.insert(0, VERIF)
    d = json.load(open(path))
    p = Pool("float", d["property"].lower(), 1)
    p.run([dict(id="r", contract=d["contract"], runs=[dict(seed=d["seed"], assign=d["assign"], wide=d.get("wide", False))], limit=120)])
    r = p.join()["r"]
    if r.get("crash"):
        print(r["crash"])
        return 2
    bad = r["runs"][0]["failures"]
    for f in bad:
        print("fails:", f)
    print("replayed %s: %s" % (d["contract"], "property broken" if bad else "holds"))
    return 1 if bad else 0
