"""Worker process: executes contracts in one world.  Tasks arrive as JSON lines on stdin."""
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Alarm(TimeoutError):
    pass


def _alarm(*a):
    raise Alarm("time limit")


SEEN = {}
REJECT = ("CallRejected", "KeyError", "IndexError", "TypeError", "ValueError")


def monitor(repo):
    """records which functions of the repository are entered (each code object once)"""
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, "lv")
    pre = repo.rstrip("/") + "/lenstronomy/"

    def start(code, off):
        f = code.co_filename
        if f.startswith(pre) and not code.co_name.startswith("<"):
            SEEN[f[len(repo.rstrip("/")) + 1:] + "::" + code.co_qualname] = 1
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


LINES = {}


def line_monitor(repo):
    """development aid (LV_COV=directory): records which lines of the repository each contract executes"""
    mon = sys.monitoring
    mon.use_tool_id(4, "lvcov")
    pre = repo.rstrip("/") + "/lenstronomy/"

    def line(code, no):
        f = code.co_filename
        if f.startswith(pre):
            LINES.setdefault(f[len(pre):], set()).add(no)
        return mon.DISABLE

    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)


def line_dump(contract, world):
    with open(os.path.join(os.environ["LV_COV"], "%d.jsonl" % os.getpid()), "a") as f:
        f.write(json.dumps(dict(contract=contract, world=world, lines={k: sorted(v) for k, v in LINES.items()})) + "\n")
    LINES.clear()


def float_run(con, seed, assign=None, wide=False, limit=20):
    from lv.world import FloatW, Discard
    import numpy as np

    W = FloatW(seed, assign, wide)
    out = dict(values=None, failures=[], checked=0, status="ok", notes=[])
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        np.random.seed(W.rng.randrange(1 << 31))
        random.seed(W.rng.randrange(1 << 31))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            con.body(W)
    except Discard:
        out["status"] = "discard"
    except Alarm:
        out["status"] = "timeout"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1].filename if tb else ""
        loc = "; ".join("%s:%d %s" % (f.filename.split("/")[-1], f.lineno, f.name) for f in tb[-3:])
        inside = any("/lenstronomy/" in f.filename for f in tb)
        # a stand-in which has no such method gives no answer; one which rejects what it is given does
        own = isinstance(e, AttributeError) and type(getattr(e, "obj", None)).__module__.startswith("contracts")
        if inside and not own and (not last.startswith(VERIF + os.sep) or type(e).__name__ in REJECT):
            out["failures"].append(["raised", "%s: %s at %s" % (type(e).__name__, str(e)[:300], loc)])
        else:
            out["status"] = "contract-error"
            out["notes"].append("%s: %s at %s" % (type(e).__name__, str(e)[:300], loc))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out["values"] = W.values
    out["failures"] += [list(map(str, f)) for f in W.failures]
    out["checked"] = W.checked
    out["notes"] += W.notes[:3]
    return out


def main():
    world, module = sys.argv[1], sys.argv[2]
    sys.path.insert(0, VERIF)
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(20000)
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    os.environ.setdefault("MPLBACKEND", "Agg")
    real_out = os.fdopen(os.dup(1), "w", buffering=1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    sys.stdout = open(os.devnull, "w")
    from lv import loader

    (loader.install if world == "sym" else loader.install_plain)()
    signal.signal(signal.SIGALRM, _alarm)
    from lv.world import CONTRACTS
    import importlib

    importlib.import_module("contracts." + module)
    if world == "sym":
        monitor(loader.REPO)
        from lv import prove
    if os.environ.get("LV_COV"):
        line_monitor(loader.REPO)
    real_out.write(json.dumps({"ready": sorted(CONTRACTS)}) + "\n")
    for line in sys.stdin:
        task = json.loads(line)
        con = CONTRACTS[task["contract"]]
        t0 = time.time()
        if os.environ.get("LV_COV"):
            LINES.clear()
            sys.monitoring.restart_events()
        try:
            if world == "sym":
                budget = task["budget"]
                signal.setitimer(signal.ITIMER_REAL, budget * 1.5 + 10)
                SEEN.clear()
                sys.monitoring.restart_events()
                try:
                    res = prove.prove(con, task["seed"], budget)
                except Alarm:
                    res = dict(contract=task["contract"], obligations=[], witnesses=[], errors=["time limit"], paths=0, z3={})
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                res["functions"] = sorted(SEEN)
            else:
                runs = []
                for spec in task["runs"]:
                    r = float_run(con, spec["seed"], spec.get("assign"), spec.get("wide", False), task.get("limit", 20))
                    r["spec"] = spec
                    runs.append(r)
                    if time.time() - t0 > task.get("total", 60):
                        break
                res = dict(contract=task["contract"], runs=runs)
        except Exception as e:
            res = dict(contract=task["contract"], crash="%s\n%s" % (e, traceback.format_exc()[-1500:]))
        if os.environ.get("LV_COV"):
            line_dump(task["contract"], world)
        res["task"] = task["id"]
        res["wall"] = time.time() - t0
        real_out.write(json.dumps(res, default=_js) + "\n")


def _js(o):
    try:
        return float(o)
    except Exception:
        return repr(o)


if __name__ == "__main__":
    main()
