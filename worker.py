"""Runs scenarios on the real library.  One JSON job per line on stdin, one JSON result per line.

job: {"scenario": name, "case": index or dict, "seeds": [...], "overrides": {...}, "force": [...]}
"""
import json
import os
import sys
import time
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("ZKSK_REPO", "/repo"))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

from engine.env import Fail, Skip          # noqa: E402
from engine import conenv                  # noqa: E402
from scen import registry                  # noqa: E402


def tup(x):
    if isinstance(x, list):
        return tuple(tup(y) for y in x)
    return x


def run_one(sc, case, seed, overrides=None, force=None):
    env = conenv.ConEnv(seed, overrides, force)
    r = {"seed": seed}
    try:
        sc.fn(env, **case)
        r["ok"] = True
    except Skip:
        r["skip"] = True
    except Fail as e:
        tb = traceback.extract_tb(e.__traceback__)
        r.update(ok=False, label=e.label, detail=str(e.detail)[:400],
                 at=[f.lineno for f in tb if "/scen/" in f.filename][:1])
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, (OverflowError, MemoryError)) and not any("/zksk/" in f.filename for f in tb):
            r["skip"] = True            # the scenario cannot even state it for these inputs
        elif registry.absent(e):
            r["skip"] = True            # it is about an internal function that the library does not have
        else:
            r.update(ok=False, label="no unexpected error",
                     detail="%s: %s @ %s" % (type(e).__name__, str(e)[:200],
                                             " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                                                         for f in tb[-6:][::-1])))
    r["checks"] = env.nchecks
    if not r.get("ok") and not r.get("skip"):
        r["inputs"] = {k: str(v) for k, v in env.values.items()}
        r["draws"] = [[str(v)[:80], str(n)[:80], how] for v, n, how in conenv.SRC.draws][:60]
        r["choices"] = [list(map(str, e)) for e in conenv.SRC.events][:40]
        r["notes"] = env.notes[:20]
    r["labels"] = sorted(env.labels)
    return r


def main():
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    import importlib
    scs = {s.name: s for s in registry.load()}
    try:
        for m in ("zksk", "zksk.extended", "zksk.pairings", "zksk.primitives.dl_notequal",
                  "zksk.primitives.rangeproof", "zksk.primitives.bbsplus"):
            importlib.import_module(m)
        err = None
    except Exception as e:
        err = "import: %s: %s" % (type(e).__name__, e)
    for line in sys.stdin:
        job = json.loads(line)
        sc = scs[job["scenario"]]
        case = {k: tup(v) for k, v in job["case"].items()}
        res = []
        t0 = time.time()
        for seed in job["seeds"]:
            if err:
                res.append({"seed": seed, "ok": False, "label": "the package is imported", "detail": err,
                            "checks": 0, "labels": []})
                break
            r = run_one(sc, case, seed, job.get("overrides"), job.get("force"))
            for k in range(1, 9):
                if not r.get("skip") or job.get("overrides"):
                    break
                r = run_one(sc, case, seed + 1000 * k, None, job.get("force"))
            res.append(r)
            if job.get("stop") and res[-1].get("ok") is False:
                break
            if time.time() - t0 > job.get("budget", 60):
                break
        out.write(json.dumps({"id": job["id"], "results": res, "t": time.time() - t0}) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
