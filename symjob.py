"""Runs scenario cases in the verifier.  One JSON job per line on stdin, one JSON result per line.

job: {"id": number, "scenario": name, "no": number of the case, "budget": seconds}
"""
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

from engine import ctx, symenv, terms, solver, unbound      # noqa: E402
from engine import loader                          # noqa: E402
from scen import registry                          # noqa: E402

_seen = set()
_on = []


def trace_on():
    """Remember which functions of the package are executed by the verifier."""
    if _on:
        return
    _on.append(1)
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "zkv")
    root = os.path.join(loader.REPO, "zksk") + os.sep

    def start(code, off):
        if code.co_filename.startswith(root):
            name = ".".join(x for x in code.co_qualname.replace(".<locals>", "").split(".") if not x.startswith("__zkv"))
            if not name.endswith(("<listcomp>", "<genexpr>", "<dictcomp>", "<lambda>", "<setcomp>", "<module>")):
                _seen.add("%s:%s" % (os.path.relpath(code.co_filename, loader.REPO), name))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, start)
    mon.set_events(mon.COVERAGE_ID, mon.events.PY_START)


def in_engine(e):
    """An exception that shows a gap of the stubs rather than behaviour of the package."""
    tb = traceback.extract_tb(e.__traceback__)
    if not tb:
        return False
    last = tb[-1].filename
    if isinstance(e, (NotImplementedError,)):
        return True
    if isinstance(e, (AttributeError, ImportError)) and ("engine" in last or "Sym" in str(e) or "engine" in str(e)
                                                        or "SInt" in str(e) or "SBool" in str(e)):
        return True
    return "/engine/" in last and isinstance(e, (AttributeError, KeyError, IndexError, ImportError, RecursionError))


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "%s: %s @ %s" % (type(e).__name__, str(e)[:200],
                            " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-6:][::-1]))


def candidate(c, env):
    """Inputs that may reproduce a refuted obligation on the real library."""
    over = {}
    try:
        m = solver.model(c)
    except Exception:
        m = None
    for name, (kind, a) in c.inputs.items():
        if kind == "int" and m and a.id in m:
            over[name] = str(m[a.id])
        if kind == "int" and a.id in c.subst and c.subst[a.id].is_const():
            over[name] = str(c.subst[a.id].const())
    for f in c.path:
        if f[0] == "eqm":
            x = f[1].single_atom()
            if x is not None and x.kind == "var":
                over[x.args[0]] = "0"
    for k, v in getattr(env, "chosen", {}).items():
        over[k] = str(v)
    force = [e[3] for e in c.events if e[0] == "choice" and e[3] >= 0]
    return over, force


def failed(job, e, t):
    return dict(id=job["id"], internal=describe(e), t=t, obligations=0, discharged=0, refuted=[],
                unsupported=["verifier error: " + describe(e)], incomplete=None, functions=[], by_backend={},
                assumed=[], labels={}, paths=0, solver_s=0.0, z3=0)


def run_case(job):
    scs = {s.name: s for s in registry.load()}
    sc = scs[job["scenario"]]
    case = sc.cases[job["no"]]
    trace_on()
    sys.monitoring.restart_events()
    _seen.clear()
    last = {}

    def run(c):
        cls = unbound.UnboundEnv if sc.unbound else symenv.SymEnv
        last["env"] = env = cls(c, bodies=sc.bodies)
        c.env_ = env
        try:
            sc.fn(env, **case)
        except (ctx.Unsupported, ctx.Prune, ctx.Refuted, ctx.BudgetExceeded):
            raise
        except Exception as e:
            if in_engine(e):
                raise ctx.Unsupported("stub gap: " + describe(e))
            if registry.absent(e):
                raise ctx.Unsupported("not in the library: " + registry.absent(e))
            r = ctx.Refuted("no unexpected error", None, describe(e))
            r.certain = None
            raise r
    t0 = time.time()
    try:
        r = ctx.explore(run, deadline=t0 + job.get("budget", 60), stop_after=4)
    except Exception as e:
        return failed(job, e, time.time() - t0)
    ref = []
    for label, text, e, c in r.refuted:
        over, force = candidate(c, c.env_)
        ref.append(dict(label=label, text=str(text)[:1500], detail=str(e.detail)[:400],
                        certain=None if sc.unbound else getattr(e, "certain", None), path=[terms.fstr(x)[:200] for x in c.path][:30],
                        overrides=over, force=force, notes=c.env_.notes[:10]))
    return dict(id=job["id"], t=time.time() - t0, obligations=r.obligations, discharged=r.discharged, refuted=ref,
                unsupported=sorted(set(r.unsupported)), incomplete=r.incomplete, functions=sorted(_seen),
                by_backend=r.by_backend, assumed=sorted(r.assumed), labels=r.labels, paths=r.paths,
                solver_s=r.solver_s, z3=r.z3_calls)


def main():
    out = os.fdopen(os.dup(1), "w")
    sys.stdout = open(os.devnull, "w")
    for line in sys.stdin:
        job = json.loads(line)
        try:
            r = run_case(job)
        except Exception as e:
            r = failed(job, e, 0.0)
        out.write(json.dumps(r, default=str) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
