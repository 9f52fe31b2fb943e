#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]      decide a property on /repo's working tree
check.py --replay FILE                     run the concrete input of a replay file again

1. Every scenario of the property (contracts over the real functions, see DESIGN.md) is run in the
   verifier: every path, all scalars, points and random numbers symbolic.
2. The same scenarios run on the real library (replay of refuted obligations, and a bounded battery
   for what the verifier's model leaves out).
Exit 0: holds; exit 1: VIOLATION line.
"""
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("ZKSK_REPO", "/repo")
PY = "/opt/venv/bin/python"
NPROC = min(8, os.cpu_count() or 4)

from scen import registry           # noqa: E402

TRUSTED = [
    "the verifier itself (engine/: path exploration, normal forms of polynomials and linear combinations)",
    "z3 (order and divisibility of integers)",
    "CPython executes the unmodified text of /repo/zksk; petlib, bplib, hashlib, secrets and random are replaced "
    "by contracts (engine/stubs.py): groups of prime order, a bilinear pairing, collision-free hashing, uniform draws",
    "petlib.pack and msgpack are executed as they are",
]


# ---------------------------------------------------------------------------
# concrete runs


class Workers:
    """A pool of processes, of the real library or of the verifier; each does one job at a time (lines of JSON)."""

    def __init__(self, n, deadline, script="worker.py", each=None):
        self.n, self.deadline, self.script, self.each = n, deadline, script, each

    def run(self, jobs, stop=None):
        """All jobs; results by id.  A worker that dies or hangs is replaced and the job noted."""
        results, lock, todo = {}, threading.Lock(), list(jobs)[::-1]

        def loop():
            p, done = None, 0
            while True:
                if p is not None and self.each and done >= self.each:
                    self._end(p)
                    p = None
                with lock:
                    if not todo or time.time() > self.deadline or (stop and stop(results)):
                        break
                    job = todo.pop()
                if p is None:
                    p, done = self._start(), 0
                done += 1
                limit = max(5, min(job.get("budget", 60) + 30, self.deadline - time.time()))
                timer = threading.Timer(limit, p.kill)
                timer.start()
                try:
                    p.stdin.write(json.dumps(job) + "\n")
                    p.stdin.flush()
                    line = p.stdout.readline()
                except (BrokenPipeError, OSError):
                    line = ""
                timer.cancel()
                if not line:
                    try:
                        p.kill()
                    except OSError:
                        pass
                    p.wait()
                    p = None
                    with lock:
                        results[job["id"]] = {"id": job["id"], "results": [], "died": True, "t": limit}
                    continue
                with lock:
                    results[job["id"]] = json.loads(line)
            if p is not None:
                self._end(p)
        th = [threading.Thread(target=loop) for _ in range(self.n)]
        for t in th:
            t.start()
        for t in th:
            t.join()
        return results

    def _end(self, p):
        try:
            p.stdin.close()
            p.wait(5)
        except (subprocess.TimeoutExpired, OSError):
            p.kill()
            p.wait()

    def _start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", ZKSK_REPO=REPO)
        py = PY if self.script == "worker.py" else sys.executable
        return subprocess.Popen([py, "-W", "ignore", os.path.join(HERE, self.script)], stdin=subprocess.PIPE,
                                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=HERE)


def failing(r):
    for x in r.get("results", []):
        if x.get("ok") is False:
            return x
    return None


def known_findings(prop):
    path = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f) if k.get("property") == prop and k.get("status") == "open"]


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    total = 540 if tier == "quick" else 3000
    deadline = t0 + total
    scs = [s for s in registry.load() if prop in s.props]
    if not scs:
        print("no scenario decides %s" % prop)
        return 1
    # -- jobs
    sym, con = [], []
    factor = 1 if tier == "quick" else 12
    for s in scs:
        own = s.props[0] == prop
        for no, case in enumerate(s.cases):
            if s.sym:
                sym.append(dict(id=len(sym), scenario=s.name, case=case, no=no, budget=60 if tier == "quick" else 600))
        for case in s.cases + s.con_cases:
            n = s.seeds * factor if own or tier == "thorough" else max(1, s.seeds // 2)
            con.append(dict(id=len(con), scenario=s.name, case=case, seeds=[seed * 1000 + i for i in range(n)],
                            stop=True, budget=60 if tier == "quick" else 300))
    # -- verifier
    symres = {}
    ver = threading.Thread(target=lambda: symres.update(Workers(NPROC, deadline, "symjob.py", 40).run(sym)))
    ver.start()
    # -- battery (runs while the verifier does)
    conres = Workers(NPROC, deadline).run(con)
    ver.join()
    lost = [j for j in sym if j["id"] not in symres or symres[j["id"]].get("died")]
    for j in lost:
        symres.pop(j["id"], None)
    # -- violations
    viol = []
    for j in con:
        r = conres.get(j["id"])
        f = failing(r) if r else None
        if f:
            viol.append(dict(scenario=j["scenario"], case=j["case"], label=f["label"], how="concrete battery", run=f))
    # refuted obligations: replay on the real library
    replays, owners = [], []
    for j in sym:
        r = symres.get(j["id"])
        if not r:
            continue
        for ref in r["refuted"][:4]:
            if any(v["scenario"] == j["scenario"] and v["case"] == j["case"] for v in viol):
                continue
            base = dict(scenario=j["scenario"], case=j["case"], stop=True, budget=40)
            ch = {k: v for k, v in ref["overrides"].items() if k.startswith("choose:")}
            owners.append((j, ref, []))
            for over, force, n in ((ref["overrides"], ref["force"], 4), (ch, ref["force"], 12), (ch, [], 12), ({}, [], 12)):
                replays.append(dict(base, id=len(replays), overrides=over, force=force,
                                    seeds=[seed * 1000 + 500 + i for i in range(n)]))
                owners[-1][2].append(len(replays) - 1)
    # one failing input decides; the other obligations are listed without one
    rr = {}
    if replays and not viol:
        first = {}

        def hit_one(results):
            for i in list(results):
                if i not in first:
                    first[i] = failing(results[i]) is not None
            return any(first.values())
        rr = Workers(NPROC, max(deadline, time.time() + 120)).run(
            sorted(replays, key=lambda r: len(r["seeds"])), stop=hit_one)
    unknown = []
    for j, ref, ids in owners:
        hit = None
        for i in ids:
            f = failing(rr.get(i, {}))
            if f:
                hit = f
                break
        if hit:
            viol.append(dict(scenario=j["scenario"], case=j["case"], label=hit["label"], how="counterexample of the "
                             "verifier, replayed", run=hit, refuted=ref))
        elif ref["certain"] is not None:
            viol.append(dict(scenario=j["scenario"], case=j["case"], label=ref["label"], how="not discharged: " + (
                "its negation holds on this path" if ref["certain"] else "neither it nor its negation follows"),
                             run=None, refuted=ref))
        else:
            unknown.append((j, ref))
    # -- report
    obligations = sum(r["obligations"] for r in symres.values())
    discharged = sum(r["discharged"] for r in symres.values())
    checks = sum(x["checks"] for r in conres.values() for x in r["results"])
    runs = sum(len(r["results"]) for r in conres.values())
    skipped = sum(1 for r in conres.values() for x in r["results"] if x.get("skip"))
    died = [j for j in con if conres.get(j["id"], {}).get("died")]
    notrun = [j for j in con if j["id"] not in conres]
    backends, assumed, funcs, labels = {}, set(), set(), {}
    per = {}
    for j in sym:
        r = symres.get(j["id"])
        if not r:
            continue
        for k, v in r["by_backend"].items():
            backends[k] = backends.get(k, 0) + v
        assumed |= set(r["assumed"])
        funcs |= set(r["functions"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        p = per.setdefault(j["scenario"], dict(cases=0, paths=0, obligations=0, discharged=0, seconds=0.0))
        p["cases"] += 1
        p["paths"] += r["paths"]
        p["obligations"] += r["obligations"]
        p["discharged"] += r["discharged"]
        p["seconds"] = round(p["seconds"] + r["t"], 2)
    undecided = ["%s %s: %s" % (j["scenario"], j["case"], ref["label"]) for j, ref in unknown]
    for j in sym:
        r = symres.get(j["id"])
        if r:
            undecided += ["%s %s: %s" % (j["scenario"], j["case"], u) for u in r["unsupported"]]
            if r["incomplete"]:
                undecided.append("%s %s: paths beyond the %s" % (j["scenario"], j["case"], r["incomplete"]))
    undecided += ["%s %s: no answer of the verifier in time" % (j["scenario"], j["case"]) for j in lost]
    if sym and not obligations:
        undecided.append("the verifier generated no obligations")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    level = "proof" if sym else "exploration"
    known = known_findings(prop)
    new, old = [], []
    for v in viol:
        k = next((k for k in known if k["scenario"] == v["scenario"] and k["label"] == v["label"]
                  and (k.get("case") is None or json.dumps(k["case"]) == json.dumps(v["case"]))), None)
        (old if k else new).append((v, k))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2),
              violations=len(new),
              assumptions=sorted(assumed) + [
                  "trees of statements are of the shapes listed in the scenarios, except where a scenario is marked as "
                  "of unknown size (lists, children, bits and messages of any number); all scalars, points, challenges and "
                  "random numbers are arbitrary"],
              coverage=dict(
                  obligations=obligations, discharged=discharged,
                  checker_cmd="python3-vt /verif/check.py %s %s" % (prop, tier), trusted_base=TRUSTED,
                  discharged_by=backends, solver_s=round(sum(r["solver_s"] for r in symres.values()), 2),
                  z3_calls=sum(r["z3"] for r in symres.values()),
                  functions_under_contract=sorted(funcs), functions_count=len(funcs), scenarios=per,
                  obligation_names=labels, undecided=undecided,
                  bounded=dict(evaluations=runs, checks=checks, skipped=skipped, jobs=len(con), not_run=len(notrun),
                               no_answer=["%s %s" % (j["scenario"], j["case"]) for j in died],
                               rule="the scenarios on the real petlib/bplib with seeded values and edge cases; "
                                    "counted as bounded checks, never as proved"),
                  evaluations=runs, distinct_nontrivial=runs - skipped,
                  rule="one run per scenario case and seed whose drawn values satisfy the preconditions",
                  samples=[dict(scenario=j["scenario"], case=str(j["case"])) for j in con[:5]]))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d/%d obligations discharged (%s), %d functions, %d concrete runs with %d checks, %d undecided, %.1f s"
          % (prop, tier, discharged, obligations, ", ".join("%s %d" % x for x in sorted(backends.items())),
             len(funcs), runs, checks, len(undecided), time.time() - t0))
    for u in undecided[:20]:
        print("UNDECIDED", u[:300])
    for v, k in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if not new:
        return 0
    new = [v for v, _ in new]
    new.sort(key=lambda v: v["run"] is None)
    d = os.path.join(HERE, "work", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % prop)
    v = new[0]
    rec = dict(property=prop, obligation=v["label"], scenario=v["scenario"], case=v["case"], how=v["how"],
               failing_input=v["run"], verifier=v.get("refuted"), others=["%s %s: %s" % (
                   x["scenario"], x["case"], x["label"]) for x in new[1:40]],
               rerun="python3-vt /verif/check.py --replay %s" % path)
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, default=str)
    print("failed obligation: %s [%s %s] %s" % (v["label"], v["scenario"], v["case"],
                                                 (v["run"] or v["refuted"]).get("detail", "")[:300]))
    print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if v["run"] else " no-failing-input-found"))
    return 1


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    if not rec["failing_input"]:
        print(json.dumps(rec, indent=1))
        return 1
    job = dict(id=0, scenario=rec["scenario"], case=rec["case"], seeds=[rec["failing_input"]["seed"]],
               overrides={k: v for k, v in rec["failing_input"]["inputs"].items()})
    r = Workers(1, time.time() + 300).run([job])[0]
    print(json.dumps(r, indent=1))
    return 1 if failing(r) else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(3)
