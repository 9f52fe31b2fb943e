"""C17: serialized proofs."""
from .registry import scenario
from .model import *
from .common import *
from . import shapes as SH

dl, bad = SH.dl, SH.bad
GROUPS = ["ec", "415", "g1", "g2", "gt"]


def the_group(env, g):
    if g in ("ec", "415"):
        return env.group(None if g == "ec" else 415)
    bp = env.shared("bp", lambda: env.m("pairings").BilinearGroupPair())
    return {"g1": bp.G1, "g2": bp.G2, "gt": bp.GT}[g]


def equal_parts(env, a, b, label):
    for part in ("challenge", "responses", "precommitment", "stmt_hash"):
        env.check(env.same(getattr(a, part), getattr(b, part)), "%s: equal %s" % (label, part))
    env.check(same_types(env, [a.challenge, a.responses, a.precommitment, a.stmt_hash],
                         [b.challenge, b.responses, b.precommitment, b.stmt_hash]), label + ": numbers and points of the same kind")


def same_types(env, a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same_types(env, x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_types(env, a[k], b[k]) for k in a)
    if isinstance(a, (bytes, str)):
        return isinstance(b, bytes if isinstance(a, bytes) else str)
    return type(a) is type(b)


def round_trip(env, n, label):
    base = env.m("base")
    raw = n.serialize()
    env.check(isinstance(raw, bytes), label + ": serialized to bytes")
    m = base.NIZK.deserialize(raw)
    env.check(type(m) is base.NIZK, label + ": a proof is obtained")
    equal_parts(env, n, m, label)
    env.check(m.serialize() == raw, label + ": the same bytes again")
    env.check(n.serialize() == raw, label + ": serializing is deterministic")
    return m, raw


@scenario("C17", "C01", cases=[dict(spec=s) for s in SH.ALL + SH.BIG[10:]], con=[dict(spec=s) for s in SH.BIG + [("range", 0, 1000, "x", 999), ("p2", 40, "x", 1 << 39)]], seeds=2)
def honest_proofs(env, spec):
    inst, p, v, d = honest(env, spec)
    n = prove(env, p, message="m")
    m, raw = round_trip(env, n, "an honest proof")
    env.check_accept("the deserialized proof is accepted", v.verify, m, message="m")
    env.check_accept("the original one still is", v.verify, n, message="m")
    env.check_accept("by another verifier too", inst.stmt(make_secrets(env, inst, False)[0]).verify, env.m("base").NIZK.deserialize(raw), message="m")
    env.check_reject("for another message it is not", v.verify, m, message="n")


@scenario("C17", cases=[dict(n=2)], con=[dict(n=n) for n in (600, 4000)], seeds=1)
def large_proofs(env, n):
    """A proof of any size."""
    z = env.z
    g, h = env.gens(2, env.group(), "large")
    x, y = (env.sc(k, env.group().order()) for k in "xy")

    def stmt(*vals):
        a, b = (z.Secret(value=v) for v in vals or (None, None))
        k = n // 2
        return z.DLRep(k * x * g + k * y * h, env.m("expr").wsum_secrets([a, b] * k, [g, h] * k))
    m, raw = round_trip(env, stmt(x, y).prove(message="m"), "a large proof")
    env.check_accept("the deserialized proof is accepted", stmt().verify, m, message="m")
    base = env.m("base")
    big = base.NIZK(challenge=m.challenge, responses=m.responses, precommitment=[{"Cs": [g, h] * n, "rand": x}, None], stmt_hash=m.stmt_hash)
    round_trip(env, big, "a proof with a large precommitment")


@scenario("C17", "C03", cases=[dict(spec=s) for s in SH.SOME], seeds=3)
def wrong_proofs(env, spec):
    """What is rejected is rejected after a round trip."""
    inst, p, v, d = honest(env, spec)
    n = prove(env, p)
    paths = tree_paths(n.responses)
    at = paths[env.choose(len(paths), "place")]
    dlt = env.num("delta", 1, 1 << 100)
    for z in (copy_nizk(env, n, responses=tree_set(n.responses, at, tree_get(n.responses, at) + dlt)),
              copy_nizk(env, n, challenge=n.challenge + dlt), copy_nizk(env, n, stmt_hash=b"0" * 32), copy_nizk(env, n, responses=[])):
        m, _ = round_trip(env, z, "a wrong proof")
        env.check_reject("a wrong proof is rejected after a round trip", inst.stmt(make_secrets(env, inst, False)[0]).verify, m)


@scenario("C17", cases=[dict(spec=s) for s in SH.SOME[:6]], seeds=1)
def what_it_is_now(env, spec):
    """A proof is serialized as it is, also after its parts were exchanged."""
    inst, p, v, d = honest(env, spec)
    n = prove(env, p)
    base = env.m("base")
    o = env.m("base").NIZK.deserialize(n.serialize())
    for z in (n, o):
        raw = z.serialize()
        for k, new in (("challenge", z.challenge + env.num("d", 1, 1 << 100)), ("responses", [env.num("r", 0, 1 << 64)]), ("precommitment", [env.pt("P"), None]),
                       ("stmt_hash", b"\1" * 32), ("responses", [[env.num("r2")], []])):
            setattr(z, k, new)
            m, raw2 = round_trip(env, z, "a proof whose part was exchanged")
            env.check(env.not_(env.same(raw, raw2)), "has other bytes")
            env.check(env.same(getattr(m, k), new), "which stand for the new part")
            env.check(raw2 == base.NIZK(challenge=z.challenge, responses=z.responses, precommitment=z.precommitment, stmt_hash=z.stmt_hash).serialize(), "the bytes are those of a fresh object")
            raw = raw2
    z = prove(env, p)
    z.serialize()
    if not isinstance(z.responses, list):
        return
    z.responses.append(env.bn(5))
    m, _ = round_trip(env, z, "a proof that was extended in place")
    env.check(len(m.responses) == len(z.responses), "with all responses")


@scenario("C17", "C08", cases=[dict(spec=s) for s in SH.SOME], seeds=2)
def simulated_parts(env, spec):
    """Simulated proofs, with any challenge."""
    inst, p, v, d = honest(env, spec)
    t = v.simulate()
    base = env.m("base")
    round_trip(env, base.NIZK(challenge=t.challenge, responses=t.responses, precommitment=t.precommitment, stmt_hash=t.stmt_hash), "a simulated proof")


@scenario("C17", cases=[dict(kind=k) for k in ("scalars", "any", "signs", "empty", "nested")], seeds=6)
def any_numbers(env, kind):
    base = env.m("base")
    q = env.group().order()
    if kind == "scalars":
        r = [env.sc("a", q), [env.sc("b", q), (env.sc("c", q), [env.sc("d", q)])]]
    elif kind == "any":
        r = [env.num("a"), env.num("b")]
    elif kind == "signs":
        r = [env.bn(x) for y in (0, 1, 127, 128, 255, 256, (1 << 32) - 1, 1 << 32, (1 << 128) - 1, 1 << 128, 1 << 255, 1 << 4000) for x in (y, -y)] + [q, -q]
    elif kind == "empty":
        r = [[], ([], []), [[]]]
    else:
        r = env.sc("a", q)
        for i in range(30):
            r = [r] if i % 3 else ([r, env.bn(i)], [env.bn(-i)])
        r = [r]
    round_trip(env, base.NIZK(challenge=env.num("ch"), responses=r, precommitment=None, stmt_hash=b"\0\xff" * 16), "a proof with any numbers")
    round_trip(env, base.NIZK(challenge=env.num("ch"), responses=r), "a proof without identity")


@scenario("C17", "C18", cases=[dict(group=g) for g in GROUPS], seeds=4)
def any_points(env, group):
    base = env.m("base")
    G = the_group(env, group)
    O, g = G.infinite(), G.generator()
    pts = [O, g, env.sc("a", G.order()) * g, env.pt("P", G), -1 * g, (G.order() - 1) * g, G.order() * g, env.bn(0) * g] + list(env.gens(2, G, "x"))
    pts.append(pts[3] + pts[2])
    n = base.NIZK(challenge=env.bn(5), responses=[env.bn(1)], precommitment=[pts, {"A": pts[3], "B": [O, None], "n": env.bn(-7)}, None], stmt_hash=b"h" * 32)
    m, _ = round_trip(env, n, "points")
    for a, b in zip(pts, m.precommitment[0]):
        env.check(type(a) is type(b), "points stay points of their kind")
        env.check(a == b and b == a, "with their value")
        env.check(b.group == G and G == b.group, "and group")
        env.check(a + b == env.bn(2) * a and b + a == env.bn(2) * b, "that can be used with the others")
        env.check(env.num("k") * b == env.num("k") * a, "and multiplied")
        env.check(b.group.order() == G.order(), "order")
    env.check(m.precommitment[0][0] == b.group.infinite(), "the neutral element is neutral")
    # one after the other, with neighbours before
    R = pts[3]
    for x in (R, -1 * R, O, R, env.bn(2) * R, O, -1 * R, env.bn(-2) * R):
        m, _ = round_trip(env, base.NIZK(challenge=env.bn(5), responses=[env.bn(1)], precommitment=x, stmt_hash=b"h" * 32), "one point")
        env.check(m.precommitment == x, "the value of the point")


@scenario("C17", cases=[dict(group=g) for g in GROUPS], seeds=2)
def different_proofs_differ(env, group):
    """Different proofs have different bytes."""
    base = env.m("base")
    G = the_group(env, group)
    P, Q = env.gens(2, G, "x")
    mk = lambda **k: base.NIZK(**dict(dict(challenge=env.bn(5), responses=[env.bn(1), env.bn(2)], precommitment=[P, None], stmt_hash=b"h" * 32), **k)).serialize()
    all_ = [mk(), mk(challenge=env.bn(-5)), mk(challenge=env.bn(6)), mk(responses=[env.bn(2), env.bn(1)]), mk(responses=[env.bn(1)]), mk(responses=[[env.bn(1)], env.bn(2)]),
            mk(precommitment=[None, P]), mk(precommitment=[Q, None]), mk(precommitment=[P, P]), mk(precommitment=None), mk(precommitment=[-1 * P, None]),
            mk(precommitment=[G.infinite(), None]), mk(stmt_hash=b"i" * 32), mk(stmt_hash=None), mk(stmt_hash=b""), mk(precommitment=[])]
    for x in env.nears(P):
        all_.append(mk(precommitment=[{"A": x}, None]))
        all_.append(mk(responses=[env.bn(len(all_)), env.bn(2)]))
    all_.append(mk(precommitment=[{"A": P}, None]))
    for i in range(len(all_)):
        for j in range(i):
            env.check(env.not_(all_[i] == all_[j]), "different proofs have different bytes", (i, j))


# -- other processes

PROC = [dl("x y"), ("and", dl("x"), dl("x y")), ("or", dl("x"), bad("y")), ("and", dl("z"), ("or", bad("x"), dl("y"))), ("dl@415", "x"), ("dl#g1", "x y"),
        ("dl#g2", "x"), ("dl#gt", "x y"), ("ne", "x", True), ("ne#g1", "x", True), ("ne#gt", "x", False), ("p2", 3, "x", 5), ("p2#g2", 1, "x", 1), ("range", -1, 4, "x", 3), ("bbs", 1, True),
        ("bbs", 2, False), ("ext", dl("x")), ("or", ("bbs", 1, True), ("dl#g1!", "z"))]

SUB = '''
import sys, json, os
sys.path.insert(0, %r); sys.path.insert(0, %r)
sys.dont_write_bytecode = True
import warnings; warnings.simplefilter("ignore")
import zksk
from zksk.base import NIZK
job = json.load(sys.stdin)
from scen import p_serialize
raws = [bytes.fromhex(x) for x in job["raw"]]
first = [NIZK.deserialize(x) if job["early"] else None for x in raws]
from engine import conenv
from scen import common, model, registry
from worker import tup
out = []
for sp, raw, vals, n in zip(job["specs"], raws, job["vals"], first):
    env = conenv.ConEnv(job["seed"], vals)
    inst = model.Inst(env, tup(sp))
    v = inst.stmt(model.make_secrets(env, inst, False)[0])
    if n is None:
        n = NIZK.deserialize(raw)
    try:
        ok = bool(v.verify(n, message="m"))
    except Exception as e:
        ok = "%%s: %%s" %% (type(e).__name__, e)
    out.append([ok, n.serialize().hex()])
json.dump(out, sys.stdout)
'''


@scenario("C17", "C07", cases=[dict(k=k, early=e) for k in range(2) for e in (False, True)], seeds=1, sym=False)
def in_other_processes(env, k, early):
    """Proofs are verified in another process, that deserializes them after or before it makes the statements."""
    import json
    import os
    import subprocess
    import sys
    from .p_serialize import PROC
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get("ZKSK_REPO", "/repo")
    job = dict(specs=[], raw=[], vals=[], seed=77 + k, early=early)
    from engine import conenv
    for i, sp in enumerate(PROC):
        for t in range(9):
            e = conenv.ConEnv(100 * k + i + 1000 * t)
            try:
                inst, p, v, d = honest(e, sp)
            except BaseException as x:
                if type(x).__name__ == "Skip":
                    continue
                raise
            break
        job["specs"].append(sp)
        job["raw"].append(prove(e, p, message="m").serialize().hex())
        job["vals"].append({a: str(b) for a, b in e.values.items()})
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", SUB % (repo, here)], input=json.dumps(job), capture_output=True, text=True,
                       env=dict(os.environ, PYTHONHASHSEED=str(k)), timeout=80)
    env.check(r.returncode == 0, "the other process runs", r.stderr[-300:])
    for sp, raw, (ok, again) in zip(PROC, job["raw"], json.loads(r.stdout)):
        env.check(ok is True, "accepted in another process", (sp, ok))
        env.check(again == raw, "the same bytes in another process", sp)
