"""C07: the identity of a statement."""
from .registry import scenario
from .model import *
from .common import *
from . import shapes as SH

dl, bad = SH.dl, SH.bad

# statements that are all different
POOL = [
    dl("x"), dl("x y"), dl("x x"), dl("x y z"), dl("x y x"), dl("x x y"), dl("x y y"), dl("x x x"),
    ("and", dl("x"), dl("y")), ("and", dl("x"), dl("x")), ("or", dl("x"), dl("y")), ("or", dl("x"), dl("x")),
    ("and", dl("x"), dl("y"), dl("z")), ("and", dl("x"), dl("y"), dl("x")), ("and", dl("x"), dl("x"), dl("y")),
    ("and", ("and", dl("x"), dl("y")), dl("z")), ("and", dl("x"), ("and", dl("y"), dl("z"))),
    ("and", ("and", dl("x"), dl("y")), dl("x")), ("and", ("and", dl("x"), dl("x")), dl("y")),
    ("and", ("or", dl("x"), dl("y")), dl("z")), ("or", ("and", dl("x"), dl("y")), dl("z")),
    ("or", dl("x"), ("and", dl("y"), dl("z"))), ("or", ("or", dl("x"), dl("y")), dl("z")), ("or", dl("x"), dl("y"), dl("z")),
    ("and", dl("x y"), dl("x y")), ("and", dl("x y"), dl("y x")), ("and", dl("x y"), dl("u v")), ("and", dl("x y"), dl("x v")),
    ("and", dl("x y"), dl("v x")), ("and", dl("x y"), dl("y v")), ("and", dl("x y"), dl("v y")),
    ("or", dl("x y"), dl("x y")), ("or", dl("x y"), dl("y x")),
    ("ne", "x", True), ("ne", "x", False), ("and", ("ne", "x", True), dl("x")), ("and", ("ne", "x", True), dl("y")),
    ("and", dl("x"), ("ne", "x", True)), ("or", ("ne", "x", True), dl("y")), ("or", ("ne", "x", False), dl("y")),
    ("p2", 1, "x", 0), ("p2", 2, "x", 1), ("p2", 3, "x", 1), ("range", 0, 2, "x", 0), ("range", 0, 4, "x", 0),
    ("bbs", 1, True), ("bbs", 2, True), ("and", ("bbs", 1, True), ("dl#g1", "t.0_m0")), ("and", ("bbs", 1, True), ("dl#g1", "y")),
    ("and", ("bbs", 1, True), ("dl#g1", "t.0_s")), ("dl#g1", "x"), ("dl#g2", "x"), ("dl#gt", "x"), ("dl@415", "x"),
    ("ext", dl("x")), ("ext", dl("x y")), ("ext", ("and", dl("x"), dl("y"))), ("and", ("ext", dl("x")), dl("x")),
    ("and", ("ext", dl("x")), dl("y")), ("and", ("ext", dl("x")), ("ext", dl("x"))), ("and", ("ext", dl("x")), ("ext", dl("y"))),
    ("ext2", dl("x")), ("and", ("ext2", dl("x")), ("ext", dl("y"))), ("and", ("ext", dl("x")), ("ext2", dl("y"))), ("or", ("ext2", dl("x")), dl("y")), ("or", ("ext", dl("x")), dl("y")),
    ("or", dl("x"), ("or", dl("x"), dl("y"))), ("or", dl("x"), ("or", dl("z"), dl("y"))), ("or", dl("x"), ("or", dl("z"), dl("x"))),
    ("and", dl("x"), ("or", dl("x"), dl("y"))), ("and", dl("x"), ("or", dl("z"), dl("y"))), ("and", dl("x"), ("or", dl("z"), dl("x"))),
    ("and", ("or", dl("x"), dl("y")), ("or", dl("x"), dl("z"))), ("and", ("or", dl("x"), dl("y")), ("or", dl("u"), dl("z"))),
    ("and", ("or", dl("x"), dl("y")), dl("x")), ("or", ("and", dl("x"), dl("y")), ("and", dl("x"), dl("z"))),
    ("or", ("and", dl("x"), dl("y")), ("and", dl("u"), dl("z"))), ("or", ("and", dl("x"), dl("y")), ("and", dl("u"), dl("y"))),
    ("and", ("ext", ("and", dl("x"), dl("y"))), dl("x")), ("and", ("ext", ("and", dl("x"), dl("y"))), dl("u")),
]


@scenario("C07", "C04", cases=[dict(n=n) for n in (2, 3, 5, 9, 17)], con=[dict(n=n) for n in (33, 65, 100, 130, 257, 300)], seeds=1)
def identity_of_many_secrets(env, n):
    """Two terms with one secret, at any two places, instead of two secrets."""
    z, G = env.z, env.gens(n)
    lhs, conj = env.pt("Y"), n <= 17

    def mk(i, j, kind):
        S = [z.Secret() for _ in range(n)]
        S[j] = S[i]
        if kind == "dl":
            return z.DLRep(lhs, env.m("expr").wsum_secrets(S, G))
        return env.m("composition").AndProofStmt(*[z.DLRep(lhs, s * g) for s, g in zip(S, G)])
    for kind in ("dl", "and"):
        seen = [ident(mk(0, 0, kind))]
        pairs = {(i, j) for i in range(n) for j in range(i)} if n <= 5 else set()
        for d in (1, 2, 3, 4, 7, 8, 10, 16, 26, 32, 36, 64, 100, 128, 256):
            if d < n:
                pairs |= {(d, 0), (n - 1, n - 1 - d)}
        pairs.add((n - 1, (n - 1) // 2))
        for i, j in sorted(pairs):
            if kind == "and" and (i + j) % 3 and not conj:
                continue
            h = ident(mk(j, i, kind))
            for k in seen:
                env.check(env.not_(env.same(h, k)), "different distributions of the secrets have different identities", (kind, i, j))
            seen.append(h)


@scenario("C07", cases=[dict(n=n) for n in (14, 15, 24)], con=[dict(n=n) for n in (113, 130)], seeds=1)
def identity_of_digits(env, n):
    """Different distributions of the secrets over the terms whose numbers, written one after the other, agree."""
    z, comp = env.z, env.m("composition")
    G, lhs = env.gens(n), env.pt("Y")
    tails = [t for t in [(1, 11), (11, 1), (1, 12), (11, 2), (2, 11), (21, 1), (1, 10), (11, 0), (1, 1, 1), (11, 10), (1, 110), (11, 1, 0), (111, 0), (11, 11), (1, 111), (111, 1),
                         (1, 1, 11), (1, 11, 1), (11, 1, 1)] if max(t) < n - len(t)]

    def mk(t, kind):
        S = [z.Secret() for _ in range(n - len(t))]
        S += [S[i] for i in t]
        if kind == "dl":
            return z.DLRep(lhs, env.m("expr").wsum_secrets(S, G))
        return comp.AndProofStmt(*[z.DLRep(lhs, s * G[0]) for s in S])
    for kind in ("dl", "and"):
        seen = []
        for t in tails:
            h = ident(mk(t, kind))
            for k, u in seen:
                env.check(env.not_(env.same(h, k)), "different distributions of the secrets have different identities", (kind, t, u))
            seen.append((h, t))


def ready(env, inst, stmt, pre=None):
    """A statement with its precommitment processed."""
    pre = inst.model_pre(scalars(env, "w" + inst.path)) if pre is None else pre
    ve = stmt.get_verifier()
    ve.process_precommitment(pre)
    return stmt, pre


def build(env, spec, vals=None, names=None, pre=None):
    inst = Inst(env, spec, vals)
    V, _ = make_secrets(env, inst, False, names=names)
    s, pre = ready(env, inst, inst.stmt(V), pre)
    return inst, s, pre


def ident(s):
    return s.prehash_statement().digest()


@scenario("C07", cases=[dict(i=i) for i in range(len(POOL) - 1)], seeds=1)
def identities_differ(env, i):
    """Each of the pool against all others, with the same values wherever they make sense."""
    vals = {}
    own = lambda k: {} if POOL[k][0] in ("p2", "range") else vals
    a = build(env, POOL[i], own(i))
    ia = ident(a[1])
    for j in range(i + 1, len(POOL)):
        b = build(env, POOL[j], own(j))
        env.check(env.not_(env.same(ia, ident(b[1]))), "different statements have different identities", (POOL[i], POOL[j]))
        env.check(str(a[1].get_proof_id()) != str(b[1].get_proof_id()), "and different proof ids", (POOL[i], POOL[j]))


@scenario("C07", cases=[dict(spec=s) for s in SH.ALL + SH.BIG[10:]], con=[dict(spec=s) for s in SH.BIG], seeds=2)
def same_statement_same_identity(env, spec):
    """Built twice, with other names, with or without values, by prover or verifier."""
    inst, p, pre = build(env, spec)
    ip = ident(p)
    again = Inst(env, spec, inst.vals)
    for how, names in (("secret", None), (None, lambda l: "n" + l), ("secret", lambda l: str(1000 - hash_(l))),
                       (None, lambda l: "DLRep"[:2] + l[::-1]), (None, lambda l: "{%s}, 0, [1]'\"" % l)):
        S, _ = make_secrets(env, again, how is not None, names=names)
        s = again.stmt(S, prover=how is not None)
        ve = s.get_verifier()
        ve.process_precommitment(pre)
        env.check(env.same(ident(s), ip), "the identity is that of the same statement built elsewhere")
    env.check(env.same(ident(p), ip), "and does not change")


def hash_(s):
    return sum(ord(c) * 31 ** i for i, c in enumerate(s)) % 997


@scenario("C07", "C20", cases=[dict(spec=s) for s in SH.SOME + SH.OTHER], seeds=2)
def identity_survives_use(env, spec):
    inst, p, v, d = honest(env, spec)
    n = prove(env, p)
    i0 = ident(p)
    env.check(env.same(i0, n.stmt_hash), "a proof carries the identity")
    env.check_accept("accepted", v.verify, n)
    env.check(env.same(ident(v), i0), "prover and verifier have the same identity")
    v.get_verifier().process_precommitment(n.precommitment)
    env.check(env.same(ident(v), i0), "making another verifier does not change it")
    env.accepts(v.verify, n, message="x")
    env.check(env.same(ident(v), i0), "rejecting does not change it")
    if spec[0] in ("dl", "and") and not inst.has_ext():
        prove(env, p, message="2")
        env.check(env.same(ident(p), i0), "proving again does not change it")
        p.set_simulated()
        env.check(env.same(ident(p), i0), "marking as simulated does not change it")
        p.simulate()
        env.check(env.same(ident(p), i0), "simulating does not change it")


@scenario("C07", cases=[dict(spec=s) for s in SH.SOME + SH.OTHER if Inst.has_pre(s)], seeds=2)
def identity_follows_precommitment(env, spec):
    """One statement in several runs: its identity is always that of a new statement with the same precommitment."""
    inst = Inst(env, spec)
    S, _ = make_secrets(env, inst, True)
    V, _ = make_secrets(env, inst, False)
    n1, n2 = prove(env, inst.stmt(S, True)), prove(env, inst.stmt(S, True))
    v = inst.stmt(V)
    env.check_accept("the first", v.verify, n1)
    env.check(env.same(ident(v), n1.stmt_hash), "the identity of the first")
    env.check_accept("the second", v.verify, n2)
    env.check(env.same(ident(v), n2.stmt_hash), "the identity of the second")
    w = inst.stmt(V)
    env.check_accept("the second by a new statement", w.verify, n2)
    env.check(env.same(ident(v), ident(w)), "the identity of a new statement")
    env.check_accept("the first again", v.verify, n1)
    p = inst.stmt(S, True)
    n3 = prove(env, p)
    env.check(env.same(ident(p), n3.stmt_hash), "the prover's identity")
    n4 = prove(env, p)
    env.check(env.same(ident(p), n4.stmt_hash), "the prover's identity in the second run")
    env.check_accept("the second run", w.verify, n4)
    env.check_accept("a proof by another prover", p.verify, n1)
    env.check(env.same(ident(p), n1.stmt_hash), "the identity of the proof verified last")
    t = p.simulate()
    env.check_accept("a simulation", w.verify_simulation_consistency, t)
    env.check(env.same(ident(p), ident(w)), "the identity of the simulation")


def pre_places(pre, at=()):
    """The places of the numbers and points of a precommitment."""
    if isinstance(pre, dict):
        return [y for k in pre for y in pre_places(pre[k], at + (k,))]
    if isinstance(pre, (list, tuple)):
        return [y for k, x in enumerate(pre) for y in pre_places(x, at + (k,))]
    return [] if pre is None else [at]


def pre_change(pre, at, f):
    if not at:
        return f(pre)
    if isinstance(pre, dict):
        return {k: pre_change(x, at[1:], f) if k == at[0] else x for k, x in pre.items()}
    return [pre_change(x, at[1:], f) if k == at[0] else x for k, x in enumerate(pre)]


@scenario("C07", "C21", cases=[dict(spec=s) for s in SH.SOME + SH.OTHER + SH.NE[1:5] + SH.P2[:3] + SH.RANGE[1:4] + SH.RANGE[6:] + SH.BBS + SH.EXT[:7]
                               if Inst.has_pre(s)], seeds=3)
def identity_decides_precommitments(env, spec):
    """Two statements whose precommitments differ in one number or point: equal identities exactly if these are equal."""
    inst, p, v, d = honest(env, spec)
    pre = p.get_prover().precommit()
    places = pre_places(pre)
    at = places[env.choose(len(places), "place")]
    other = []

    def f(x):
        y = env.pt("other", x.group) if hasattr(x, "group") else env.num("other")
        other.extend([x, y])
        return y
    v.get_verifier().process_precommitment(pre_change(pre, at, f))
    same = env.known(ident(v) == ident(p))
    eq = other[0] == other[1]
    env.check(eq if same else env.not_(eq), "the identity depends on every part of the precommitment", at)


@scenario("C07", "C03", cases=[dict(k=k, group=g) for k in (1, 2, 3) for g in ("", "#g1", "#g2", "#gt", "@415")], seeds=3)
def identity_decides_points(env, k, group):
    """The identities are equal exactly if all left-hand sides and bases are."""
    z = env.z
    spec = ("dl" + group, " ".join("x%d" % i for i in range(k)))
    inst = Inst(env, spec)
    g = inst.group
    a, b = [[env.pt("%s%d" % (t, i), g) for i in range(k + 1)] for t in "ab"]
    if not env.symbolic:
        # points that agree in most places
        for i in range(k + 1):
            if env.choose(3, "eq%d" % i):
                b[i] = a[i]

    def st(ps):
        return z.DLRep(ps[0], env.m("expr").wsum_secrets([z.Secret() for _ in ps[1:]], ps[1:]))
    eq = env.same(ident(st(a)), ident(st(b)))
    cond = env.all([x == y for x, y in zip(a, b)])
    if env.truth(eq):
        env.check(cond, "equal identities mean equal points")
    else:
        env.check(env.not_(cond), "equal points mean equal identities")


@scenario("C07", "C03", cases=[dict(group=g) for g in ("", "#g1", "#g2", "#gt", "@415")], seeds=6)
def nearly_equal_statements(env, group):
    """Points whose encodings agree in all but a few bits, or that are each other's negative, in each place."""
    z = env.z
    g = Inst(env, ("dl" + group, "x")).group
    lhs, a, b, c = [env.pt(t, g) for t in ("lhs", "a", "b", "c")]
    S = [z.Secret() for _ in range(3)]
    C = env.m("composition")
    w = env.m("expr").wsum_secrets

    def kinds(lhs, a, b, c):
        return [z.DLRep(lhs, w(S, [a, b, c])), C.AndProofStmt(z.DLRep(a, S[0] * b), z.DLRep(lhs, S[1] * c)),
                C.OrProofStmt(z.DLRep(c, S[0] * b), C.AndProofStmt(z.DLRep(lhs, S[1] * a), z.DLRep(b, S[1] * a)))]
    ref = [ident(s) for s in kinds(lhs, a, b, c)]
    ne = env.m("primitives.dl_notequal").DLNotEqual

    def extended(a, b, c, d):
        s = ne((a, b), (c, lhs), S[0])
        s.get_verifier().process_precommitment(d)
        return ident(s)
    ref2 = extended(a, b, c, lhs)
    for place in range(4):
        pts = [lhs, a, b, c]
        for q in env.nears(pts[place]):
            pts[place] = q
            for s, r in zip(kinds(*pts), ref):
                env.check(env.not_(env.same(ident(s), r)), "another point, another identity", place)
            e = [a, b, c, lhs]
            e[place - 1] = q
            env.check(env.not_(env.same(extended(*e), ref2)), "another point, another identity of an extended statement", place)


@scenario("C07", cases=[dict(k=k) for k in (2, 3, 4)], seeds=1)
def identity_decides_patterns(env, k):
    """All patterns of equal secrets, in one representation and across conjuncts."""
    z = env.z
    G = env.gens(k)
    pats = set()

    def rec(p):
        if len(p) == k:
            pats.add(tuple(p))
            return
        for i in range(max(p, default=-1) + 2):
            rec(p + [i])
    rec([])
    for form in ("dl", "and", "or"):
        ids = {}
        for p in sorted(pats):
            for names in (lambda i: None, lambda i: "z%d" % (9 - i)):
                S = [z.Secret(name=names(i)) if names(i) else z.Secret() for i in range(k)]
                ss = [S[i] for i in p]
                if form == "dl":
                    s = z.DLRep(G[0], env.m("expr").wsum_secrets(ss, G))
                else:
                    parts = [z.DLRep(G[0], x * g) for x, g in zip(ss, G)]
                    s = env.m("composition").AndProofStmt(*parts) if form == "and" else \
                        env.m("composition").OrProofStmt(*parts)
                d = ident(s)
                for q, e in ids.items():
                    eq = env.same(d, e)
                    env.check(eq if q == p else env.not_(eq), "the identity is determined by the pattern of secrets",
                              (form, p, q))
                ids.setdefault(p, d)


def permuted(spec):
    """Other statements made of the same parts."""
    if spec[0] in ("and", "or") and len(spec) > 2:
        yield (spec[0],) + tuple(reversed(spec[1:]))
        yield ("or" if spec[0] == "and" else "and",) + spec[1:]
        yield (spec[0],) + spec[1:] + spec[-1:]
        yield (spec[0], spec[1:][0], spec[1:][0]) + spec[2:]
        yield (spec[0], (spec[0],) + spec[1:], spec[1])


@scenario("C07", cases=[dict(spec=s) for s in SH.PLAIN[4:] + SH.NE[2:4] + SH.EXT[3:]], seeds=1)
def structure_counts(env, spec):
    """The same part objects composed in another way have another identity."""
    parts = {}
    comp = env.m("composition")

    vals = {}
    shapes = [spec] + [x for x in permuted(spec) if x != spec]
    leaf = {}

    def mk(sp):
        if sp[0] in ("and", "or"):
            cls = comp.AndProofStmt if sp[0] == "and" else comp.OrProofStmt
            return cls(*[mk(k) for k in sp[1:]])
        if sp not in leaf:
            inst = Inst(env, sp, vals, path="l%d" % len(leaf))
            for l in inst.secret_labels():
                parts.setdefault(l, env.z.Secret())
            s = inst.stmt(parts)
            ready(env, inst, s)
            leaf[sp] = s
        return leaf[sp]
    ids = []
    for sp in shapes:
        s = mk(sp)
        d = ident(s)
        for sp2, e in ids:
            env.check(env.not_(env.same(d, e)), "another composition has another identity", (sp, sp2))
        ids.append((sp, d))


MIX = [(a, b) for a, b in [
    (dl("x"), dl("x x")), (dl("x y"), dl("x x")), (dl("x x"), dl("x y")), (dl("x y x"), dl("x y z")), (dl("x y x"), dl("x y y")),
    (SH.many(2), ("and", dl("x0"), dl("x0"))), (("and", dl("x0"), dl("x0")), SH.many(2)), (SH.many(2), SH.many(2, "or")),
    (SH.many(2, "or"), SH.many(2)), (SH.many(2, "or"), SH.many(3, "or")), (SH.many(3), SH.many(2)),
    (("and", ("and", dl("x"), dl("y")), dl("z")), SH.many(3)), (SH.many(3), ("and", dl("x"), ("and", dl("y"), dl("z")))),
    (("ne", "x", True), ("ne", "x", False)), (("ne", "x", False), ("ne", "x", True)),
    (("p2", 2, "x", 1), ("p2", 1, "x", 1)), (("bbs", 1, True), ("bbs", 2, True)),
    (("ext", dl("x y")), ("ext", dl("x x"))), (("ext", dl("x")), dl("x")), (dl("x"), ("ext", dl("x"))),
    (("and", dl("x y"), dl("y x")), ("and", dl("x y"), dl("x y"))), (("or", dl("x y"), bad("x")), ("or", dl("x y"), bad("z"))),
]]


@scenario("C07", "C03", cases=[dict(a=a, b=b) for a, b in MIX], seeds=2)
def other_statement_is_an_error(env, a, b):
    """Verification against a statement with another identity raises, also if the attacker copies the identity."""
    inst = Inst(env, a)
    S, _ = make_secrets(env, inst, True)
    other = Inst(env, b, inst.vals)
    V, _ = make_secrets(env, other, False)
    n = prove(env, inst.stmt(S, True))
    env.check_raises("verification against another statement is an error", other.stmt(V).verify, n)
    for h in (None, b"", n.stmt_hash[:31], b"\0" * 32):
        env.check_raises("another statement hash is an error", inst.stmt(make_secrets(env, inst, False)[0]).verify,
                         copy_nizk(env, n, stmt_hash=h))


@scenario("C07", cases=[dict(spec=s) for s in SH.SOME], seeds=2)
def check_statement_contract(env, spec):
    inst, s, pre = build(env, spec)
    d = ident(s)
    h = s.check_statement(d)
    env.check(env.same(h.digest(), d), "the prehash returned is that of the statement")
    for x in (None, b"", d[:-1], d + b"\0", b"\0" * 32, d.hex() if hasattr(d, "hex") else ""):
        env.check_raises("another hash is refused", s.check_statement, x)
    tr_h = s.prehash_statement()
    tr_h.update(b"more")
    env.check(env.same(ident(s), d), "the prehash is a fresh object each time")


@scenario("C02", "C07", cases=[dict(spec=s) for s in SH.SOME], seeds=2)
def commitment_with_another_hash(env, spec):
    """The verifier sends a challenge only for a commitment that comes with the identity of its statement."""
    inst, p, v, d = honest(env, spec)
    pr, ve = p.get_prover(), v.get_verifier()
    ve.process_precommitment(pr.precommit())
    h, com = pr.commit()
    for x in (None, b"", h[:1], h[:-1], h[1:], h + b"\0", h + h, b"\0" * 32, b"\xff" * 32, "", 0, [], True):
        env.check_raises("a commitment with another statement hash is refused", ve.send_challenge, (x, com))
    c = ve.send_challenge((h, com))
    env.check_accept("the right one is accepted", ve.verify, pr.compute_response(c))


SUB = '''
import sys, json
sys.path.insert(0, %r); sys.path.insert(0, %r)
sys.dont_write_bytecode = True
import warnings; warnings.simplefilter("ignore")
from engine import conenv
from scen import p_identity, registry
out = []
import os
so = sys.stdout; sys.stdout = open(os.devnull, "w")
registry.load()
for i, sp in enumerate(p_identity.POOL + p_identity.SH.OTHER):
    for k in range(20):
        env = conenv.ConEnv(i + 1000 * k)
        junk = [env.z.Secret() for _ in range(%d)]
        try:
            out.append(p_identity.ident(p_identity.build(env, sp)[1]).hex())
            break
        except conenv.Skip:
            pass
so.write(json.dumps(out))
'''


@scenario("C07", cases=[dict(k=k) for k in range(3)], seeds=1, sym=False)
def other_processes(env, k):
    """The identities are the same in other processes, with other hash seeds and object identities."""
    import json
    import os
    import subprocess
    import sys
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get("ZKSK_REPO", "/repo")
    outs = []
    for seed, junk in (("0", 0), (str(k + 1), 17 * (k + 1))):
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", SUB % (repo, here, junk)], capture_output=True, text=True,
                           env=dict(os.environ, PYTHONHASHSEED=seed), timeout=80)
        outs.append(json.loads(r.stdout))
    for sp, a, b in zip(POOL, *outs):
        env.check(a == b, "the identity does not depend on the process", sp)
