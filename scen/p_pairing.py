"""C18: the wrappers of pairing groups.  bodies=True: the bodies of all operators are executed, none is
replaced by its contract; group_operations discharges the contract of AdditivePoint.__mul__ that the other
scenarios use."""
from .registry import scenario
from .model import *
from .common import *

KINDS = ["G1", "G2", "GT"]


def bpair(env):
    return env.shared("bp", lambda: env.m("pairings").BilinearGroupPair())


def grp(env, kind):
    return getattr(bpair(env), kind)


def scalar(env, name, how):
    """An integer of one of the kinds users have."""
    q = bpair(env).G1.order()
    return {"any": lambda: env.num(name), "mod": lambda: env.sc(name, q), "zero": lambda: env.bn(0), "one": lambda: env.bn(1), "minus": lambda: env.bn(-1),
            "order": lambda: q, "above": lambda: q + env.sc(name, q), "multiple": lambda: q * env.bn(3), "int": lambda: env.pyint(name), "int0": lambda: 0,
            "int1": lambda: 1, "int-1": lambda: -1, "negative": lambda: -env.sc(name, q)}[how]()


SC = ["any", "mod", "zero", "one", "minus", "order", "above", "multiple", "int", "int0", "int1", "int-1", "negative"]


def big(env, k):
    return k if isinstance(k, env.Bn) else env.Bn(k)


@scenario("C18", cases=[dict(kind=k, how=h) for k in KINDS for h in SC], seeds=4, bodies=True)
def group_operations(env, kind, how):
    """Scalar multiplication from either side, for scalars of any kind."""
    G = grp(env, kind)
    P, Q, O, q = env.pt("P", G), env.pt("Q", G), G.infinite(), G.order()
    k = scalar(env, "k", how)
    kb = big(env, k)
    l = env.num("l")
    kP = k * P
    env.check(P * k == kP, "from either side")
    env.check(type(kP) is type(P) and kP.group == G, "the result is a point of the group")
    env.check(kb * P == kP, "integers and big numbers")
    env.check((kb % q) * P == kP, "modulo the order")
    env.check(k * (P + Q) == kP + k * Q, "distributive over points")
    env.check((kb + l) * P == kP + l * P, "distributive over scalars")
    env.check((kb * l) * P == l * kP, "associative with scalars")
    env.check(kP + (-kb) * P == O, "negative scalars")
    env.check(k * O == O, "multiples of the neutral element")
    env.check((kP == O) if env.decide((kb % q) == 0) else env.any([env.not_(kP == O), P == O]), "neutral exactly for multiples of the order")
    if how in ("one", "int1"):
        env.check(kP == P, "once")
    if how in ("minus", "int-1"):
        env.check(kP + P == O, "inverse")


@scenario("C18", cases=[dict(kind=k) for k in KINDS], seeds=6, bodies=True)
def nearly_equal_points(env, kind):
    """Points whose encodings agree in all but a few bits, or that are each other's negative, are different."""
    G = grp(env, kind)
    P = env.pt("P", G)
    for x in env.nears(P):
        env.check(not env.decide(x == P), "different points are different")
        env.check(env.decide(x != P), "different points are different")
        env.check(not env.decide(P == x), "different points are different")
        env.check(env.not_(x - P == G.infinite()), "and so is their difference")


@scenario("C18", cases=[dict(kind=k) for k in KINDS], seeds=12, bodies=True)
def group_laws(env, kind):
    G = grp(env, kind)
    P, Q, R, O, q = env.pt("P", G), env.pt("Q", G), env.pt("R", G), G.infinite(), G.order()
    env.check((P + Q) + R == P + (Q + R), "associative")
    env.check(P + Q == Q + P, "commutative")
    env.check(P + O == P and O + P == P, "neutral element")
    env.check(O + O == O, "neutral element")
    env.check(P + (-1) * P == O, "inverse")
    env.check(P - Q == P + (-1) * Q, "subtraction")
    env.check(P - P == O, "subtraction")
    env.check((P - Q) + Q == P, "subtraction")
    env.check(O - P == (-1) * P, "subtraction")
    env.check(P - O == P, "subtraction")
    env.check(P + P == 2 * P, "doubling")
    env.check(q * P == O, "the order")
    env.check((q - 1) * P + P == O, "the order")
    for x in (P + Q, P - Q, 5 * P, P * 5, O, G.generator()):
        env.check(type(x) is type(P), "the results are points of the group")
        env.check(x.group == G and x.bp is not None, "the results are points of the group")


@scenario("C18", cases=[dict(kind=k) for k in KINDS], seeds=4, bodies=True)
def operands_unchanged(env, kind):
    G = grp(env, kind)
    P, Q, k = env.pt("P", G), env.pt("Q", G), env.num("k")
    p, q_, o, g = P + G.infinite(), Q + G.infinite(), G.infinite() + G.infinite(), 1 * G.generator()
    P + Q, P - Q, k * P, P * k, P == Q, P != Q, repr(P), P.export(), G.sum([P, Q, P]), G.wsum([k, k], [P, Q])
    x = P
    x += Q
    x -= Q
    x *= k
    y = G.infinite()
    y += P
    z = G.generator()
    z += P
    z *= k
    env.check(P == p and Q == q_, "the operands are unchanged")
    env.check(G.infinite() == o and G.infinite() + P == P, "the neutral element is unchanged")
    env.check(G.generator() == g, "the generator is unchanged")
    env.check(x == k * p, "in-place operations")


@scenario("C18", cases=[dict(kind=k, n=n) for k in KINDS for n in range(0, 6)], con=[dict(kind=k, n=20) for k in KINDS], seeds=3, bodies=True)
def sums(env, kind, n):
    G = grp(env, kind)
    pts = [env.pt("P%d" % i, G) for i in range(n)]
    ws = [env.num("w%d" % i) for i in range(n)]
    S, W = G.infinite(), G.infinite()
    for p, w in zip(pts, ws):
        S = S + p
        W = W + w * p
    for conv in (list, tuple):
        env.check(G.sum(conv(pts)) == S, "the sum")
        env.check(G.wsum(conv(ws), conv(pts)) == W, "the weighted sum")
    r = G.sum(pts)
    env.check(type(r) is type(G.infinite()) and r.group == G, "the sum is a point of the group")
    env.check(G.wsum([env.bn(0)] * n, pts) == G.infinite(), "zero weights")
    env.check(G.wsum([1] * n, pts) == S, "unit weights")
    env.check(G.wsum([-1] * n, pts) + S == G.infinite(), "negative weights")
    if n > 1:
        env.check(G.sum(pts[::-1]) == S, "in any order")
        env.check(G.wsum(ws[::-1], pts[::-1]) == W, "in any order")


@scenario("C18", cases=[dict(kind=k) for k in KINDS], seeds=6, bodies=True)
def equality(env, kind):
    """Equality, inequality and representation are those of the value."""
    G = grp(env, kind)
    P, d = env.pt("P", G), env.sc("d", G.order())
    D = d * G.generator()
    Q = P + D
    same = env.decide(D == G.infinite())
    env.check((P == Q) if same else env.not_(P == Q), "equality is that of the values")
    env.check((Q == P) if same else env.not_(Q == P), "equality is symmetric")
    env.check(env.not_(P != Q) if same else (P != Q), "inequality is its opposite")
    env.check((repr(P) == repr(Q)) if same else env.not_(repr(P) == repr(Q)), "the representation is determined by the value")
    env.check((P.export() == Q.export()) if same else env.not_(P.export() == Q.export()), "the encoding is determined by the value")
    k = env.num("k")
    for a, b in ((k * P + Q, Q + k * P), (P + P + P, 3 * P), (P, P + G.infinite()), (G.infinite(), P - P), (P * G.order(), G.infinite())):
        env.check(a == b, "ways to compute a point")
        env.check(repr(a) == repr(b), "have one representation")
        env.check(a.export() == b.export(), "and one encoding")
    other = env.m("pairings").BilinearGroupPair()
    O2 = getattr(other, kind)
    env.check(G.generator() == O2.generator() and repr(G.generator()) == repr(O2.generator()), "points of another object for the same pairing")
    env.check(P + O2.infinite() == P and O2.infinite() + P == P, "can be used together")


@scenario("C18", cases=[], con=[dict(kind=k) for k in KINDS], seeds=2, bodies=True, sym=False)
def many_points(env, kind):
    """Points are equal exactly if their logarithms are; among them points with equal coordinates."""
    G = grp(env, kind)
    q = G.order()
    g = G.generator()
    r = env.sc("r", q)
    logs = [env.bn(i) for i in (0, 1, 2, 3, 7)] + [r, r + 1, r + r]
    logs = [x % q for x in logs] + [(-x) % q for x in logs]
    ps = [x * g for x in logs]
    ks = [k.export() if hasattr(k, "export") else None for k in ps]
    for i, (x, P) in enumerate(zip(logs, ps)):
        for j, (y, Q) in enumerate(zip(logs, ps)):
            same = x == y
            env.check((P == Q) is same, "equality is that of the values", (i, j))
            env.check((P != Q) is (not same), "inequality is its opposite", (i, j))
            env.check((repr(P) == repr(Q)) is same, "the representation is determined by the value", (i, j))
            env.check((ks[i] == ks[j]) is same, "the encoding is determined by the value", (i, j))
            env.check((P - Q == G.infinite()) is same, "the difference vanishes for equal points only", (i, j))


@scenario("C18", cases=[dict()], seeds=3, bodies=True)
def kinds_of_groups(env):
    """Groups are equal exactly if they are of one kind."""
    pr = env.m("pairings")
    a, b = bpair(env), pr.BilinearGroupPair()
    c = pr.BilinearGroupPair(a.bpgp)
    bp = env.load("bplib.bp").BpGroup()
    d = pr.BilinearGroupPair(bp)
    env.check(d.bpgp is bp, "a given pairing is used")
    for x in (a, b, c, d):
        gs = x.groups()
        env.check(len(gs) == 3 and gs[0] is x.G1 and gs[1] is x.G2 and gs[2] is x.GT, "groups() gives G1, G2, GT")
        for y in (a, b, c, d):
            for i in KINDS:
                for j in KINDS:
                    g, h = getattr(x, i), getattr(y, j)
                    env.check((g == h) is (i == j), "groups are equal exactly if they are of one kind", (i, j))
                    env.check((g != h) is (i != j), "and unequal otherwise", (i, j))
        env.check(x.G1.order() == x.G2.order() and x.G2.order() == x.GT.order() and x.GT.order() == a.bpgp.order(), "they have one order")
        for i in KINDS:
            g = getattr(x, i)
            env.check(env.not_(g.generator() == g.infinite()), "the generator is not neutral")
            env.check(g.generator() == getattr(a, i).generator(), "the generator is always the same")
            env.check(g.generator() == g.generator() and g.infinite() == g.infinite(), "the generator is always the same")
            env.check(g.generator().group == g and g.infinite().group == g, "and of the group")
            env.check(g.infinite() + g.generator() == g.generator(), "the neutral element is neutral")
            env.check(g.order() * g.generator() == g.infinite(), "the order is that of the generator")
    env.check(a.GT.generator() == a.G1.generator().pair(a.G2.generator()), "the generator of GT is the pairing of the others")


@scenario("C18", cases=[dict()], seeds=8, bodies=True)
def bilinear(env):
    bp = bpair(env)
    P, P2, Q, Q2 = env.pt("P", bp.G1), env.pt("P2", bp.G1), env.pt("Q", bp.G2), env.pt("Q2", bp.G2)
    a, b = env.num("a"), env.num("b")
    g1, g2 = bp.G1.generator(), bp.G2.generator()
    O = bp.GT.infinite()
    e = P.pair(Q)
    env.check(type(e) is type(O) and e.group == bp.GT, "the pairing gives a point of GT")
    env.check((a * P).pair(b * Q) == (a * b) * e, "bilinear")
    env.check((a * P).pair(Q) == a * e and P.pair(b * Q) == b * e, "bilinear")
    env.check((P + P2).pair(Q) == e + P2.pair(Q), "linear in the first argument")
    env.check(P.pair(Q + Q2) == e + P.pair(Q2), "linear in the second argument")
    env.check((P - P2).pair(Q) == e - P2.pair(Q), "linear in the first argument")
    env.check(P.pair(Q - Q2) == e - P.pair(Q2), "linear in the second argument")
    env.check(bp.G1.infinite().pair(Q) == O and P.pair(bp.G2.infinite()) == O, "neutral")
    env.check(env.not_(g1.pair(g2) == O), "non-degenerate")
    x = (a * g1).pair(b * g2)
    q = bp.G1.order()
    env.check((x == O) if env.decide((a * b) % q == 0) else env.not_(x == O), "non-degenerate")
    env.check(bp.G1.wsum([a, b], [P, P2]).pair(Q) == bp.GT.wsum([a, b], [P.pair(Q), P2.pair(Q)]), "sums")


@scenario("C18", cases=[dict(gen=g) for g in (0, 1)], seeds=2, bodies=True)
def one_point_many_uses(env, gen):
    """The same two points used with each other, with their negatives, multiples and copies, and again."""
    bp = bpair(env)
    P, Q = (bp.G1.generator(), bp.G2.generator()) if gen else (env.pt("P", bp.G1), env.pt("Q", bp.G2))
    a = env.num("a")
    ks = [env.bn(k) for k in (1, -1, 2, -2)] + [a, -a] + [env.bn(k) for k in (0, 1 << 31, 1 - (1 << 31))]
    e = P.pair(Q)
    Ps, Qs = [k * P for k in ks], [k * Q for k in ks]
    for again in range(2):
        for k, P1, Q1 in zip(ks, Ps, Qs):
            env.check(P.pair(Q1) == k * e, "bilinear (second argument)", k)
            env.check(P1.pair(Q) == k * e, "bilinear (first argument)", k)
            env.check(P1.pair(Q1) == k * k * e, "bilinear (both)", k)
        env.check(P.pair(Q) == e, "the pairing is a function")
    for X in (P, Q, e):
        for k in ks:
            for j in ks[1:5:3]:
                env.check(k * X + j * X == (k + j) * X, "multiples add up", (k, j))
                env.check(k * X - j * X == (k - j) * X, "multiples are subtracted", (k, j))


@scenario("C18", cases=[dict(a=a, b=b) for a in KINDS for b in KINDS if a != b], seeds=2, bodies=True)
def kinds_do_not_mix(env, a, b):
    """Points of different groups are not added."""
    P, Q = env.pt("P", grp(env, a)), env.pt("Q", grp(env, b))
    env.check_raises("points of different groups are not added", lambda: P + Q)
    env.check_raises("points of different groups are not subtracted", lambda: P - Q)
    env.check_raises("points of different groups are not summed", lambda: grp(env, a).sum([P, Q]))
    if (a, b) != ("G1", "G2"):
        if hasattr(P, "pair"):
            env.check_raises("only G1 and G2 are paired", lambda: P.pair(Q))
    how, r = env.outcome(lambda: P == Q)
    env.check(how == "raise" or not env.truth(r), "points of different groups are not equal")


@scenario("C18", cases=[dict(data=i) for i in range(5)], seeds=2, bodies=True)
def hashing_to_g1(env, data):
    bp = bpair(env)
    s = [b"", b"a", b"abc" * 50, b"\0", "\u00e9".encode()][data]
    P = bp.G1.hash_to_point(s)
    env.check(type(P) is type(bp.G1.generator()) and P.group == bp.G1, "a point of G1")
    env.check(P == env.m("pairings").BilinearGroupPair().G1.hash_to_point(s), "always the same")
    env.check(env.not_(P == bp.G1.infinite()) and env.not_(P == bp.G1.hash_to_point(s + b"x")), "different ones for different strings")
    env.check(bp.G1.order() * P == bp.G1.infinite(), "of the order of the group")
    env.check(env.not_(P.pair(bp.G2.generator()) == bp.GT.infinite()), "in the group")
