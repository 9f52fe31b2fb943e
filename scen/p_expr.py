"""C19: expressions."""
from .registry import scenario
from .model import *
from .common import *


def trees(n):
    """All groupings of n terms (leaves in order)."""
    def go(lo, hi):
        if hi - lo == 1:
            return [lo]
        return [(a, b) for k in range(lo + 1, hi) for a in go(lo, k) for b in go(k, hi)]
    return go(0, n)


def comb(k):
    r = 0
    for i in range(1, k):
        r = (r, i)
    return r


def balanced(lo, hi):
    return lo if hi - lo == 1 else (balanced(lo, (lo + hi) // 2), balanced((lo + hi) // 2, hi))


def nleaves(t):
    return 1 if isinstance(t, int) else nleaves(t[0]) + nleaves(t[1])


def group_of(env, name):
    return group_named(env, name)


def group_named(env, name):
    if name in ("G1", "G2", "GT"):
        return getattr(env.shared("bp", lambda: env.m("pairings").BilinearGroupPair()), name)
    return env.group(int(name) if name else None)


GROUPS = ["", "415", "G1", "G2", "GT"]


def is_expr(env, e, ss, bs, what):
    """e consists of these secrets and bases."""
    env.check(isinstance(e, env.m("expr").Expression), what + ": an expression")
    env.check(isinstance(e.secrets, tuple) and isinstance(e.bases, tuple), what + ": tuples")
    env.check(len(e.secrets) == len(ss) and all(a is b for a, b in zip(e.secrets, ss)), what + ": the secrets in order", repr(e)[:200])
    env.check(len(e.bases) == len(bs), what + ": the bases in order")
    env.check(env.all([env.same(a, b) for a, b in zip(e.bases, bs)]), what + ": the bases in order")


def total(group, vals, bs):
    r = group.infinite()
    for v, b in zip(vals, bs):
        r = r + v * b
    return r


NAMES = {"distinct": "abcdefghijklmnopqrstuvwxyz", "equal": "a" * 26, "mixed": "abacabadabacabaeabacabadab"}
TREES = [t for n in range(1, 5) for t in trees(n)]
CONTREES = [t for t in trees(5)] + [comb(26), balanced(0, 26), comb(13)]


@scenario("C19", cases=[dict(tree=t, names=n, group=g) for t in TREES for n in ("distinct", "mixed", "equal") for g in ("", "GT")] +
          [dict(tree=t, names="mixed", group=g) for t in TREES[::3] for g in GROUPS],
          con=[dict(tree=t, names=n, group=g) for t in CONTREES for n, g in (("distinct", ""), ("mixed", "G1"))], seeds=2)
def sum_of_products(env, tree, names, group):
    """Products of secrets and points, added in any grouping."""
    group = group_named(env, group)
    Secret = env.z.Secret
    n = nleaves(tree)
    by = {}
    ss, vals = [], []
    for i in range(n):
        l = NAMES[names][i]
        if l not in by:
            v = env.num("v" + l)
            by[l] = (Secret(v) if i % 2 else Secret(value=v, name=l), v)
        ss.append(by[l][0])
        vals.append(by[l][1])
    bs = [env.pt("B%d" % (i % 3 if names == "equal" else i), group) for i in range(n)]
    parts = []

    def build(t):
        if isinstance(t, int):
            e = ss[t] * bs[t]
            lo, hi = t, t + 1
        else:
            (a, l, _), (b, _, h) = build(t[0]), build(t[1])
            e = a + b
            lo, hi = l, h
        parts.append((e, lo, hi))
        return e, lo, hi
    e = build(tree)[0]
    is_expr(env, e, ss, bs, "the sum")
    r = e.eval()
    env.check(r == total(group, vals, bs), "the value is the linear combination")
    env.check(type(r) is type(group.infinite()) and r.group == group, "the value is a point of the group")
    repr(e)
    env.check(e.eval() == r, "evaluating again gives the same value")
    for p, lo, hi in parts:
        is_expr(env, p, ss[lo:hi], bs[lo:hi], "operands are unchanged")
        env.check(p.eval() == total(group, vals[lo:hi], bs[lo:hi]), "operands are unchanged: value")
    env.check(all(s.value is v for s, v in zip(ss, vals)), "secrets are unchanged")


@scenario("C19", cases=[dict(n=n, group=g, seq=s) for n in range(1, 7) for g in ("", "GT") for s in ("list", "tuple")],
          con=[dict(n=n, group=g, seq="list") for n, g in [(7, g) for g in GROUPS] + [(33, ""), (33, "G1")]], seeds=3)
def dot_product(env, n, group, seq):
    group = group_named(env, group)
    seq = list if seq == "list" else tuple
    x = env.m("expr")
    vals = [env.num("v%d" % i) for i in range(n)]
    ss = seq([env.z.Secret(v) for v in vals])
    bs = seq([env.pt("B%d" % i, group) for i in range(n)])
    keep, keepb = list(ss), list(bs)
    e = x.wsum_secrets(ss, bs)
    is_expr(env, e, ss, bs, "the dot product")
    env.check(e.eval() == total(group, vals, bs), "the value of the dot product")
    f = env.z.Secret(env.num("w")) * bs[0]
    g = e + f
    is_expr(env, g, keep + list(f.secrets), keepb + [bs[0]], "a sum with it")
    is_expr(env, f + e, list(f.secrets) + keep, [bs[0]] + keepb, "a sum with it")
    is_expr(env, e, keep, keepb, "the dot product is unchanged")
    env.check(len(ss) == n and all(a is b for a, b in zip(ss, keep)) and len(bs) == n and all(a is b for a, b in zip(bs, keepb)), "the sequences are unchanged")
    for k in range(0, n + 3):
        if k != n and k > 0:
            more = [env.z.Secret(1) for _ in range(k)]
            env.check_raises("unequal lengths are refused", lambda: x.wsum_secrets(more, bs))
            pts = [env.pt("C%d" % i, group) for i in range(k)]
            env.check_raises("unequal lengths are refused", lambda: x.wsum_secrets(ss, pts))
    env.check_raises("unequal lengths are refused", lambda: x.wsum_secrets([], bs))
    env.check_raises("unequal lengths are refused", lambda: x.wsum_secrets(ss, []))
    is_expr(env, e, keep, keepb, "the dot product is unchanged")


@scenario("C19", cases=[dict(n=n, missing=m) for n in range(1, 5) for m in range(1, 1 << n)], con=[dict(n=12, missing=1 << 11), dict(n=12, missing=64)], seeds=1)
def missing_values(env, n, missing):
    x = env.m("expr")
    vals = [None if missing >> i & 1 else env.num("v%d" % i) for i in range(n)]
    ss = [env.z.Secret(v) if v is not None else env.z.Secret() for v in vals]
    bs = [env.pt("B%d" % i) for i in range(n)]
    e = x.wsum_secrets(ss, bs)
    f = ss[0] * bs[0]
    for i in range(1, n):
        f = f + ss[i] * bs[i]
    for g in (e, f, e + f, f + e):
        r = env.check_raises("an expression with a missing value is not evaluated", g.eval)
        env.check(isinstance(r, env.m("exceptions").IncompleteValuesError), "with the error for it", repr(r))
        repr(g)
    new = {s: env.num("n%d" % i) for i, s in enumerate(ss) if missing >> i & 1}
    x.update_secret_values(new)
    want = [v if v is not None else new[s] for s, v in zip(ss, vals)]
    env.check(env.all([s.value == w for s, w in zip(ss, want)]), "the given secrets get their values, the others keep theirs")
    env.check(e.eval() == total(env.group(), want, bs), "with all values it can be evaluated")
    env.check(f.eval() == e.eval(), "with all values it can be evaluated")
    is_expr(env, e, ss, bs, "the expression is unchanged")


@scenario("C19", cases=[dict(v=v, group=g) for v in ("zero", "one", "minus", "order", "int0", "int1", "int-1", "int", "neg") for g in GROUPS], seeds=2)
def kinds_of_values(env, v, group):
    group = group_named(env, group)
    q = group.order()
    val = {"zero": lambda: env.bn(0), "one": lambda: env.bn(1), "minus": lambda: env.bn(-1), "order": lambda: q, "int0": lambda: 0, "int1": lambda: 1,
           "int-1": lambda: -1, "int": lambda: env.pyint("k"), "neg": lambda: -env.sc("k", q)}[v]()
    s, t = env.z.Secret(val), env.z.Secret(env.num("t"))
    P, Q = env.pt("P", group), env.pt("Q", group)
    big = env.mkbn(val)
    env.check((s * P).eval() == big * P, "the value of a product")
    env.check((s * P + t * Q).eval() == big * P + t.value * Q, "the value of a sum")
    env.check((t * Q + s * P).eval() == big * P + t.value * Q, "the value of a sum")
    env.check((s * P + s * Q + s * P).eval() == big * (P + Q + P), "one secret, several bases")
    env.check(s.value is val, "the value is unchanged")


@scenario("C19", cases=[dict(group=g) for g in GROUPS], seeds=3)
def operands_survive(env, group):
    """Operands can be used again, also with themselves, and in place."""
    group = group_named(env, group)
    S = env.z.Secret
    a, b, c = S(env.num("a")), S(env.num("b")), S(env.num("c"))
    P, Q, R = [env.pt(n, group) for n in "PQR"]
    p = P + group.infinite()
    e, f = a * P, b * Q
    d = e + e
    is_expr(env, d, [a, a], [P, P], "an expression and itself")
    d2 = d + d
    is_expr(env, d2, [a] * 4, [P] * 4, "an expression and itself")
    env.check(d2.eval() == 4 * (a.value * P), "an expression and itself")
    s1, s2 = e + f, e + c * R
    is_expr(env, s1, [a, b], [P, Q], "one operand in two sums")
    is_expr(env, s2, [a, c], [P, R], "one operand in two sums")
    x = e
    x += f
    x += s2
    is_expr(env, x, [a, b, a, c], [P, Q, P, R], "in-place addition")
    for y, ss, bs in ((e, [a], [P]), (f, [b], [Q]), (d, [a, a], [P, P]), (s1, [a, b], [P, Q]), (s2, [a, c], [P, R])):
        is_expr(env, y, ss, bs, "the operands are unchanged")
    env.check(x.eval() == s1.eval() + s2.eval(), "the value of the sum")
    env.check(P == p, "the points are unchanged")
    sc, bs = x.secrets, x.bases
    x + e, x.eval(), repr(x)
    env.check(len(sc) == 4 and len(bs) == 4 and len(x.secrets) == 4, "the secrets and bases given out are not changed later")
    # the value is that of the secrets at the time of evaluation
    v = env.num("new")
    a.value = v
    env.check(s1.eval() == v * P + b.value * Q, "the current values count")
    env.check(e.eval() == v * P, "the current values count")


@scenario("C19", cases=[dict(group=g) for g in GROUPS], seeds=1)
def refusals(env, group):
    group = group_named(env, group)
    x, S = env.m("expr"), env.z.Secret
    a, b = S(env.num("a")), S()
    P, Q = env.pt("P", group), env.pt("Q", group)
    e = a * P
    for left in (5, 0, 1, env.bn(3), P, e, None, "a", [a], (a,), S):
        r = env.check_raises("a product with anything but a secret on the left is refused", lambda: x.Expression(left, P))
        env.check(isinstance(r, env.m("exceptions").InvalidExpression), "with the error for it", repr(r))
    for right in (0, 1, env.bn(3), P, group.infinite(), a, None, "a", [e], (e,), {}, x.Expression):
        for lhs in (e, e + b * Q):
            r = env.check_raises("a sum with anything but an expression is refused", lambda: lhs + right)
            env.check(isinstance(r, env.m("exceptions").InvalidExpression), "with the error for it", repr(r))

            def inplace():
                y = lhs
                y += right
                return y
            env.check_raises("a sum with anything but an expression is refused", inplace)
    env.check_raises("a sum with anything but an expression is refused", lambda: sum([e, e]))
    env.check_raises("a sum with anything but an expression is refused", lambda: 0 + e)
    env.check_raises("a sum with anything but an expression is refused", lambda: env.bn(3) + e)
    is_expr(env, e, [a], [P], "the operands are unchanged")
    for left in ([3, a], [a, 3], [None, a], [P, a], [a, P], [a, e]):
        env.check_raises("a dot product of anything but secrets is refused", lambda: x.wsum_secrets(left, [P, Q]))


@scenario("C04", "C19", "C07", cases=[dict(n=n) for n in (2, 5, 20)], con=[dict(n=n) for n in (300, 3000)], seeds=1)
def many_secrets_are_different(env, n):
    """Secrets made without a name are all different, however many there are."""
    S = [env.z.Secret() for _ in range(n)]
    g = env.gens(1)[0]
    env.check(len(set(S)) == n, "as many different secrets")
    env.check(len({s.name for s in S}) == n, "with different names")
    env.check(len(set(env.m("composition").AndProofStmt(*[env.z.DLRep(g, s * g) for s in S]).get_secret_vars())) == n,
              "as many in a conjunction")


SPELLINGS = ["x", "X", "x ", " x", "x0", "x00", "x1", "x01", "xx", "", " ", "0", "00", "1", "01", "a", "á", "à", "A", "x\0", "x\n", "Secret", "secret",
         "None", "a" * 40, "a" * 41, "a" * 40 + "b", "b" + "a" * 40, "x_1", "x-1", "x.1", "xy", "yx", "\u212b", "\u00c5"]


@scenario("C04", "C19", "C07", cases=[dict(i=i) for i in range(len(SPELLINGS))], seeds=1)
def the_name_makes_the_secret(env, i):
    """Secrets with different names are different, ones with equal names are the same."""
    z, comp = env.z, env.m("composition")
    P, Q = env.gens(2)
    A, B = env.pt("A"), env.pt("B")
    a, a2 = z.Secret(name=SPELLINGS[i]), z.Secret(name="".join(list(SPELLINGS[i])))
    env.check(a == a2 and hash(a) == hash(a2), "an equal name, the same secret")
    for other in SPELLINGS[:i]:
        b = z.Secret(name=other)
        env.check(not (a == b) and a != b and len({a, b}) == 2 and b not in {a: 1}, "another name, another secret", other)
        one, two = identity_of(z.DLRep(A, a * P + a2 * Q)), identity_of(z.DLRep(A, a * P + b * Q))
        env.check(env.not_(env.same(one, two)), "in identities", other)
        # a verifier asks for equal responses exactly for the same secret
        c, r1, r2 = env.num("c", 0, 1 << 128), env.bn(3), env.bn(4)
        for t, same in ((a2, True), (b, False)):
            for s, com, r in ((z.DLRep(A, a * P + t * Q), r1 * P + r2 * Q - c * A, [r1, r2]),
                              (comp.AndProofStmt(z.DLRep(A, a * P), z.DLRep(B, t * Q)), [r1 * P - c * A, r2 * Q - c * B], [[r1], [r2]])):
                ve = s.get_verifier()
                env.force_draw(c)
                ve.send_challenge((s.prehash_statement().digest(), com))
                if same:
                    env.check_reject("different responses for one secret are refused", ve.verify, r)
                else:
                    env.check_accept("different responses for different secrets are accepted", ve.verify, r)


def identity_of(s):
    return s.prehash_statement().digest()
