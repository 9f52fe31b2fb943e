"""C13, C14: range proofs."""
from .registry import scenario
from .model import *
from .common import *
from . import shapes as SH

dl, bad = SH.dl, SH.bad
SMALL = [(a, b) for a in range(-3, 8) for b in range(a + 1, 9)]
WIDE = [(a, a + w) for a in (0, -5, 3) for k in (4, 5, 8) for w in ((1 << k) - 1, 1 << k, (1 << k) + 1)]
LARGE = [(0, 1 << 16), (1 << 31, (1 << 31) + 9), (-(1 << 31), 3 - (1 << 31)), (1 << 32, (1 << 32) + 3), (-(1 << 40), 2 - (1 << 40)),
         (1 << 64, (1 << 64) + 5), (0, (1 << 32) - 1), (0, 1 << 32), (-(1 << 20), 1 << 20), (0, 10 ** 12), (18, 200), (0, (1 << 33) + 1),
         (-(1 << 64), 1 << 64), ((1 << 32) - 1, (1 << 32) + 1)]


def inner(a, b):
    """Values at which something can go wrong."""
    xs = {a, a + 1, b - 1, b - 2, (a + b) // 2, 0, 1, -1}
    k = 1
    while k < b - a:
        xs |= {a + k - 1, a + k, b - k, b - k - 1}
        k *= 2 if k < 64 else 1 << 16
    return sorted(x for x in xs if a <= x < b)


def fixed_values(env, spec):
    k = spec[0].split("#")[0].split("@")[0]
    if k in ("p2", "range"):
        return {spec[-2]: env.bn(spec[-1])}
    return {l: v for s in spec[1:] if isinstance(s, tuple) for l, v in fixed_values(env, s).items()}


def nbits(a, b):
    k = 1
    while (1 << k) < b - a:
        k += 1
    return k


def verifies(env, spec, label, as_bn=True):
    inst, p, v, d = honest(env, spec)
    env.check_accept(label, v.verify, prove(env, p))
    return inst, p, v


@scenario("C13", "C14", cases=[dict(a=a, b=b) for a, b in SMALL], seeds=1)
def every_value_of_a_small_range(env, a, b):
    for x in range(a, b):
        verifies(env, ("range", a, b, "x", x), "a value in the range is proven")


@scenario("C13", cases=[dict(a=a, b=b) for a, b in WIDE], seeds=1)
def values_of_a_range(env, a, b):
    for x in inner(a, b):
        verifies(env, ("range", a, b, "x", x), "a value in the range is proven")


@scenario("C13", cases=[dict(a=a, b=b) for a, b in LARGE], seeds=1,
          con=[dict(a=a, b=a + (1 << k) + d) for k in (47, 53, 54, 60, 63, 64, 100) for a, d in ((0, -1), (0, 0), (-3, 1))])
def bounds_of_large_ranges(env, a, b):
    for x in (a, b - 1):
        verifies(env, ("range", a, b, "x", x), "a value in the range is proven")


@scenario("C13", "C14", cases=[dict(n=n) for n in range(1, 5)], seeds=1)
def every_value_of_n_bits(env, n):
    for x in range(1 << n):
        verifies(env, ("p2", n, "x", x), "a value of n bits is proven")


@scenario("C13", cases=[dict(n=n) for n in (5, 7, 8, 9, 16, 31, 32, 33)], con=[dict(n=n) for n in (63, 64, 65, 70, 128, 130)], seeds=1)
def values_of_n_bits(env, n):
    for x in sorted({0, 1, (1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1, int("10" * n, 2) % (1 << n)}):
        verifies(env, ("p2", n, "x", x), "a value of n bits is proven")


@scenario("C13", cases=[dict(a=a, b=b, x=x, kind=k, bn=bn) for a, b, x in [(0, 1, 0), (0, 2, 1), (-3, 5, -3), (-3, 5, 4), (3, 100, 64), (0, 256, 255)]
                        for k in ("any", "zero", "order", "big") for bn in (True, False)], seeds=2)
def every_randomizer(env, a, b, x, kind, bn):
    """Also neutral, unreduced and negative randomizers; values, bounds as integers and as big numbers."""
    q = env.group().order()
    r = {"any": lambda: env.num("r"), "zero": lambda: env.bn(0), "order": lambda: q, "big": lambda: q * q - 7}[kind]()
    inst = Inst(env, ("range", a, b, "x", x), {"r_x": r, "x": env.bn(x) if bn else x})
    if not bn:
        inst.com = env.bn(x) * inst.g + r * inst.h
    else:
        inst.a, inst.b = env.bn(a), env.bn(b)
    S, _ = make_secrets(env, inst, True)
    V, _ = make_secrets(env, inst, False)
    n = prove(env, inst.stmt(S, True))
    env.check_accept("a value in the range is proven", inst.stmt(V).verify, n)


@scenario("C13", "C14", cases=[dict(spec=s) for s in [("p2@415", 3, "x", 6), ("p2#g1", 2, "x", 3), ("p2#g2", 2, "x", 1), ("p2#gt", 2, "x", 2),
          ("range@415", -1, 4, "x", 2), ("range#g1", 2, 5, "x", 4), ("range#gt", 0, 3, "x", 1), ("and", ("range#g1", 0, 3, "x", 2), ("dl#g1", "x y"))]], seeds=2)
def ranges_in_other_groups(env, spec):
    inst, p, v = verifies(env, spec, "a value in the range is proven")
    pr, ve = p.get_prover(), v.get_verifier()
    pre, com, c, r = run_interactive(env, pr, ve)
    env.check_accept("accepted interactively", ve.verify, r)


@scenario("C13", "C04", cases=[dict(spec=s) for s in [("and", ("range", 0, 5, "x", 3), dl("x")), ("and", dl("x y"), ("range", -2, 9, "y", 7)),
          ("and", ("range", 0, 5, "x", 3), ("range", 2, 4, "x", 3)), ("or", ("range", 0, 5, "x", 3), bad("z")), ("and", ("p2", 3, "x", 5), ("p2", 4, "x", 5)),
          ("or", bad("z"), ("and", ("range", 0, 3, "x", 2), dl("x"))), ("or", ("range", 0, 3, "x", 2), ("range", 5, 7, "y", 6)),
          ("and", ("or", bad("u"), ("range", 0, 3, "x", 2)), dl("w"))]], seeds=2)
def ranges_in_compositions(env, spec):
    inst, p, v, d = honest(env, spec, vals=fixed_values(env, spec))
    env.check_accept("a composition with ranges is proven", v.verify, prove(env, p))
    pr, ve = p.get_prover(), v.get_verifier()
    pre, com, c, r = run_interactive(env, pr, ve)
    env.check_accept("accepted interactively", ve.verify, r)


@scenario("C13", cases=[dict(a=a, b=b) for a, b in [(0, 1), (0, 2), (0, 5), (-4, 3), (10, 27), (7, 263)]], seeds=1)
def range_only(env, a, b):
    """RangeOnlyStmt makes the commitment itself."""
    for x in inner(a, b):
        s = env.m("primitives.rangeproof").RangeOnlyStmt(a, b, env.z.Secret(value=env.bn(x)))
        env.check_accept("a value in the range is proven", s.verify, prove(env, s))


@scenario("C14", cases=[dict(a=a, b=b) for a, b in [(0, 1), (0, 3), (0, 4), (-4, 3), (10, 27)]], seeds=1)
def range_only_refused(env, a, b):
    for x in outer(a, b):
        def run():
            s = env.m("primitives.rangeproof").RangeOnlyStmt(a, b, env.z.Secret(value=env.bn(x)))
            return s.verify(s.prove())
        env.check_reject("a value out of the range is not proven", run)


# -- the bit decomposition

@scenario("C13", "C14", cases=[dict(n=n) for n in range(0, 8)], seeds=1)
def decomposition(env, n):
    """decompose_into_n_bits gives the n binary digits; what does not fit is refused."""
    f = env.m("primitives.rangeproof").decompose_into_n_bits
    for v in range(1 << n):
        env.check([int(b) for b in f(env.bn(v), n)] == [(v >> i) & 1 for i in range(n)], "the binary digits", (v, n))
    for v in list(range(1 << n, (1 << n) + 40)) + [(1 << m) + d for m in (n + 1, 31, 32, 40, 64, 200) for d in (-1, 0, 1)]:
        if v >= 1 << n:
            env.check_raises("a value of more bits is refused", f, env.bn(v), n)
    for v in [-x for x in range(1, 20)] + [-(1 << n), -(1 << 70)]:
        env.check_raises("a negative value is refused", f, env.bn(v), n)
        env.check_raises("a negative value is refused", f, v, n)


@scenario("C13", con=[dict(n=n) for n in (9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 200, 256, 300)], cases=[dict(n=12)], seeds=4)
def long_decomposition(env, n):
    f = env.m("primitives.rangeproof").decompose_into_n_bits
    for k in range(6):
        v = int(env.plain(env.num("v%d" % k, 0, 1 << n))) if not env.symbolic else (0x5a5a5a5a5 * (k + 1)) % (1 << n)
        env.check([int(b) for b in f(env.bn(v), n)] == [(v >> i) & 1 for i in range(n)], "the binary digits", (v, n))
    for v in ((1 << n) - 1, 1 << (n - 1), 0):
        env.check([int(b) for b in f(env.bn(v), n)] == [(v >> i) & 1 for i in range(n)], "the binary digits", (v, n))
    env.check_raises("a value of more bits is refused", f, env.bn(1 << n), n)


# -- out of range

def outer(a, b):
    k = nbits(a, b)
    return sorted(x for x in {a - 1, a - 2, b, b + 1, a - (1 << k), a + (1 << k), a + (1 << k) - 1, b - (1 << k), b - (1 << k) - 1, 2 * b + 1, -b - 3,
                              a - (1 << 40), b + (1 << 40)} if not a <= x < b)


@scenario("C14", "C13", cases=[dict(a=a, b=b) for a, b in SMALL + WIDE[:9] + LARGE[:3]], seeds=1)
def honest_prover_out_of_range(env, a, b):
    for x in outer(a, b):
        inst = Inst(env, ("range", a, b, "x", x))

        def run():
            n = inst.stmt(make_secrets(env, inst, True)[0], True).prove()
            return inst.stmt(make_secrets(env, inst, False)[0]).verify(n)
        env.check_reject("a value out of the range is not proven", run)


@scenario("C14", "C13", cases=[dict(n=n) for n in range(1, 6)], seeds=1)
def honest_prover_too_many_bits(env, n):
    for x in [1 << n, (1 << n) + 1, -1, -(1 << n), (1 << (n + 1)) - 1, 1 << 200, 1 - (1 << n)]:
        inst = Inst(env, ("p2", n, "x", x))

        def run():
            m = inst.stmt(make_secrets(env, inst, True)[0], True).prove()
            return inst.stmt(make_secrets(env, inst, False)[0]).verify(m)
        env.check_reject("a value of more bits is not proven", run)


def forge_and_judge(env, inst, pre, open_, label, ok):
    """A dishonest non-interactive proof and an interactive one with the given precommitment."""
    def verifier():
        return inst.stmt(make_secrets(env, inst, False)[0])
    node = inst.expand(pre)
    w = inst.witness()

    def opening(path, leaf):
        return [w[l] for l in leaf.labels] if open_ is None else open_(path, leaf, w)
    ident = verifier()
    how, _ = env.outcome(ident.get_verifier().process_precommitment, pre)
    n = None
    if how == "ok":
        f = Forger(env, node, opening)
        how, n = env.outcome(f.nizk, ident, pre, "m")
    if how == "ok":
        if ok:
            env.check_accept(label, verifier().verify, n, message="m")
        else:
            env.check_reject(label, verifier().verify, n, message="m")
    else:
        env.check(not ok, label, "no identity")
    f = Forger(env, node, opening)
    ve = verifier().get_verifier()

    def run():
        ve.process_precommitment(pre)
        c = ve.send_challenge((ve.stmt.prehash_statement().digest(), f.commit()))
        return ve.verify(f.respond(c))
    (env.check_accept if ok else env.check_reject)(label + " (interactive)", run)


@scenario("C14", cases=[dict(a=a, b=b) for a, b in [(0, 1), (0, 2), (0, 3), (0, 4), (2, 7), (-3, 3), (1, 6)]], seeds=1)
def only_values_in_range(env, a, b):
    """Every choice of proven bits: accepted exactly if they are the digits of x - a and of x - a + 2^k - (b - a)."""
    k = nbits(a, b)
    off = (1 << k) - (b - a)
    for x in range(a - 3, b + 4):
        good = 0
        for v1 in range(1 << k):
            for v2 in range(1 << k):
                right = v1 == x - a and v2 == x - a + off
                # everything near to right, and few others
                if not right and abs(v1 - (x - a)) + abs(v2 - (x - a + off)) > 1 and (v1 * 5 + v2 * 3 + x) % 11:
                    continue
                good += right
                inst = Inst(env, ("range", a, b, "x", x))
                inst.internal = {}
                rnd = scalars(env)
                pre = [None, inst._p2_pre(env.bn(v1), k, None, "lo", rnd), inst._p2_pre(env.bn(v2), k, None, "hi", rnd)]
                forge_and_judge(env, inst, pre, None, "a proof for x is accepted exactly with its digits", right)
        env.check(good == (a <= x < b), "exactly the values in the range have an accepted proof", x)


@scenario("C14", "C13", cases=[dict(a=a, b=b) for a, b in [(0, 9), (-5, 12), (0, 33), (7, 107), (0, 256), (0, 300), (0, 1025)]], seeds=1,
          con=[dict(a=a, b=b) for a, b in [(0, 4000), (-7, 70000), (5, (1 << 20) + 7), (0, (1 << 33) - 1), (0, (1 << 33) + 1), (0, (1 << 54) + 1), (1 << 70, (1 << 70) + (1 << 60) - 1)]])
def digits_of_a_range(env, a, b):
    """The digits, as many as the smallest suitable power of two needs: accepted for values at the ends of the range,
    rejected for values next to it."""
    k = nbits(a, b)
    off = (1 << k) - (b - a)
    for x in sorted({a, a + 1, (a + b) // 2, b - 2, b - 1, a - 1, b, b + 1, a + (1 << k) - 1, a + (1 << k), b - (1 << k) - 1}):
        ok = a <= x < b
        for v1, v2 in {(x - a, x - a + off)} if ok else {((x - a) % (1 << k), (x - a + off) % (1 << k)), (0, off % (1 << k)),
                                                        (b - a - 1, (1 << k) - 1)}:
            inst = Inst(env, ("range", a, b, "x", x))
            inst.internal = {}
            rnd = scalars(env)
            pre = [None, inst._p2_pre(env.bn(v1), k, None, "lo", rnd), inst._p2_pre(env.bn(v2), k, None, "hi", rnd)]
            forge_and_judge(env, inst, pre, None, "a proof for x is accepted exactly with its digits", ok)


@scenario("C14", cases=[dict(n=n) for n in (1, 2, 3)], seeds=1)
def only_values_of_n_bits(env, n):
    for x in range(-2, (1 << n) + 3):
        for v in range(1 << n):
            inst = Inst(env, ("p2", n, "x", x))
            inst.internal = {}
            pre = inst._p2_pre(env.bn(v), n, None, "", scalars(env))
            forge_and_judge(env, inst, pre, None, "a proof for x is accepted exactly with its digits", v == x)


@scenario("C14", "C21", cases=[dict(n=n, m=m) for n in (1, 2, 3, 4) for m in range(0, 7) if m != n], seeds=1)
def number_of_bit_commitments(env, n, m):
    """Fewer or more bit commitments, with responses for as many bits, are rejected although all equations hold."""
    for x in {(1 << m) - 1, 0, (1 << n) - 1, 1 << (n - 1), (1 << max(m - 1, 0))}:
        if x >= 1 << m:
            continue
        inst = Inst(env, ("p2", n, "x", x))
        inst.internal = {}
        pre = inst._p2_pre(env.bn(x), m, None, "", scalars(env))
        nodes = [m, n] if m else [n]
        for k in nodes:              # responses for the bits sent, and for the bits expected
            full = dict(pre, Cs=(list(pre["Cs"]) + [inst.group.infinite()] * 9)[:k])
            node = inst._bits(full, k, lambda s: "t:" + s, inst)
            w = inst.witness()

            def verifier():
                return inst.stmt(make_secrets(env, inst, False)[0])

            def opening(path, leaf):
                return [w.get(l, env.bn(0)) for l in leaf.labels]
            ident = verifier()
            how, _ = env.outcome(ident.get_verifier().process_precommitment, pre)
            if how == "ok":
                how, z = env.outcome(Forger(env, node, opening).nizk, ident, pre, "m")
                if how == "ok":
                    env.check_reject("another number of bit commitments is rejected", verifier().verify, z, message="m")
            f = Forger(env, node, opening)
            ve = verifier().get_verifier()

            def run():
                ve.process_precommitment(pre)
                c = ve.send_challenge((ve.stmt.prehash_statement().digest(), f.commit()))
                return ve.verify(f.respond(c))
            env.check_reject("another number of bit commitments is rejected (interactive)", run)


@scenario("C14", cases=[dict(n=n, at=i, digit=d) for n in (1, 2, 3) for i in range(n) for d in (2, 3, -1, 5)], seeds=1)
def digits_other_than_bits(env, n, at, digit):
    """A digit other than 0 and 1 (its commitment opens, the weights add up) is rejected."""
    digs = [1] * n
    digs[at] = digit
    x = sum(d << i for i, d in enumerate(digs))
    inst = Inst(env, ("p2", n, "x", x))
    inst.internal = {}
    rnd, q = scalars(env), inst.q
    Cs, tot = [], env.Bn(0)
    for i, dg in enumerate(digs):
        r = rnd(q)
        inst.internal["t:r%d" % i] = r
        inst.internal["t:b%d" % i] = 1 if dg else 0
        Cs.append(env.bn(dg) * inst.g + r * inst.h)
        tot = tot + env.bn(1 << i) * r
    pre = {"Cs": Cs, "rand": (tot - inst.val("r_x")) % q}
    for t in (0, 1):
        inst.internal["t:b%d" % at] = t
        forge_and_judge(env, inst, pre, None, "a digit that is no bit is rejected", False)
    # answering both disjuncts "honestly" with one challenge each as it likes
    how, _ = env.outcome(inst.stmt(make_secrets(env, inst, False)[0]).validate, pre)


@scenario("C14", cases=[dict(n=n, what=w) for n in (1, 2, 3) for w in ("rand", "com", "bit", "swap", "same") if not (n == 1 and w in ("swap", "same"))], seeds=3)
def combination(env, n, what):
    """validate() accepts exactly the combinations that give C + rand H."""
    inst = Inst(env, ("p2", n, "x", (1 << n) - 1 if what != "swap" else 1))
    pre = inst.model_pre(scalars(env))
    d = env.sc("delta", inst.q)
    i = env.choose(n, "bit")
    if what == "rand":
        pre["rand"] = pre["rand"] + d
    elif what == "com":
        inst.com = inst.com + d * inst.g
    elif what == "bit":
        pre["Cs"][i] = pre["Cs"][i] + d * [inst.g, inst.h][env.choose(2, "base")]
    elif what == "swap":
        j = env.choose(n, "other")
        pre["Cs"][i], pre["Cs"][j] = pre["Cs"][j], pre["Cs"][i]
    else:
        pre["Cs"][i] = pre["Cs"][(i + 1) % n]
    v = inst.stmt(make_secrets(env, inst, False)[0])
    how, r = env.outcome(v.validate, pre)
    env.note(repr(r))
    agree(env, "the combination", how == "ok" and r is not False, inst.pre_valid(pre))


@scenario("C13", "C14", cases=[dict(n=n, what=w) for n in (17, 33, 65, 129, 255) for w in ("honest", "rand", "first", "last", "model")], seeds=1)
def combination_of_many_bits(env, n, what):
    """The same for ranges of hundreds of bits; the prover's precommitments are accepted."""
    inst = Inst(env, ("p2", n, "x", (1 << n) - 1 - (5 << (n - 6))))
    S, _ = make_secrets(env, inst, True)
    if what == "model":
        inst.internal = {}
        pre = inst.model_pre(scalars(env))
    else:
        pre = inst.stmt(S, True).precommit()
        d = env.sc("delta", inst.q)
        if what == "rand":
            pre["rand"] = pre["rand"] + d
        elif what != "honest":
            i = 0 if what == "first" else n - 1
            pre["Cs"][i] = pre["Cs"][i] + d * inst.h
    v = inst.stmt(make_secrets(env, inst, False)[0])
    how, r = env.outcome(v.validate, pre)
    ok = how == "ok" and r is not False
    if what in ("honest", "model"):
        env.check(ok, "a precommitment for the digits is accepted")
    agree(env, "the combination", ok, inst.pre_valid(pre))


@scenario("C14", cases=[dict(a=a, b=b, which=w) for a, b in [(0, 3), (-2, 5), (4, 8)] for w in ("lo", "hi", "com")], seeds=2)
def parts_of_a_range(env, a, b, which):
    """All three parts are about the same commitment: with one of them for another commitment it is rejected."""
    x = a + 1
    k = nbits(a, b)
    off = (1 << k) - (b - a)
    inst = Inst(env, ("range", a, b, "x", x))
    inst.internal = {}
    rnd = scalars(env)
    pre = [None, inst._p2_pre(env.bn(x - a), k, None, "lo", rnd), inst._p2_pre(env.bn(x - a + off), k, None, "hi", rnd)]
    d = env.sc("delta", inst.q)
    env.assume(d != 0)
    open_ = None
    if which == "com":
        def open_(path, leaf, w):
            # another opening of the commitment
            return [(w[l] + d) % inst.q if l == "x" else w[l] for l in leaf.labels]
    else:
        i = 1 if which == "lo" else 2
        pre[i] = dict(pre[i], rand=(pre[i]["rand"] + d) % inst.q)
    forge_and_judge(env, inst, pre, open_, "a part for another commitment is rejected", False)
