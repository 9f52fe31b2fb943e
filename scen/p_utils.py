"""C22: generators and random numbers."""
from .registry import scenario
from .model import *
from .common import *
from .p_expr import group_named

HGROUPS = ["", "415", "G1"]
SEEDS = [0, 1, 42, -1, -7, 43, 10 ** 6, 1 << 32, 1 << 70]


def is_point_of(env, P, group):
    env.check(type(P) is type(group.infinite()) and P.group == group, "a point of the group")


def make(env, fn, *a, **k):
    how, r = env.outcome(fn, *a, **k)
    env.check(how == "ok", "generators are made", repr(r)[:200])
    return r


@scenario("C22", cases=[dict(n=n, group=g, seed=s) for n in (0, 1, 2, 5) for g in HGROUPS for s in SEEDS[:6]] + [dict(n=3, group="", seed=s) for s in SEEDS],
          con=[dict(n=n, group=g, seed=s) for n in (40,) for g in HGROUPS for s in (0, -20, 42)], seeds=1)
def generators(env, n, group, seed):
    G = group_named(env, group)
    mk = env.m("utils.groups").make_generators
    gs = make(env, mk, n, G, seed=seed)
    env.check(len(gs) == n, "as many as requested")
    again = make(env, mk, n, G, seed=seed)
    third = make(env, mk, num=n, group=G, random_bits=256, seed=seed)
    for P, Q, R in zip(gs, again, third):
        is_point_of(env, P, G)
        env.check(P == Q and P == R, "the same every time")
        env.check(env.not_(P == G.infinite()), "not neutral")
    env.check(env.z.make_generators is mk or env.same(list(env.z.make_generators(n, G, seed=seed)), list(gs)), "also by the name in zksk")
    seen = [(seed + i, P) for i, P in enumerate(gs)]
    for s in (seed + n, seed - 1, seed + n + 5, -seed if seed > n else seed - 2, seed + 256, seed + (1 << 32), seed + 10 ** 9, seed * 10 + 1, seed * 100 + 20):
        if s not in [x for x, _ in seen]:
            for i, P in enumerate(make(env, mk, 1, G, seed=s)):
                seen.append((s, P))
    for i in range(len(seen)):
        for j in range(i):
            if seen[i][0] != seen[j][0]:
                env.check(env.not_(seen[i][1] == seen[j][1]), "different for different sums of seed and position", (seen[i][0], seen[j][0]))
    first = list(gs)
    for l in (gs, again, third):
        if isinstance(l, list):
            l.reverse()
            l.append(G.infinite())
    after = make(env, mk, n, G, seed=seed)
    env.check(len(after) == n, "as many as requested, whatever a caller did with other lists")
    for P, Q in zip(first, after):
        env.check(P == Q, "the same every time, whatever a caller did with other lists")
    rp = env.m("utils.groups").get_random_point
    P, Q = rp(G, seed=seed), rp(group=G, random_bits=256, seed=seed)
    is_point_of(env, P, G)
    env.check(P == Q, "a point for a seed is always the same")
    env.check(env.not_(P == rp(G, seed=seed + 1)), "points for different seeds are different")
    env.check(not env.draws(), "nothing is drawn when there is a seed")


@scenario("C22", cases=[dict(n=2, group="", seed=7)], con=[dict(n=1100, group="", seed=s) for s in (-600, 42)], seeds=1)
def many_generators(env, n, group, seed):
    G = group_named(env, group)
    gs = make(env, env.m("utils.groups").make_generators, n, G, seed=seed)
    env.check(len(gs) == n, "as many as requested")
    if n > 2:
        env.check(len({P.export() for P in gs}) == n, "different generators")
    else:
        env.check(env.not_(gs[0] == gs[1]), "different generators")


@scenario("C22", cases=[dict(n=n) for n in (0, 1, 4)], seeds=1)
def default_arguments(env, n):
    g = env.m("utils.groups")
    G = env.m("consts").DEFAULT_GROUP
    a, b, c = make(env, g.make_generators, n), make(env, g.make_generators, n), make(env, g.make_generators, n, group=None)
    env.check(len(a) == len(b) == len(c) == n, "as many as requested")
    for x, y, w in zip(a, b, c):
        is_point_of(env, x, G)
        env.check(x == y and x == w, "the same every time")
    for i in range(n):
        for j in range(i):
            env.check(env.not_(a[i] == a[j]), "different for different sums of seed and position")
    env.check(not env.draws(), "nothing is drawn when there is a seed")
    is_point_of(env, g.get_random_point(), G)
    env.check(len(env.draws()) >= 1 and all(d[2] != "insecure" for d in env.draws()), "without a seed from secure randomness")
    is_point_of(env, g.get_random_point(seed=3), G)


@scenario("C22", cases=[dict(group=g, first=f) for g in HGROUPS for f in HGROUPS if f != g], seeds=1)
def groups_do_not_interfere(env, group, first):
    """Generators of one group are not affected by those made for another one before."""
    mk, rp = env.m("utils.groups").make_generators, env.m("utils.groups").get_random_point
    F, G = group_named(env, first), group_named(env, group)
    make(env, mk, 3, F), make(env, mk, 3, F, seed=7), rp(F, seed=7), rp(F)
    for s in (42, 7):
        a = make(env, mk, 3, G, seed=s)
        make(env, mk, 3, F, seed=s)
        b = make(env, mk, 4, G, seed=s)
        make(env, mk, 2, G, 160, seed=s)
        c = make(env, mk, 3, G, seed=s)
        a2 = a + []
        a.append(None)
        d = make(env, mk, 3, G, seed=s)
        env.check(len(d) == 3, "as many as requested")
        for x, y, w, v in zip(a2, b, c, d):
            is_point_of(env, x, G)
            is_point_of(env, y, G)
            env.check(x == y and x == w and x == v, "the same every time")


@scenario("C22", cases=[dict(group=g, bits=b, n=n) for g in HGROUPS for b in (128, 160, 250, 256, 257, 512, 1000) for n in (1, 3)]
          + [dict(group=g, bits=256, n=n) for g in HGROUPS for n in (5, 9, 18)], con=[dict(group=g, bits=256, n=40) for g in HGROUPS], seeds=2)
def unseeded(env, group, bits, n):
    """Without a seed every generator is made from fresh secure randomness of its own."""
    G = group_named(env, group)
    g = env.m("utils.groups")
    how, gs = env.outcome(g.make_generators, n, G, bits, seed=None)
    env.check(how == "ok", "generators are made", repr(gs)[:200])
    P = g.get_random_point(G, bits)
    Q = g.get_random_point(G, random_bits=bits, seed=None)
    all_ = list(gs) + [P, Q]
    env.check(len(gs) == n, "as many as requested")
    ds = env.draws()
    env.check(len(ds) >= n + 2, "every one from fresh randomness")
    env.check(all(d[2] != "insecure" for d in ds), "the randomness is secure")
    ent = 1
    for d in ds:
        ent = ent * env.plain(d[1])
    env.check(ent >= 1 << (bits * (n + 2)), "and of the requested size")
    for i, x in enumerate(all_):
        is_point_of(env, x, G)
        env.check(env.not_(x == G.infinite()), "not neutral")
        for y in all_[:i]:
            env.check(env.not_(x == y), "every one from fresh randomness")


@scenario("C22", cases=[dict(group=g, bits=b, seed=s) for g in HGROUPS for b in (128, 256, 512, 513, 1000) for s in (0, 42, -3)], seeds=1)
def seeded_bits(env, group, bits, seed):
    """Seeded generators for other amounts of bits."""
    G = group_named(env, group)
    g = env.m("utils.groups")
    a, b = make(env, g.make_generators, 6, G, bits, seed), make(env, g.make_generators, 6, G, bits, seed)
    for i in range(6):
        is_point_of(env, a[i], G)
        env.check(a[i] == b[i], "the same every time")
        env.check(env.not_(a[i] == G.infinite()), "not neutral")
        for j in range(i):
            env.check(env.not_(a[i] == a[j]), "different for different sums of seed and position")
    env.check(not env.draws(), "nothing is drawn when there is a seed")


@scenario("C22", con=[dict(group=g, seed=s, bits=b) for g in HGROUPS for s in (0, 42, -3, 1 << 40) for b in (128, 256)], cases=[], seeds=1, sym=False)
def generators_in_another_process(env, group, seed, bits):
    """The same points in another process with other hash seeds, after other calls."""
    import os
    import subprocess
    import sys
    G = group_named(env, group)
    mine = [P.export().hex() for P in env.m("utils.groups").make_generators(5, G, bits, seed)]
    code = ("import sys; sys.dont_write_bytecode = True; sys.path.insert(0, %r)\nfrom zksk.utils.groups import *\nfrom zksk import consts\n"
            "import zksk.pairings, petlib.ec, random\nG = %s\n[get_random_point(G) for _ in range(int(sys.argv[1]))]\n"
            "print([P.export().hex() for P in make_generators(5, G, %d, %d)])") % (
        os.environ.get("ZKSK_REPO", "/repo"), {"": "consts.DEFAULT_GROUP", "415": "petlib.ec.EcGroup(415)", "G1": "zksk.pairings.BilinearGroupPair().G1"}[group], bits, seed)
    outs = []
    for i, h in enumerate(("1", "77")):
        outs.append(subprocess.run([sys.executable, "-W", "ignore", "-c", code, str(i)], env=dict(os.environ, PYTHONHASHSEED=h, PYTHONDONTWRITEBYTECODE="1"),
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60))
    for o in outs:
        env.check(o.returncode == 0, "generators are made in another process", o.stderr[-300:])
        env.check(o.stdout.strip() == repr(mine), "the same in every process", o.stdout[:200])


@scenario("C22", cases=[dict(bits="any")] + [dict(bits=b) for b in (0, 1, 2, 3, 8, 31, 32, 33, 64, 128, 256, 300, 1024)], seeds=6)
def random_numbers(env, bits):
    """The number is exactly one uniform secure draw over [0, 2^n)."""
    g = env.m("utils.groups")
    n = env.pyint("n", 0, 4000) if bits == "any" else bits
    top = env.Bn(2).pow(n)
    x = g.get_random_num(n)
    env.check(isinstance(x, env.Bn), "a big number")
    env.check((x >= 0) & (x < top), "in [0, 2^n)")
    if bits == 0:
        env.check(x == 0, "in [0, 1)")
        return
    hits = 0
    for v, bound, how in env.draws():
        if how != "insecure" and env.known(bound % top == 0) and env.known(v % top == x):
            hits += 1
    env.check(hits == 1, "uniform over [0, 2^n): one secure draw, not transformed", env.draws())
    y = g.get_random_num(n)
    k = sum(1 for v, bound, how in env.draws() if how != "insecure" and env.known(bound % top == 0))
    env.check(k >= 2, "every number is drawn afresh")
    env.check(env.truth((y >= 0) & (y < top)), "in [0, 2^n)")


@scenario("C22", con=[dict(bits=b) for b in (1, 2, 3, 4, 5)], cases=[], seeds=1, sym=False)
def all_values_occur(env, bits):
    g = env.m("utils.groups")
    seen = {env.plain(g.get_random_num(bits)) for _ in range(60 << bits)}
    env.check(seen == set(range(1 << bits)), "every number of n bits can occur")


@scenario("C22", cases=[dict(n=n, m=m, seq=s) for n in range(0, 6) for m in ("any", "order", "int", "one") for s in ("list", "tuple", "gen")],
          con=[dict(n=n, m=m, seq="list") for n in (20, 64) for m in ("any", "order", "int", "one")], seeds=4)
def sums_of_numbers(env, n, m, seq):
    g = env.m("utils.groups")
    q = env.group().order()
    m = {"any": lambda: env.num("m", 1), "order": lambda: q, "int": lambda: env.pyint("m", 1, 1 << 80), "one": lambda: 1}[m]()
    M = g.ensure_bn(m)
    xs = []
    for i in range(n):
        xs.append((env.num, env.num, env.pyint)[i % 3]("x%d" % i))
    keep = [env.mkbn(x) for x in xs]
    arg = {"list": list, "tuple": tuple, "gen": iter}[seq](xs)
    r = g.sum_bn_array(arg, m)
    env.check(isinstance(r, env.Bn), "a big number")
    t = env.bn(0)
    for x in keep:
        t = t + x
    env.check((r >= 0) & (r < M), "in [0, modulus)")
    env.check(r == t % M, "the sum reduced")
    env.check(env.all([env.mkbn(a) == b for a, b in zip(xs, keep)]), "the array is unchanged")


@scenario("C22", cases=[dict(kind=k) for k in ("bn", "small", "wide", "zero", "neg", "bool")], seeds=8)
def conversion(env, kind):
    g = env.m("utils.groups")
    x = {"bn": lambda: env.num("x"), "small": lambda: env.pyint("x"), "wide": lambda: env.pyint("x", -(1 << 600), 1 << 600), "zero": lambda: 0,
         "neg": lambda: -env.num("x", 0, 1 << 300), "bool": lambda: True}[kind]()
    r = g.ensure_bn(x)
    env.check(isinstance(r, env.Bn), "a big number")
    if isinstance(x, env.Bn):
        env.check(r == x, "the value is kept")
    else:
        env.check(r.int() == int(x), "the value is kept") if not env.symbolic else env.check(r.int() == x, "the value is kept")
