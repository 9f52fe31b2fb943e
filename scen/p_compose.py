"""C11: which compositions are accepted."""
from .registry import scenario
from .model import *
from .common import *
from . import shapes as SH

dl, bad = SH.dl, SH.bad


def occurrences(spec, path=()):
    """(label, list of (kind, position) from the root) of all secrets that a composition shares."""
    h = spec[0].rstrip("!").split("@")[0].split("#")[0]
    if h in ("and", "or"):
        return [o for i, k in enumerate(spec[1:]) for o in occurrences(k, path + ((h, i),))]
    if h == "ext":
        return occurrences(spec[1], path)
    if h == "ne" and not spec[2]:
        return []                       # not binding: x does not occur in the proof
    if h == "bbs":
        at = "t" + "".join(".%d" % i if k != "ext" else ".e" for k, i in path)
        return [("%s_m%d" % (at, i), path) for i in range(spec[1])]
    return [(l, path) for l in Inst.labels_of(spec)]


def is_legal(spec):
    """The rule of the property, on pairs of occurrences of one secret.  None: not settled by it (a disjunction
    directly inside a disjunction)."""
    occ = occurrences(spec)
    verdict = True
    for i in range(len(occ)):
        for j in range(i):
            if occ[i][0] != occ[j][0]:
                continue
            a, b = occ[i][1], occ[j][1]
            k = 0
            while k < min(len(a), len(b)) and a[k] == b[k]:
                k += 1
            joined_by = a[k][0] if k < min(len(a), len(b)) else "and"
            deeper = [x[0] for x in a[k + 1:]] + [x[0] for x in b[k + 1:]]
            if joined_by == "and":
                if "or" in deeper:
                    return False        # inside a disjunction and outside it
            elif "or" in deeper:
                if any(x[0] == "and" for x in a[:k]):
                    verdict = None      # inside the inner disjunction, outside it in the outer one
    return verdict


def trees():
    """Trees of leaves with all ways to share secrets, up to four leaves."""
    out = []
    shapes = ["o(LL)", "a(LL)", "a(o(LL)L)", "a(Lo(LL))", "o(a(LL)L)", "o(La(LL))", "a(a(LL)L)", "a(o(LL)o(LL))", "o(a(LL)a(LL))",
              "o(o(LL)L)", "a(a(o(LL)L)L)", "a(o(a(LL)L)L)", "o(a(o(LL)L)L)", "a(La(Lo(LL)))", "o(La(o(LL)L))", "a(LLo(LL))", "a(Lo(LL)L)",
              "o(LLa(LL))", "a(o(LLL)L)"]
    pats = {2: ["xx", "xy"], 3: ["xxx", "xxy", "xyx", "xyy", "xyz"],
            4: ["xyzw", "xxyz", "xyxz", "xyzx", "xyyz", "xyzy", "xyzz", "xxyy", "xyxy", "xyyx", "xxxy", "xxyx", "xyxx", "yxxx", "xxxx"]}
    for s in shapes:
        for p in pats[s.count("L")]:
            it = iter(p)

            def parse(i):
                if s[i] == "L":
                    return dl(next(it)), i + 1
                kind = {"a": "and", "o": "or"}[s[i]]
                i += 2
                kids = []
                while s[i] != ")":
                    k, i = parse(i)
                    kids.append(k)
                return (kind,) + tuple(kids), i + 1
            out.append(parse(0)[0])
    return out


MORE = [
    ("and", ("ne", "x", True), dl("x")), ("and", ("or", ("ne", "x", True), dl("y")), dl("x")),
    ("and", ("or", ("ne", "x", False), dl("y")), dl("x")), ("and", ("ne", "x", True), ("or", dl("x"), dl("y"))),
    ("and", ("or", ("ne", "x", True), dl("y")), ("ne", "x", True)), ("and", ("or", ("ne", "x", True), dl("x")), dl("y")),
    ("and", ("ext", dl("x")), ("or", dl("x"), dl("y"))), ("and", dl("x"), ("ext", ("or", dl("x"), dl("y")))),
    ("and", ("ext", ("or", dl("x"), dl("y"))), dl("z")), ("ext", ("and", ("or", dl("x"), dl("y")), dl("x"))),
    ("or", ("ext", ("and", ("or", dl("x"), dl("y")), dl("x"))), dl("w")), ("and", ("ext", dl("x")), ("ext", ("or", dl("x"), dl("y")))),
    ("and", ("ext", ("and", ("or", dl("x"), dl("y")), dl("z"))), dl("y")), ("ext", ("and", ("or", dl("x"), dl("y")), dl("z"))),
    ("and", ("or", ("ext", dl("x")), dl("y")), dl("x")), ("and", ("or", ("ext", dl("x")), dl("y")), dl("z")),
    ("and", ("or", ("and", dl("x y"), dl("x")), dl("z")), dl("w x")), ("and", ("or", dl("x x"), dl("y x")), dl("z")),
    ("and", ("or", dl("x y"), dl("z")), dl("w y")), ("and", ("bbs", 1, True), ("or", ("dl#g1", "t.0_m0"), ("dl#g1", "y"))),
    ("and", ("or", ("bbs", 1, True), ("dl#g1", "y")), ("dl#g1", "t.0.0_m0")),
    ("and", ("bbs", 1, True), ("or", ("dl#g1", "z"), ("dl#g1", "y"))),
    ("and", ("range", 0, 2, "x", 1), ("or", dl("y"), dl("z"))), ("and", ("range", 0, 2, "x", 1), ("or", dl("x"), dl("z"))),
    ("and", ("or", ("range", 0, 2, "x", 1), dl("z")), dl("r_x")),
    ("and",) + tuple(dl("x%d" % i) for i in range(6)) + (("or", dl("x5"), dl("y")),),
    ("and", ("and", ("and", ("or", dl("x"), dl("y")), dl("z")), dl("w")), dl("y")),
    ("or", ("or", ("and", ("or", dl("x"), dl("y")), dl("y")), dl("z")), dl("w")),
]


def real_trees(specs):
    return [s for s in specs if is_legal(s) is not None]


def decide(env, spec):
    legal = is_legal(spec)
    inst = Inst(env, spec)
    # -- provers, whichever part they know
    S, _ = make_secrets(env, inst, True)
    how, n = env.outcome(lambda: inst.stmt(S, True).prove())
    env.check((how == "ok") == legal, "a prover %s the composition" % ("accepts" if legal else "refuses"), (spec, how, n))
    S, _ = make_secrets(env, inst, True)
    how2, pr = env.outcome(lambda: inst.stmt(S, True).get_prover())
    if how2 == "ok":
        how2, _ = env.outcome(lambda: (pr.precommit(), pr.commit()))
    env.check((how2 == "ok") == legal, "an interactive prover %s the composition" % ("accepts" if legal else "refuses"), spec)
    # -- verifiers: a proof in which everything else is right
    V, _ = make_secrets(env, inst, False)
    v = inst.stmt(V)
    pre = inst.model_pre(scalars(env, "w"))
    ve = v.get_verifier()
    ve.process_precommitment(pre)
    node = inst.expand(pre)
    w = inst.witness()
    f = Forger(env, node, lambda path, leaf: [w[l] for l in leaf.labels])
    nz = f.nizk(v, pre)
    W, _ = make_secrets(env, inst, False)
    v2 = inst.stmt(W)
    if legal:
        env.check_accept("a verifier accepts the composition", v2.verify, nz)
    else:
        env.check_raises("a verifier refuses the composition", v2.verify, nz)
    # interactive
    f = Forger(env, node, lambda path, leaf: [w[l] for l in leaf.labels])
    com = f.commit()

    def run():
        c = ve.send_challenge((v.prehash_statement().digest(), com))
        return ve.verify(f.respond(c))
    if legal:
        env.check_accept("an interactive verifier accepts the composition", run)
    else:
        env.check_raises("an interactive verifier refuses the composition", run)


@scenario("C11", cases=[dict(spec=s) for s in real_trees(trees())], seeds=1)
def all_small_trees(env, spec):
    decide(env, spec)


@scenario("C11", cases=[dict(spec=s) for s in real_trees(MORE)], seeds=2)
def other_compositions(env, spec):
    decide(env, spec)


# -- orders of groups

def two_groups(kind, a, b, shared):
    la, lb = ("x", "x") if shared else ("x", "y")
    p, q = (a, la), (b, lb)
    return {"and": ("and", p, q), "or": ("or", p, q), "and3": ("and", p, dl("z"), q), "nested": ("and", ("and", p, dl("z")), q),
            "deep": ("and", ("or", ("and", p, q), dl("z")), dl("w")), "orand": ("or", ("and", p, q), dl("z")),
            "or3": ("or", dl("z"), p, q), "ext": ("ext", ("and", p, q)), "extand": ("and", ("ext", p), q),
            "orext": ("or", ("ext", p), q), "aba": ("and", p, q, p), "abab": ("and", p, q, p, q), "abba": ("and", p, q, ("and", q, p)),
            "oraba": ("or", p, q, p), "aab": ("and", p, p, q), "baa": ("and", q, p, p), "azba": ("and", p, ("dl", "z"), q, p),
            "or_aba": ("or", ("and", p, q, p), dl("w")), "inor": ("or", ("and", p, p), ("and", q, p))}[kind]


@scenario("C11", cases=[dict(kind=k, a=a, b=b, shared=s) for k in ("and", "or", "and3", "nested", "deep", "orand", "or3", "ext", "extand", "orext",
                                                                  "aba", "abab", "abba", "oraba", "aab", "baa", "azba", "or_aba", "inor")
                        for a, b, s in [("dl", "dl@415", True), ("dl@415", "dl", True), ("dl", "dl@415", False)]]
          + [dict(kind=k, a=a, b=b, shared=True) for k in ("and", "or") for a, b in
             [("dl#g1", "dl#g2"), ("dl#gt", "dl#g1"), ("dl#g1", "dl@415"), ("dl", "dl#gt")]]
          + [dict(kind=k, a=a, b=b, shared=s) for k in ("and", "or", "deep") for a, b, s in
             [("dl@415", "dl@714", True), ("dl@714", "dl@415", True), ("dl@714", "dl@415", False), ("dl", "dl@714", True)]], seeds=2)
def group_orders(env, kind, a, b, shared):
    spec = two_groups(kind, a, b, shared)
    same = a == b or ("#" in a and "#" in b)
    legal = same or not shared
    inst = Inst(env, spec, {l: env.num("v_" + l, 0, 1 << 200) for l in "xyzw"})
    S, _ = make_secrets(env, inst, True)
    how, n = env.outcome(lambda: inst.stmt(S, True).prove())
    env.check((how == "ok") == legal, "a prover %s the groups" % ("accepts" if legal else "refuses"), (spec, how, n))
    V, _ = make_secrets(env, inst, False)
    v = inst.stmt(V)
    pre = inst.model_pre(scalars(env, "w"))
    v.get_verifier().process_precommitment(pre)
    node = inst.expand(pre)
    w = inst.witness()
    f = Forger(env, node, lambda path, leaf: [w[l] for l in leaf.labels], consistent=not shared or same)
    nz = f.nizk(v, pre)
    W, _ = make_secrets(env, inst, False)
    if legal:
        env.check_accept("a verifier accepts the groups", inst.stmt(W).verify, nz)
    else:
        env.check_raises("a verifier refuses the groups", inst.stmt(W).verify, nz)


@scenario("C11", cases=[dict(k=k, at=at, a=a, b=b) for k in (2, 3, 4) for at in range(k) for a, b in
                        [(None, 415), (415, None), ("G1", "G2"), ("G1", "GT"), ("GT", "G2"), ("G1", None), (None, "GT")]
                        if k < 4 or a is None], seeds=1)
def mixed_expressions(env, k, at, a, b):
    """One base of another group, at any place of an expression."""
    z = env.z
    bp = env.shared("bp", lambda: env.m("pairings").BilinearGroupPair())
    grp = lambda x: getattr(bp, x) if isinstance(x, str) else env.group(x)
    G, H = env.gens(k, grp(a)), env.gens(k, grp(b))
    bases = list(G)
    bases[at] = H[at]
    S = [z.Secret(value=env.sc("x%d" % i, grp(a).order())) for i in range(k)]
    e = env.m("expr").wsum_secrets(S, bases)
    for lhs in (G[0], H[0]):
        env.check_raises("an expression of different groups is refused", z.DLRep, lhs, e)
    ok = z.DLRep(G[0], env.m("expr").wsum_secrets(S, G))
    env.check(list(ok.bases) == list(G), "an expression of one group is accepted")
    env.check_raises("anything but an expression is refused", z.DLRep, G[0], S[0])
    env.check_raises("anything but an expression is refused", z.DLRep, G[0], G[1])


@scenario("C11", cases=[dict(k=k) for k in (0, 1)], seeds=1)
def too_few_parts(env, k):
    inst = Inst(env, dl("x"))
    s = inst.stmt(make_secrets(env, inst, True)[0])
    comp = env.m("composition")
    for cls in (comp.AndProofStmt, comp.OrProofStmt):
        env.check_raises("a composition has at least two parts", cls, *([s] * k))


@scenario("C11", cases=[dict(spec=s, mark=m) for s in [
    ("or", ("and", ("or", dl("x"), dl("y")), dl("x")), dl("w")), ("or", dl("w"), ("and", ("or", dl("x"), dl("y")), dl("x"))),
    ("or", dl("w"), ("and", ("and", ("or", dl("x"), dl("y")), dl("z")), dl("x"))),
    ("and", ("or", dl("w"), ("and", ("or", dl("x"), dl("y")), dl("x"))), dl("u")),
    ("or", dl("w"), ("ext", ("and", ("or", dl("x"), dl("y")), dl("x")))),
    ("or", dl("w"), ("or", dl("u"), ("and", ("or", dl("x"), dl("y")), dl("x")))),
    ("or", dl("w"), ("and", ("ne", "x", True), ("or", dl("x"), dl("y"))))] for m in (False, True)], seeds=2)
def unsound_part_is_simulated(env, spec, mark):
    """An unsound conjunction is refused also if the prover would only simulate it."""
    inst = Inst(env, spec)
    S = {}
    for l in inst.secret_labels():
        S[l] = env.z.Secret(value=inst.vals[l]) if l in "wu" else S.get(l) or env.z.Secret()
    how, n = env.outcome(lambda: inst.stmt(S, mark).prove())
    env.check(how == "raise", "a prover refuses the composition")
    s = inst.stmt(S, mark)
    if mark and spec[0] == "or":
        s.subproofs[1].set_simulated()
    how, n = env.outcome(s.prove)
    env.check(how == "raise", "a prover refuses the composition")


@scenario("C11", cases=[dict(kind=k, first=f) for k in ("and", "or", "nested") for f in (True, False)], seeds=2)
def depends_on_precommitment(env, kind, first):
    """A statement object that was used for a sound composition is still checked when its extended part expands
    into an unsound one."""
    z, ext, comp = env.z, env.m("extended"), env.m("composition")
    g, P, Q = env.gens(3, env.group(), "dep")
    val = env.sc("x", env.group().order())

    def make(given):
        X, Y, W = (z.Secret(value=val if given else None) for _ in range(3))
        dlr = lambda s: z.DLRep(val * g, s * g)

        class Which(ext.ExtendedProofStmt):
            def precommit(self):
                return P

            def simulate_precommit(self):
                return P

            def construct_stmt(self, pre):
                return dlr(W if pre == P else X)
        inner = comp.OrProofStmt(dlr(X), dlr(Y))
        parts = [Which(), inner] if first else [inner, Which()]
        st = comp.AndProofStmt(*parts)
        if kind == "or":
            st = comp.OrProofStmt(dlr(z.Secret(value=val if given else None)), st)
        if kind == "nested":
            st = comp.AndProofStmt(st, dlr(z.Secret(value=val if given else None)))
        return st, (0 if first else 1)
    p, at = make(True)
    v, _ = make(False)
    how, nizk = env.outcome(p.prove, {}, "m")
    env.check(how == "ok", "the sound one is proven", nizk if how != "ok" else None)
    env.check_accept("the sound one is accepted", v.verify, nizk, message="m")

    def put(pre):
        if kind == "and":
            return [Q if i == at else x for i, x in enumerate(pre)]
        i = 1 if kind == "or" else 0
        return [[Q if k == at else y for k, y in enumerate(x)] if j == i else x for j, x in enumerate(pre)]
    pre = put(nizk.precommitment)
    ve = v.get_verifier()
    ve.process_precommitment(pre)
    env.check_raises("the unsound one is refused", v.validate_composition)
    n2 = env.m("base").NIZK(challenge=nizk.challenge, responses=nizk.responses, precommitment=pre, stmt_hash=v.prehash_statement().digest())
    how, ok = env.outcome(v.verify, n2, "m")
    env.check(how == "raise", "and so is a proof of it")
