"""C09, C10: what provers reveal."""
from .registry import scenario
from .model import *
from .common import *
from . import shapes as SH

HIDE = SH.PLAIN + SH.OTHER + SH.NE + SH.P2[:4] + SH.RANGE[1:4] + SH.RANGE[6:] + SH.BBS + SH.EXT


def blinders(env, inst, pre, since, w):
    """Explain the precommitment by draws; fills the internal witness.  Returns {label: draw index}.
    Disjuncts that are simulated are left unexplained."""
    used = {}
    dr = env.draws()

    def find(pred, q):
        for i in range(since, len(dr)):
            v, n, how = dr[i]
            if how != "insecure" and env.known(n == q) and i not in used.values() and env.known(pred(v)):
                return i
        return None

    def go(inst, pre):
        q = inst.q
        I = lambda s: "%s:%s" % (inst.path, s)
        if inst.kind in ("and", "or"):
            for k, p in zip(inst.kids, pre if pre is not None else [None] * len(inst.kids)):
                go(k, p)
        elif inst.kind == "ne" and not inst.false:
            base = w[inst.label] * inst.h1 - inst.H1
            i = find(lambda v: pre == v * base, q)
            if i is not None:
                b = dr[i][0]
                used[I("blinder")] = i
                w[I("a")], w[I("b")] = (w[inst.label] * b) % q, (-b) % q
        elif inst.kind == "p2":
            bits(inst, pre, inst.value, inst.n, "")
        elif inst.kind == "range":
            off = (1 << inst.nbits) - (inst.b - inst.a)
            v = inst.vals[inst.label] - env.bn(inst.a)
            bits(inst, pre[1], v, inst.nbits, "lo")
            bits(inst, pre[2], v + env.bn(off), inst.nbits, "hi")
        elif inst.kind == "bbs":
            g = inst.gens
            i = find(lambda v: pre["A2"] == v * g[2] + inst.A, q)
            if i is not None:
                r1 = dr[i][0]
                used[I("r1")] = i
                j = find(lambda v: pre["A1"] == r1 * g[1] + v * g[2], q)
                if j is not None:
                    used[I("r2")] = j
                    r2, e = dr[j][0], w[inst.le]
                    w.update({I("r1"): r1, I("r2"): r2, I("d1"): (r1 * e) % q, I("d2"): (r2 * e) % q,
                              I("e"): e, I("s"): w[inst.ls]})
        elif inst.kind == "ext" and inst.form != "ext0":
            find_ = find(lambda v: pre == v * inst.prepoint, q)
            if find_ is not None:
                used[I("user")] = find_

    def bits(inst, pre, value, n, tag):
        v = int(env.plain(value))
        for k in range(n):
            b = (v >> k) & 1
            i = find(lambda r: pre["Cs"][k] == b * inst.g + r * inst.h, inst.q)
            if i is None:
                continue
            used["%s:%sr%d" % (inst.path, tag, k)] = i
            w["%s:%sr%d" % (inst.path, tag, k)] = dr[i][0]
    go(inst, pre)
    return used


def explain(env, inst, node, pre, com, c, resp, since):
    """Every response is either a fresh draw (simulated disjunct) or k + c x with k a fresh draw, each draw serves
    one secret; all subchallenges but one in each disjunction are fresh draws."""
    w = dict(inst.witness())
    used = blinders(env, inst, pre, since, w)
    taken = {i: l for l, i in used.items()}
    M = env.Bn(2).pow(128)
    dr = env.draws()

    def fresh(k, q):
        return [i for i in find_draw(env, k, q) if i >= since]

    ats = walk(node, c, resp)
    simulated = set()
    for n, ch, subs, path in ors(node, c, resp):
        free = []
        for i, s in enumerate(subs):
            env.check(env.all([s >= 0, s < M]), "subchallenges are in range", path)
            ks = [k for k in fresh(s, M) if k not in taken]
            if ks:
                free.append(i)
                taken[ks[0]] = (path, i)
        env.check(len(free) >= len(subs) - 1, "all subchallenges but one are fresh uniform numbers", path)
        simulated |= {(path, i) for i in free}
    done = {}
    for a in ats:
        q = a.leaf.group.order()
        sim = any(s in simulated for s in a.scope)
        for j, (l, r) in enumerate(zip(a.leaf.labels, a.resp)):
            env.check(env.all([r >= 0, r < q]), "responses are reduced", a.path)
            key = (a.scope, l)
            if sim:
                ks = fresh(r, q)
            else:
                x = w.get(l)
                env.check(x is not None, "the blinding of the precommitment is a fresh uniform number", (a.path, l))
                if x is None:
                    return None
                k = (r - a.c * x) % q
                ks = fresh(k, q)
            env.check(bool(ks), "the response is %s" % ("a fresh uniform number" if sim else
                      "k + c x with k fresh and uniform over the group order"), (a.path, l))
            if key in done:
                env.check(done[key] in ks, "equal secrets have equal randomness", (a.path, l))
            else:
                ks = [i for i in ks if i not in taken]
                env.check(bool(ks), "a randomizer serves one secret", (a.path, l))
                done[key] = ks[0]
                taken[ks[0]] = key
        if not sim:
            t = a.leaf.group.infinite()
            for l, b in zip(a.leaf.labels, a.leaf.bases):
                t = t + dr[done[(a.scope, l)]][0] * b
            env.check(com_at(com, a.path) == t, "the commitment is that of the randomizers", a.path)
    return taken


def com_at(com, path):
    for i in path.split(".")[1:]:
        com = com[int(i)]
    return com


def no_insecure(env):
    env.check(not any(how == "insecure" for _, _, how in env.draws()), "no insecure randomness")
    env.check(not any(e[1] == "insecure" for e in env.choices()), "no insecure choice")


@scenario("C10", "C09", cases=[dict(spec=s) for s in HIDE + SH.BIG[10:]], con=[dict(spec=s) for s in SH.BIG], seeds=2)
def interactive_masking(env, spec):
    inst, p, v, d = honest(env, spec)
    since = len(env.draws())
    pr, ve = p.get_prover(), v.get_verifier()
    pre = pr.precommit()
    ve.process_precommitment(pre)
    com = pr.commit()[1]
    mid = len(env.draws())
    c = env.num("c", 0, 1 << 128)
    r = pr.compute_response(c)
    env.check(len(env.draws()) == mid, "the randomness is fixed before the challenge")
    explain(env, inst, inst.expand(pre), pre, com, c, r, since)
    no_insecure(env)


@scenario("C10", "C09", cases=[dict(spec=s) for s in HIDE], con=[dict(spec=s) for s in SH.BIG], seeds=2)
def nizk_masking(env, spec):
    """Two proofs of one statement object; each is masked by draws of its own."""
    inst, p, v, d = honest(env, spec)
    for k in range(2):
        since = len(env.draws())
        n = prove(env, p, message="m")
        node = inst.expand(n.precommitment)
        com = commitment_tree(node, n.challenge, n.responses)
        explain(env, inst, node, n.precommitment, com, n.challenge, n.responses, since)
    no_insecure(env)


@scenario("C10", cases=[dict(spec=s) for s in [SH.PLAIN[3], SH.PLAIN[5], SH.PLAIN[9], SH.NE[1], SH.BBS[0], SH.EXT[3],
                                              SH.PLAIN[12]]], seeds=2)
def runs_share_nothing(env, spec):
    """Provers of one statement, also interleaved, and other statements of the same secrets."""
    inst = Inst(env, spec)
    S, _ = make_secrets(env, inst, True)
    p1, p2 = inst.stmt(S, True), inst.stmt(S, True)
    runs = [p1.get_prover(), p2.get_prover(), p1.get_prover()]
    state = []
    for pr in runs[:2]:
        since = len(env.draws())
        pre = pr.precommit()
        state.append((pr, pre, pr.commit()[1], since))
    out = []
    for i, (pr, pre, com, since) in enumerate(state):
        c = env.num("c%d" % i, 0, 1 << 128)
        out.append((pre, com, c, pr.compute_response(c)))
    since = len(env.draws())
    pre = runs[2].precommit()
    com = runs[2].commit()[1]
    c = env.num("c2", 0, 1 << 128)
    out.append((pre, com, c, runs[2].compute_response(c)))
    seen = {}
    for k, (pre, com, c, r) in enumerate(out):
        t = explain(env, inst, inst.expand(pre), pre, com, c, r, 0)
        for i in t or {}:
            env.check(i not in seen or spec[0] == "or" and seen[i] == 0, "no randomness is shared", (k, seen.get(i)))
            seen[i] = k


@scenario("C10", cases=[dict(spec=s) for s in [SH.PLAIN[3], SH.PLAIN[5], SH.NE[1], SH.EXT[3]]], seeds=2)
def commit_twice(env, spec):
    """A prover that commits again uses new randomness."""
    inst, p, v, d = honest(env, spec)
    pr = p.get_prover()
    pre = pr.precommit()
    com1 = pr.commit()[1]
    since = len(env.draws())
    com2 = pr.commit()[1]
    c = env.num("c", 0, 1 << 128)
    r = pr.compute_response(c)
    w = dict(inst.witness())
    blinders(env, inst, pre, 0, w)
    for a in walk(inst.expand(pre), c, r):
        for l, x in zip(a.leaf.labels, a.resp):
            q = a.leaf.group.order()
            ks = find_draw(env, (x - c * w[l]) % q, q)
            env.check(any(k >= since for k in ks), "the second commitment has new randomness", (a.path, l))
    env.check(env.not_(env.same(com1, com2)), "the commitments differ")


def variants(spec):
    """The spec with each possible single true disjunct in each disjunction (others false)."""
    h = spec[0].rstrip("!")
    if h == "and":
        out = [()]
        for k in spec[1:]:
            out = [o + (v,) for o in out for v in variants(k)]
        return [("and",) + o for o in out]
    if h == "or":
        out = []
        for i in range(1, len(spec)):
            kids = [falsified(k) for k in spec[1:]]
            for v in variants(spec[i]):
                kk = list(kids)
                kk[i - 1] = v
                out.append(("or",) + tuple(kk))
        return out
    return [(h,) + spec[1:]]


def falsified(spec):
    if spec[0].rstrip("!") in ("and", "or", "ext", "ext0"):
        return (spec[0],) + tuple(falsified(k) for k in spec[1:])
    if spec[0].startswith(("dl", "ne")):
        return (spec[0].rstrip("!") + "!",) + spec[1:]
    return spec


FORM = [("or", SH.dl("x"), SH.dl("y")), ("or", SH.dl("x y"), SH.dl("z"), SH.dl("u v w")),
        ("or", ("and", SH.dl("x"), SH.dl("y")), SH.dl("z")), ("or", ("or", SH.dl("x"), SH.dl("y")), SH.dl("z")),
        ("and", ("or", SH.dl("x"), SH.dl("y")), SH.dl("z")), ("or", ("ne", "x", True), SH.dl("y")),
        ("or", ("ne", "x", False), ("ne", "y", True)), ("or", ("ext", SH.dl("x")), SH.dl("y")),
        ("or", ("and", ("ne", "x", True), SH.dl("z")), SH.dl("y")), ("or", ("ext", ("or", SH.dl("x"), SH.dl("z"))), SH.dl("y")),
        ("or", ("dl#g1", "x"), ("dl#g1", "y")), ("or", ("dl#gt", "x"), ("dl#g2", "y")),
        ("or", SH.dl("x"), ("or", SH.dl("y"), ("and", SH.dl("z"), ("or", SH.dl("u"), SH.dl("v")))))]


def form_without_group(env, x):
    return env.form_of(x)


def reduced_numbers(env, inst, pre, c, resp):
    """All numbers of a transcript are reduced, so that their size tells nothing."""
    def go(inst, pre):
        if inst.kind in ("and", "or"):
            for k, p in zip(inst.kids, pre if pre is not None else [None] * len(inst.kids)):
                go(k, p)
        elif inst.kind == "range":
            for p in pre[1:]:
                env.check(env.all([0 <= p["rand"], p["rand"] < inst.q]), "the numbers of the precommitment are reduced")
        elif inst.kind == "p2":
            env.check(env.all([0 <= pre["rand"], pre["rand"] < inst.q]), "the numbers of the precommitment are reduced")
    go(inst, pre)
    node = inst.expand(pre)
    M = env.Bn(2).pow(128)
    for a in walk(node, c, resp):
        for r in a.resp:
            env.check(env.all([0 <= r, r < a.leaf.group.order()]), "the responses are reduced")
    for _, _, subs, _ in ors(node, c, resp):
        for s in subs:
            env.check(env.all([0 <= s, s < M]), "the subchallenges are reduced")


@scenario("C09", "C10", cases=[dict(spec=s) for s in SH.PLAIN[:6] + SH.OTHER[:2] + SH.NE[:2] + SH.P2 + SH.RANGE[:3] + SH.BBS[:2] + SH.EXT[:2] + [
          ("or", ("range", 0, 3, "x", 1), ("range", 0, 3, "y", 2)), ("or", ("p2", 2, "x", 3), SH.dl("y"))]], seeds=3)
def numbers_are_reduced(env, spec):
    """In proofs, interactive runs and simulations alike."""
    inst, p, v, d = honest(env, spec)
    n = prove(env, p)
    reduced_numbers(env, inst, n.precommitment, n.challenge, n.responses)
    pre, com, c, r = run_interactive(env, p.get_prover(), v.get_verifier())
    reduced_numbers(env, inst, pre, c, r)
    V, _ = make_secrets(env, inst, False)
    s = inst.stmt(V)
    t = s.simulate()
    reduced_numbers(env, inst, t.precommitment, t.challenge, t.responses)
    c = env.num("c", 0, 1 << 128)
    t = s.simulate(challenge=c)
    reduced_numbers(env, inst, t.precommitment, c, t.responses)


@scenario("C09", cases=[dict(spec=s) for s in FORM], seeds=2)
def same_form_whoever_proves(env, spec):
    forms = []
    for k, v in enumerate(variants(spec)):
        vals = {}
        inst = Inst(env, v, vals, path="t")
        S, _ = make_secrets(env, inst, True)
        p = inst.stmt(S, True)
        n = prove(env, p)
        f = (env.form_of(n.challenge), env.form_of(n.responses), env.form_of(n.precommitment), env.form_of(n.stmt_hash))
        pr = p.get_prover()
        pre = pr.precommit()
        com = pr.commit()
        f += (env.form_of(pre), env.form_of(com), env.form_of(pr.compute_response(env.num("c%d" % k, 0, 1 << 128))))
        V, _ = make_secrets(env, inst, False)
        o = inst.stmt(V)
        t = o.simulate()
        forms.append(f)
        g = (f[0],) + (env.form_of(t.responses), env.form_of(t.precommitment)) + f[3:5] + (("tuple", f[3], env.form_of(t.commitment)),
                                                                                  env.form_of(t.responses))
        env.check(g[1] == f[1] and g[2] == f[2] and g[5] == f[5], "a simulation has the form of a proof", v)
    for f in forms[1:]:
        env.check(f == forms[0], "the form does not depend on the disjunct that is proven")


@scenario("C09", cases=[dict(spec=("or", ("range", 0, 3, "x", 1), ("range", 0, 3, "y", 2))),
                        dict(spec=("or", ("p2", 2, "x", 3), SH.dl("y"))),
                        dict(spec=("or", ("dl#g1", "z"), ("bbs", 1, True))),
                        dict(spec=("or", ("bbs", 1, False), ("bbs", 2, True)))], seeds=3)
def same_form_of_primitives(env, spec):
    """With values known for both disjuncts, one is marked as simulated."""
    forms = []
    for k in (0, 1):
        inst = Inst(env, spec)
        S, _ = make_secrets(env, inst, True)
        kids = [x.stmt(S, True) for x in inst.kids]
        kids[1 - k].set_simulated()
        p = env.m("composition").OrProofStmt(*kids)
        n = prove(env, p)
        node = inst.expand(n.precommitment)
        env.check(judge(env, node, commitment_tree(node, n.challenge, n.responses), n.challenge, n.responses,
                        inst.pre_valid(n.precommitment)), "the proof satisfies the specification")
        V, _ = make_secrets(env, inst, False)
        env.check_accept("accepted", inst.stmt(V).verify, n)
        reduced_numbers(env, inst, n.precommitment, n.challenge, n.responses)
        forms.append((env.form_of(n.challenge), env.form_of(n.responses), env.form_of(n.precommitment)))
    env.check(forms[0] == forms[1], "the form does not depend on the disjunct that is proven")


@scenario("C09", cases=[dict(n=n, known=k) for n, k in [(2, None), (3, None), (4, None), (3, (0, 2)), (4, (1, 2))]], seeds=1, sym=False)
def every_disjunct_is_picked(env, n, known):
    """Concretely: all provable disjuncts are proven in some of many proofs."""
    known = range(n) if known is None else known
    spec = SH.many(n, "or")
    inst = Inst(env, spec)
    picked = {}
    runs = 60
    for _ in range(runs):
        S = {l: env.z.Secret(value=inst.vals[l]) if i in known else env.z.Secret() for i, l in enumerate(inst.secret_labels())}
        p = inst.stmt(S)
        since = len(env.draws())
        nz = prove(env, p)
        subs = nz.responses[0]
        M = env.Bn(2).pow(128)
        real = [i for i, s in enumerate(subs) if not [k for k in find_draw(env, s, M) if k >= since]]
        env.check(len(real) == 1, "exactly one subchallenge is the residual one", real)
        picked[real[0]] = picked.get(real[0], 0) + 1
    env.check(set(picked) == set(known), "each provable disjunct is picked", picked)
    env.check(all(v * len(known) * 4 >= runs for v in picked.values()), "none is rare", picked)
    no_insecure(env)


@scenario("C09", cases=[dict(spec=s) for s in [("or", SH.dl("x"), SH.dl("y")), ("or", SH.dl("x"), SH.dl("y"), SH.dl("z")),
          ("or", ("or", SH.dl("x"), SH.dl("y")), SH.dl("z")), ("or", ("ne", "x", True), SH.dl("y"))]], seeds=3)
def choice_is_secure(env, spec):
    """The disjunct is picked with secure randomness from all provable ones; every pick is explored."""
    inst, p, v, d = honest(env, spec)
    n = prove(env, p)
    env.check(bool(env.choices()), "the disjunct is picked at random")
    no_insecure(env)
    env.check_accept("accepted", v.verify, n)
