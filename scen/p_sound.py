"""C03, C04, C05, C06: what a verifier accepts."""
from .registry import scenario
from .model import *
from .common import *
from . import shapes as SH

SOUND = SH.PLAIN + SH.OTHER + SH.NE[:6] + SH.P2[:3] + SH.RANGE[:3] + SH.BBS[:4] + SH.EXT + SH.BIG[10:]
STATE = [SH.PLAIN[3], SH.PLAIN[5], SH.PLAIN[7], SH.PLAIN[9], SH.PLAIN[12], SH.PLAIN[14], SH.PLAIN[16], SH.PLAIN[19],
         SH.OTHER[1], SH.OTHER[5], SH.NE[1], SH.NE[4], SH.P2[2], SH.RANGE[3], SH.BBS[1], SH.BBS[2], SH.EXT[1], SH.EXT[5]]


def props_of(*extra):
    return ("C03", "C04", "C05") + extra


@scenario("C03", "C04", "C05", "C12", "C14", "C16", "C21", cases=[dict(spec=s) for s in SOUND], seeds=1)
def any_interactive_transcript(env, spec):
    """Commitment, challenge and responses are arbitrary; the verdict is that of the specification."""
    inst, v = verifier_side(env, spec)
    pre = inst.model_pre(scalars(env))
    ve = v.get_verifier()
    ve.process_precommitment(pre)
    node = inst.expand(pre)
    com = arbitrary_commitment(env, node)
    c = env.num("c", 0, 1 << 128)
    resp = arbitrary(env, node, "r")
    env.force_draw(c)
    ve.send_challenge((v.prehash_statement().digest(), com))
    ok = env.accepts(ve.verify, resp)
    agree(env, "interactive", ok, judge(env, node, com, c, resp, inst.pre_valid(pre)))


def arbitrary_commitment(env, node, path="t"):
    if node.kind == "dl":
        return env.pt("T_" + path, node.leaf.group)
    return [arbitrary_commitment(env, k, "%s.%d" % (path, i)) for i, k in enumerate(node.kids)]


AGAIN = [SH.PLAIN[0], SH.PLAIN[2], SH.PLAIN[5], SH.PLAIN[8], SH.PLAIN[14], SH.NE[1], SH.EXT[0], SH.EXT[5], SH.EXT[7], SH.BBS[0]]


@scenario("C02", "C03", cases=[dict(spec=s, first=f) for s in AGAIN for f in ("accepted", "refused")], seeds=1)
def runs_are_judged_alone(env, spec, first):
    """A verifier that has accepted or refused a run judges the next, arbitrary one by its equations."""
    inst, p, v, d = honest(env, spec)
    pr, ve = p.get_prover(), v.get_verifier()
    pre, (h, com), c, r = run_interactive(env, pr, ve)
    if first == "accepted":
        env.check_accept("the first run is accepted", ve.verify, r)
    else:
        at = tree_paths(r)[0]
        env.accepts(ve.verify, tree_set(r, at, tree_get(r, at) + 1))
    node = inst.expand(pre)
    if env.choose(2, "the same commitment again"):
        com = arbitrary_commitment(env, node)
    c2 = env.num("c2", 0, 1 << 128)
    if env.choose(2, "the same responses again"):
        r = arbitrary(env, node, "r")
    env.force_draw(c2)
    ve.send_challenge((h, com))
    agree(env, "a further run", env.accepts(ve.verify, r), judge(env, node, com, c2, r, inst.pre_valid(pre)))


@scenario("C03", "C04", "C20", cases=[dict(kind=k, n=n, shared=sh) for k in ("and", "or", "nested", "ne") for n in (2, 3) for sh in ("none", "all", "ends")], seeds=10)
def parts_that_look_alike(env, kind, n, shared):
    """Parts with the same points, for the same secret or for others, are judged one by one."""
    z = env.z
    g, = env.gens(1, env.group(), "like")
    Y = env.pt("Y")
    s = [z.Secret() for _ in range(n)]
    if shared == "all":
        s = [s[0]] * n
    elif shared == "ends":
        s[-1] = s[0]
    Cm = env.m("composition")
    parts = [z.DLRep(Y, x * g) for x in s]
    st = (Cm.OrProofStmt if kind == "or" else Cm.AndProofStmt)(*parts)
    if kind == "nested":
        st = Cm.AndProofStmt(st, parts[0])
    elif kind == "ne":
        st = Cm.AndProofStmt(*[Cm.AndProofStmt(p, p) for p in parts])
    ve = st.get_verifier()
    leaves = list(range(n)) if kind in ("and", "or") else list(range(n)) + [0] if kind == "nested" else [i for i in range(n) for _ in range(2)]
    T = [env.pt("T%d" % i) for i in range(len(leaves))]
    R = [[env.num("r%d" % i)] for i in range(len(leaves))]
    if not env.symbolic:
        # transcripts that are right in all parts but perhaps one
        c = env.num("c", 0, 1 << 128)
        cs = [env.num("c%d" % i, 0, 1 << 128) for i in range(n)] if kind == "or" else [c] * len(leaves)
        for i in range(len(leaves)):
            j = [k for k in range(i) if s[leaves[k]] is s[leaves[i]]]
            if j and kind != "or":
                R[i] = R[j[0]]
            T[i] = R[i][0] * g - cs[i] * Y
        k = env.choose(len(leaves) + 1, "wrong")
        if k < len(leaves):
            if env.choose(2, "what"):
                R[k] = [R[k][0] + 1]
            else:
                T[k] = T[k] + g
        if kind == "or":
            cs[-1] = (c - sum(cs[:-1], env.Bn(0))) % env.Bn(2).pow(128)
            if k != n - 1:
                T[-1] = R[-1][0] * g - cs[-1] * Y
    else:
        c = env.num("c", 0, 1 << 128)
        cs = [env.num("c%d" % i, 0, 1 << 128) for i in range(n)] if kind == "or" else [c] * len(leaves)
    com, resp = T, R
    if kind == "or":
        resp = (cs, R)
    elif kind == "nested":
        com, resp = [T[:n], T[n]], [R[:n], R[n]]
    elif kind == "ne":
        com, resp = [T[i:i + 2] for i in range(0, 2 * n, 2)], [R[i:i + 2] for i in range(0, 2 * n, 2)]
    env.force_draw(c)
    ve.send_challenge((st.prehash_statement().digest(), com))
    conds = [R[i][0] * g - cs[i] * Y == T[i] for i in range(len(leaves))]
    if kind == "or":
        tot = env.Bn(0)
        for x in cs:
            tot = tot + x
        conds.append((tot - c) % env.Bn(2).pow(128) == 0)
    else:
        conds += [R[i][0] == R[j][0] for i in range(len(leaves)) for j in range(i) if s[leaves[i]] is s[leaves[j]]]
    agree(env, "equal looking parts", env.accepts(ve.verify, resp), env.all(conds))


@scenario("C03", "C06", cases=[dict(spec=s, first=f) for s in AGAIN for f in ("accepted", "refused")], seeds=1)
def proofs_are_judged_alone(env, spec, first):
    """The same for a statement object that verifies several proofs."""
    inst, p, v, d = honest(env, spec)
    n = prove(env, p, message="m")
    env.check_accept("the first proof is accepted", v.verify, n, message="m")
    if first == "refused":
        env.check(not env.accepts(v.verify, n, message="another"), "the proof is refused for another message")
    node = inst.expand(n.precommitment)
    com = arbitrary_commitment(env, node)
    inst2, v2 = inst, inst.stmt(make_secrets(env, inst, False)[0])
    v2.get_verifier().process_precommitment(n.precommitment)
    base = env.m("base")
    c = n.challenge
    how = env.choose(3, "challenge")
    if how == 1:
        c = base.build_fiat_shamir_challenge(v2.prehash_statement(), n.precommitment, com, message="m")
    elif how == 2:
        c = env.num("c2", 0, 1 << 128)
    same = env.choose(2, "the same responses again")
    r = n.responses if same else arbitrary(env, node, "r")
    ok = env.accepts(v.verify, base.NIZK(challenge=c, responses=r, precommitment=n.precommitment, stmt_hash=n.stmt_hash), message="m")
    if how == 1:
        agree(env, "a further proof", ok, judge(env, node, com, c, r, inst.pre_valid(n.precommitment)))
    elif ok:
        old = commitment_tree(node, n.challenge, n.responses)
        env.check(env.all([c == n.challenge, judge(env, node, old, c, r, inst.pre_valid(n.precommitment))]), "a further proof: what is accepted has the commitment of the first")


@scenario("C03", "C04", "C05", "C06", "C12", "C14", "C16", "C21", cases=[dict(spec=s) for s in SOUND], seeds=1)
def any_nizk(env, spec):
    """A dishonest prover picks the commitments, hashes them, and answers arbitrarily."""
    inst, v = verifier_side(env, spec)
    inst2, v2 = verifier_side(env, spec)
    pre = inst.model_pre(scalars(env))
    v2.get_verifier().process_precommitment(pre)
    node = inst.expand(pre)
    com = arbitrary_commitment(env, node)
    base = env.m("base")
    h = v2.prehash_statement()
    sh = h.digest()
    c = base.build_fiat_shamir_challenge(h, pre, com, message="msg")
    resp = arbitrary(env, node, "r")
    n = base.NIZK(challenge=c, responses=resp, precommitment=pre, stmt_hash=sh)
    ok = env.accepts(v.verify, n, message="msg")
    agree(env, "non-interactive", ok, judge(env, node, com, c, resp, inst.pre_valid(pre)))


@scenario("C04", "C03", cases=[dict(n=n, kind=k) for n in (3, 20, 34) for k in ("dl", "and", "mixed")], con=[dict(n=n, kind=k) for n in (65, 130, 260) for k in ("dl", "and", "mixed")], seeds=8)
def late_recurrence(env, n, kind):
    """A secret that recurs after many others has one response, too."""
    z, comp = env.z, env.m("composition")
    G = env.gens(n, env.group(), "late")
    Y = env.pt("Y")
    first = (0, n // 2)[env.choose(2, "first")]
    S = [z.Secret() for _ in range(n - 1)]
    S.append(S[first])
    r = [env.bn(i + 1) for i in range(n)]
    c = env.num("c", 0, 1 << 128)
    same = env.choose(2, "the same response")
    if same:
        r[-1] = r[first]
    if kind == "dl":
        st, resp = z.DLRep(Y, env.m("expr").wsum_secrets(S, G)), r
        com = -1 * (c * Y)
        for k, g in zip(r, G):
            com = com + k * g
    elif kind == "and":
        st, resp = comp.AndProofStmt(*[z.DLRep(Y, s * g) for s, g in zip(S, G)]), [[k] for k in r]
        com = [k * g - c * Y for k, g in zip(r, G)]
    else:
        st = comp.AndProofStmt(comp.AndProofStmt(*[z.DLRep(Y, s * g) for s, g in zip(S[:-1], G)]), z.DLRep(Y, S[-1] * G[-1]))
        com = [[k * g - c * Y for k, g in zip(r[:-1], G)], r[-1] * G[-1] - c * Y]
        resp = [[[k] for k in r[:-1]], [r[-1]]]
    ve = st.get_verifier()
    env.force_draw(c)
    ve.send_challenge((st.prehash_statement().digest(), com))
    if same:
        env.check_accept("equal responses are accepted", ve.verify, resp)
    else:
        env.check_reject("different responses for one secret are refused", ve.verify, resp)


@scenario("C05", "C03", cases=[dict(n=n) for n in (2, 9, 18)], con=[dict(n=n) for n in (33, 40, 66, 129)], seeds=1)
def sums_of_many_subchallenges(env, n):
    """The subchallenges of any number of disjuncts sum to the challenge."""
    z, comp = env.z, env.m("composition")
    g, = env.gens(1, env.group(), "many")
    Y = [env.pt("Y%d" % i) for i in range(n)]
    M = env.Bn(2).pow(128)
    st = comp.OrProofStmt(*[z.DLRep(y, z.Secret() * g) for y in Y])
    cs = [env.num("c%d" % i, 0, 1 << 128) for i in range(n)]
    r = [env.bn(i + 7) for i in range(n)]
    com = [k * g - c * y for k, c, y in zip(r, cs, Y)]
    tot = env.Bn(0)
    for c in cs:
        tot = tot + c
    for i, off in enumerate((0, 1, -1, 1 << 64, 1 << 127, cs[0], cs[-1], cs[n // 2])):
        c = (tot + (env.bn(off) if isinstance(off, int) else off)) % M
        ve = st.get_verifier()
        env.force_draw(c)
        ve.send_challenge((st.prehash_statement().digest(), com))
        ok = env.accepts(ve.verify, (list(cs), [[k] for k in r]))
        agree(env, "many subchallenges", ok, (tot - c) % M == 0)


def special_precommitments(env, inst):
    """Precommitments made of points that coincide with each other, with the neutral element or with points of
    the statement (range: they are made to combine correctly where that is possible)."""
    G = inst.group
    O = G.infinite()
    if inst.kind == "bbs":
        P, g = env.pt("P", G), inst.gens
        pts = [P, O] + list(g[:3]) + [inst.A, -1 * P]
        return [{"A1": x, "A2": y} for x in pts for y in pts if x is P or y is P or x is y or O in (x, y)]
    if inst.kind == "ne":
        P = env.pt("P", G)
        pts = [inst.h0, inst.H0, inst.h1, inst.H1]
        return [O, P] + pts + [-1 * x for x in pts] + [inst.h1 - inst.H1, inst.h0 - inst.h1]
    if inst.kind == "ext":
        P = env.pt("P", G)
        return [O, P, inst.prepoint, inst.kids[0].lhs if inst.kids[0].kind == "dl" else G.generator()]
    q, out = inst.q, []
    com, n = inst.com, inst.n
    for rand in (env.bn(0), env.bn(1), q - 1, env.sc("rand", q)):
        total = com + rand * inst.h
        if not env.symbolic:
            out.append({"Cs": [env.bn((1 << n) - 1).mod_inverse(q) * total] * n, "rand": rand})
        for fill in (O, inst.g, inst.h, com):
            rest = total
            for i in range(1, n):
                rest = rest - env.bn(1 << i) * fill
            out.append({"Cs": [rest] + [fill] * (n - 1), "rand": rand})
            out.append({"Cs": [fill] * n, "rand": rand})
    return out


@scenario("C03", "C12", "C14", "C16", "C21", cases=[dict(spec=s) for s in SH.NE[:4] + SH.P2[:4] + SH.BBS[:4] + SH.EXT[:3] if s[0] not in ("and", "or")], seeds=3)
def precommitments_of_special_points(env, spec):
    """Coinciding or neutral points in a precommitment are judged by the same equations."""
    inst = Inst(env, spec)
    pres = special_precommitments(env, inst)
    # one for each path, or all of them concretely
    ks = [env.choose(len(pres), "precommitment")] if env.symbolic else range(len(pres))
    for k in ks:
        pre, wrong = pres[k], (None, "response", "commitment")[env.choose(3, "wrong%d" % k)]
        v = inst.stmt(make_secrets(env, inst, False)[0])
        ve = v.get_verifier()
        node = inst.expand(pre)
        ok = inst.pre_valid(pre)
        c = env.num("c%d" % k, 0, 1 << 128)
        r = fit_ors(env, node, c, arbitrary(env, node, "r%d" % k, {}))
        com = commitment_tree(node, c, r)
        if wrong == "response":
            paths = tree_paths(r)
            at = paths[k % len(paths)]
            r = tree_set(r, at, tree_get(r, at) + 1)
        elif wrong:
            at = tree_paths(com) if isinstance(com, list) else [()]
            at = at[k % len(at)]
            com = tree_set(com, at, tree_get(com, at) + tree_get(com, at).group.generator())
        how, e = env.outcome(ve.process_precommitment, pre)
        if how != "ok":
            env.check(env.not_(ok), "a precommitment that combines correctly is processed", (k, repr(e)[:200]))
            continue
        env.force_draw(c)
        ve.send_challenge((v.prehash_statement().digest(), com))
        agree(env, "interactive", env.accepts(ve.verify, r), judge(env, node, com, c, r, ok))


@scenario("C05", "C03", cases=[dict(spec=s) for s in [SH.PLAIN[8], SH.PLAIN[11], SH.PLAIN[14], SH.PLAIN[16], SH.EXT[5]]],
          seeds=1)
def unbounded_subchallenges(env, spec):
    """Subchallenges of any size and sign."""
    inst, v = verifier_side(env, spec)
    pre = inst.model_pre(scalars(env))
    ve = v.get_verifier()
    ve.process_precommitment(pre)
    node = inst.expand(pre)
    com = arbitrary_commitment(env, node)
    c = env.num("c", 0, 1 << 128)
    k = [0]

    def arb(nd, path="t"):
        if nd.kind == "dl":
            return arbitrary(env, nd, "r", path=path)
        rs = [arb(x, "%s.%d" % (path, i)) for i, x in enumerate(nd.kids)]
        if nd.kind == "and":
            return rs
        return ([env.num("s_%s_%d" % (path, i)) for i in range(len(rs))], rs)
    resp = arb(node)
    env.force_draw(c)
    ve.send_challenge((v.prehash_statement().digest(), com))
    ok = env.accepts(ve.verify, resp)
    agree(env, "unbounded subchallenges", ok, judge(env, node, com, c, resp, inst.pre_valid(pre)))


# -- proofs of an honest prover, changed in one place

@scenario("C03", "C04", "C05", "C06", "C12", "C16", cases=[dict(spec=s, kind=k) for s in STATE
                                       for k in ("resp", "drop", "more", "chal", "com")], seeds=4)
def altered_transcript(env, spec, kind):
    inst, p, v, d = honest(env, spec)
    pr, ve = p.get_prover(), v.get_verifier()
    pre, (h, com), c, r = run_interactive(env, pr, ve)
    node = inst.expand(pre)
    pv = inst.pre_valid(pre)
    env.check(judge(env, node, com, c, r, pv), "an honest transcript satisfies the specification")
    if env.choose(2, "it has been verified before"):
        env.check_accept("the honest transcript is accepted", ve.verify, r)
    paths = tree_paths(r)
    at = paths[env.choose(len(paths), "place")]
    if kind == "resp":
        delta = env.sc("delta", env.group().order())
        r = tree_set(r, at, tree_get(r, at) + delta)
    elif kind == "drop":
        r = tree_cut(r, at)
    elif kind == "more":
        if not any(isinstance(x, tuple) for x in parents(r, at)) and "bbs" in repr(spec) or "#" in repr(spec):
            return               # pairing groups ignore trailing responses
        r = tree_cut(r, at, tree_get(r, at))
    elif kind == "chal":
        d_ = env.num("dc", 1, 1 << 128)
        c = (c + d_) % env.Bn(2).pow(128)
        env.force_draw(c)
        ve.send_challenge((h, com))
    else:
        cp = tree_paths(com) if isinstance(com, list) else [()]
        at = cp[env.choose(len(cp), "com")]
        old = tree_get(com, at)
        g = old.group
        com = tree_set(com, at, old + env.sc("delta", g.order()) * env.gens(1, g, "delta")[0])
        env.force_draw(c)
        ve.send_challenge((h, com))
    ok = env.accepts(ve.verify, r)
    agree(env, kind, ok, judge(env, node, com, c, r, pv))


def inner_places(node, com=(), resp=()):
    """(node, path in the commitment, path in the responses) of all and/or nodes."""
    if node.kind == "dl":
        return []
    out = [(node, com, resp)]
    for i, k in enumerate(node.kids):
        out += inner_places(k, com + (i,), resp + ((1, i) if node.kind == "or" else (i,)))
    return out


def restructured(node, com, resp, limit=None):
    """(what, commitment, responses) with parts removed, repeated, exchanged at inner nodes."""
    for nd, cp, rp in inner_places(node):
        n = len(nd.kids)
        C = list(tree_get(com, cp))
        R = tree_get(resp, rp)
        lists = [list(R)] if nd.kind == "and" else [list(R[0]), list(R[1])]

        def put(C2, Ls):
            R2 = Ls[0] if nd.kind == "and" else (Ls[0], Ls[1])
            return tree_set(com, cp, C2), tree_set(resp, rp, R2)

        def ops(l):
            yield "last cut", l[:-1]
            yield "first cut", l[1:]
            yield "empty", []
            yield "last repeated", l + l[-1:]
            yield "first repeated", l[:1] + l
            yield "exchanged", l[1:2] + l[:1] + l[2:]
            yield "reversed", l[::-1]
        every = [("com", C)] + [("part %d" % i, l) for i, l in enumerate(lists)]
        for name in dict(ops(C)):
            for mask in range(1, 1 << len(every)):
                new = [dict(ops(l))[name] if mask >> i & 1 else l for i, (_, l) in enumerate(every)]
                yield ("%s at %s in %s" % (name, rp, [w for i, (w, _) in enumerate(every) if mask >> i & 1]),) + put(new[0], new[1:])


def trim(node, resp):
    """Without parts beyond the last conjunct or disjunct (which verifiers may ignore)."""
    if node.kind == "dl":
        return resp
    if node.kind == "and":
        return [trim(k, r) for k, r in zip(node.kids, resp)]
    return (resp[0], [trim(k, r) for k, r in zip(node.kids, resp[1])])


TREES = [SH.PLAIN[4], SH.PLAIN[5], SH.PLAIN[7], SH.PLAIN[9], SH.PLAIN[11], SH.PLAIN[12], SH.PLAIN[14], SH.PLAIN[17], SH.OTHER[4], SH.NE[1], SH.NE[4],
         SH.P2[2], SH.BBS[0], SH.BBS[3], SH.EXT[1], SH.EXT[3]]


@scenario("C03", "C05", "C12", "C14", "C16", cases=[dict(spec=s, how=h) for s in TREES for h in ("interactive", "nizk")],
          con=[dict(spec=s, how=h) for s in SH.BIG[2:7] + [SH.RANGE[2]] for h in ("interactive", "nizk")], seeds=1)
def restructured_transcript(env, spec, how):
    """Transcripts with parts removed, repeated or exchanged, where the challenge is made for them."""
    inst, v = verifier_side(env, spec)
    pre = inst.model_pre(scalars(env))
    node = inst.expand(pre)
    f = Forger(env, node, lambda path, leaf: [inst.witness()[l] for l in leaf.labels], )
    com = f.commit()
    pv = inst.pre_valid(pre)
    base = env.m("base")
    probe = f.respond(env.bn(1))
    alts = list(restructured(node, com, probe))
    todo = [env.choose(len(alts), "change")] if env.symbolic else range(len(alts))
    for i in todo:
        what, com2, _ = alts[i]
        V, _ = make_secrets(env, inst, False)
        w = inst.stmt(V)
        if how == "interactive":
            ve = w.get_verifier()
            ve.process_precommitment(pre)
            c = env.num("c", 0, 1 << 128)
            env.force_draw(c)
            resp = list(restructured(node, com, f.respond(c)))[i][2]

            def run():
                ve.send_challenge((w.prehash_statement().digest(), com2))
                return ve.verify(resp)
            ok = env.accepts(run)
        else:
            w.get_verifier().process_precommitment(pre)
            h = w.prehash_statement()
            sh = h.digest()
            c = base.build_fiat_shamir_challenge(h, pre, com2, message="m")
            resp = list(restructured(node, com, f.respond(c)))[i][2]
            ok = env.accepts(w.verify, base.NIZK(challenge=c, responses=resp, precommitment=pre, stmt_hash=sh), message="m")
        if ok:
            env.check(judge(env, node, com2, c, trim(node, resp), pv), "what is accepted satisfies the verification equations and consistency", what)
        else:
            env.check(env.not_(judge(env, node, com2, c, resp, pv)), "what satisfies them is accepted", what)


def spec_order(env, spec):
    """The order of the groups of a spec (all of one kind)."""
    if "#" not in repr(spec) and "bbs" not in repr(spec):
        return env.group().order()
    return env.shared("bp", None).G1.order()


def parents(t, path):
    out = [t]
    for i in path[:-1]:
        t = t[i]
        out.append(t)
    return out


@scenario("C03", "C06", "C05", "C21", cases=[dict(spec=s, kind=k) for s in STATE
                                for k in ("resp", "chal", "drop", "hash", "pre", "message", "sub")], seeds=4)
def altered_nizk(env, spec, kind):
    """Every change of an accepted proof makes it rejected."""
    inst, p, v, d = honest(env, spec)
    n = prove(env, p, message="m")
    paths = tree_paths(n.responses)
    msg = "m"
    if env.choose(2, "the proof has been verified before"):
        env.check_accept("the honest proof is accepted", v.verify, n, message="m")
    if kind == "resp":
        at = paths[env.choose(len(paths), "place")]
        q = spec_order(env, spec)
        delta = env.sc("delta", q)
        env.assume(delta != 0)
        n = copy_nizk(env, n, responses=tree_set(n.responses, at, tree_get(n.responses, at) + delta))
    elif kind == "chal":
        dc = env.num("dc")
        env.assume(dc != 0)
        n = copy_nizk(env, n, challenge=n.challenge + dc)
    elif kind == "drop":
        at = paths[env.choose(len(paths), "place")]
        n = copy_nizk(env, n, responses=tree_cut(n.responses, at))
    elif kind == "hash":
        n = copy_nizk(env, n, stmt_hash=[None, b"", b"x" * 32, n.stmt_hash[:-1], "", n.stmt_hash + b"\0"][
            env.choose(6, "hash")])
    elif kind == "message":
        msg = ["", "m ", "M", "mm", "\u043c", "m\0", "None"][env.choose(7, "message")]
    elif kind == "pre":
        if n.precommitment is None:
            n = copy_nizk(env, n, precommitment=[[], [None], [None, None], ""][env.choose(4, "pre")])
        else:
            n = copy_nizk(env, n, precommitment=change_pre(env, n.precommitment))
    else:
        subs = [x for x in paths if len(x) >= 2 and x[-2] == 0 and isinstance(tree_get(n.responses, x[:-2]), tuple)]
        if not subs:
            return
        at = subs[env.choose(len(subs), "sub")]
        q = env.group().order()
        delta = [env.bn(1), env.bn(-1), env.bn(1 << 64), env.bn(1 << 127), env.bn(1 << 128), q, -q,
                 env.bn(1 << 128) * q, env.bn(-(1 << 128))][env.choose(9, "delta")]
        n = copy_nizk(env, n, responses=tree_set(n.responses, at, tree_get(n.responses, at) + delta))
    env.check_reject("a proof with another %s is rejected" % {"resp": "response", "chal": "challenge", "drop": "number of responses", "hash": "statement hash",
                     "pre": "precommitment", "message": "message", "sub": "subchallenge"}[kind], v.verify, n, message=msg)


@scenario("C06", "C03", cases=[dict(spec=s, how=h) for s in (SH.dl("x"), SH.dl("x y"), ("and", SH.dl("x"), SH.dl("y")), ("or", SH.dl("x"), SH.bad("y")),
                                                           SH.NE[1]) for h in ("add", "bit", "any", "drop")], seeds=4)
def chosen_challenge(env, spec, how):
    """A prover who answers a challenge of his own, that differs from the hash in any way."""
    inst = Inst(env, spec)
    v, w = [inst.stmt(make_secrets(env, inst, False)[0]) for _ in range(2)]
    pre = inst.model_pre(scalars(env, "w"))
    v.get_verifier().process_precommitment(pre)
    wit = inst.witness()
    f = Forger(env, inst.expand(pre), lambda path, leaf: [wit[l] for l in leaf.labels])
    n = f.nizk(v, pre, "m")
    env.check_accept("the honest proof is accepted", w.verify, n, message="m")
    c = n.challenge
    if how == "bit":
        if env.symbolic:
            return
        others = [env.bn(int(c) ^ (1 << k)) for k in range(128)]
    elif how == "drop":
        if env.symbolic:
            return
        others = [env.bn(x) for x in (int(c) >> 1, int(c) >> 8, int(c) % (1 << 64), int(c) % (1 << 120), int(c) >> 64, int(c) << 1) if x != int(c)]
    elif how == "any":
        others = [env.num("c2")]
        env.assume(env.not_(others[0] == c))
    else:
        others = [c + env.bn(d) for d in (1, -1, 256, 1 << 64, 1 << 127, 1 << 128, -(1 << 128))]
    for o in others:
        env.check_reject("a proof for another challenge than the hash is rejected", w.verify,
                         copy_nizk(env, n, challenge=o, responses=f.respond(o)), message="m")


@scenario("C03", cases=[dict(spec=s) for s in [SH.dl("x"), SH.dl("x y"), ("dl#g1", "x y"), ("dl#g2", "x"), ("dl#gt", "x y"), ("and", SH.dl("x"), SH.dl("x y")),
                                              ("or", SH.dl("x"), SH.bad("y")), ("and", SH.dl("z"), ("or", SH.bad("x"), SH.dl("y"))), ("ne", "x", True)]], seeds=3)
def nearly_right_commitment(env, spec):
    """Each point of the commitment replaced by one that nearly agrees with it."""
    inst, p, v, d = honest(env, spec)
    pr, ve = p.get_prover(), v.get_verifier()
    pre, (sh, com), c, r = run_interactive(env, pr, ve)
    env.check_accept("the honest run is accepted", ve.verify, r)

    def variants(x):
        if isinstance(x, (list, tuple)):
            for i, y in enumerate(x):
                for z in variants(y):
                    yield [z if i == j else w for j, w in enumerate(x)]
        else:
            yield from env.nears(x)
    for k, x in enumerate(variants(com)):
        env.force_draw(c)
        c2 = ve.send_challenge((sh, x))
        env.check_reject("a nearly right commitment", ve.verify, r)


def change_pre(env, pre):
    """Another precommitment of the same form."""
    leaves = []

    def find(x, path):
        if isinstance(x, dict):
            for k in sorted(x):
                find(x[k], path + [k])
        elif isinstance(x, (list, tuple)):
            for i, y in enumerate(x):
                find(y, path + [i])
        elif x is not None:
            leaves.append(path)

    def put(x, path):
        if not path:
            if env.isnum(x):
                return x + 1
            return x + env.gens(1, x.group, "delta")[0]
        if isinstance(x, dict):
            r = dict(x)
            r[path[0]] = put(x[path[0]], path[1:])
            return r
        return [put(y, path[1:]) if i == path[0] else y for i, y in enumerate(x)]
    find(pre, [])
    return put(pre, leaves[env.choose(len(leaves), "pre")])


@scenario("C03", cases=[dict(spec=s, what=w) for s in [SH.dl("x y"), SH.dl("x"), ("dl#g1", "x y"), ("dl#gt", "x"),
          ("and", SH.dl("x"), SH.dl("y")), ("or", SH.dl("x"), SH.bad("y"))] for w in ("lhs", "base", "swap")
          if w != "swap" or "x y" in repr(s)], seeds=3)
def another_statement(env, spec, what):
    """A proof is rejected for another left-hand side or base, even with the identity of that statement."""
    inst, p, v, d = honest(env, spec)
    other = Inst(env, spec, inst.vals)
    leaf = other
    while leaf.kids:
        leaf = leaf.kids[0]
    if what == "lhs":
        dlt = env.sc("delta", leaf.q)
        env.assume(dlt != 0)
        leaf.lhs = leaf.lhs + dlt * env.gens(1, leaf.group, "delta")[0]
    elif what == "base":
        leaf.bases[0] = leaf.bases[0] + env.gens(1, leaf.group, "delta")[0]
        env.assume(env.mod(leaf.val(leaf.labels[0]), leaf.q) != 0)
    else:
        if len(leaf.bases) < 2:
            return
        leaf.bases.reverse()
        env.assume(leaf.val(leaf.labels[0]) != leaf.val(leaf.labels[1]))
    V, _ = make_secrets(env, other, False)
    w = other.stmt(V)
    n = prove(env, p)
    env.check_reject("rejected", w.verify, n)
    env.check_reject("rejected with its identity", w.verify,
                     copy_nizk(env, n, stmt_hash=w.prehash_statement().digest()))
    pr, ve = p.get_prover(), w.get_verifier()
    ve.process_precommitment(pr.precommit())
    com = pr.commit()
    c = ve.send_challenge((w.prehash_statement().digest(), com[1]))
    node = other.expand(None)
    r = pr.compute_response(c)
    agree(env, "the interactive run", env.accepts(ve.verify, r), judge(env, node, com[1], c, r))


@scenario("C03", cases=[dict(spec=s) for s in SH.PLAIN[:8] + SH.OTHER[:4] + SH.NE[:2] + SH.BBS[:2]],
          seeds=3)
def special_soundness(env, spec):
    """Two accepted transcripts with one commitment determine a witness."""
    if spec[0] == "or":
        return
    inst, v = verifier_side(env, spec)
    pre = inst.model_pre(scalars(env))
    node = inst.expand(pre)
    f = Forger(env, node, lambda path, leaf: [inst.witness()[l] for l in leaf.labels])
    com = f.commit()
    cs = [env.num("c1", 0, 1 << 128), env.num("c2", 0, 1 << 128)]
    env.assume(cs[0] != cs[1])
    rs = []
    for c in cs:
        ve = v.get_verifier()
        ve.process_precommitment(pre)
        env.force_draw(c)
        ve.send_challenge((v.prehash_statement().digest(), com))
        r = f.respond(c)
        env.check_accept("the transcript is accepted", ve.verify, r)
        rs.append(r)
    for a, b in zip(walk(node, cs[0], rs[0]), walk(node, cs[1], rs[1])):
        l = l_ = a.leaf.group.infinite()
        for x, y, g in zip(a.resp, b.resp, a.leaf.bases):
            l = l + (x - y) * g
        env.check(l == (cs[0] - cs[1]) * a.leaf.lhs, "the difference of the responses opens the statement")


# -- C04

MERGE = [  # (spec with distinct labels, the two that are the same secret in the verified statement, joined?)
    (SH.dl("x y"), "x y", True), (SH.dl("x y z"), "x z", True),
    (SH.many(2), "x0 x1", True), (SH.many(3), "x0 x2", True), (("dl#g1", "x y"), "x y", True),
    (("and", SH.dl("x y"), SH.dl("u v")), "x v", True), (("and", SH.dl("x y"), SH.dl("u v")), "y u", True),
    (("and", ("and", SH.dl("x"), SH.dl("y")), SH.dl("z")), "y z", True),
    (("and", SH.dl("z"), ("and", SH.dl("x"), ("and", SH.dl("y"), SH.dl("w")))), "z w", True),
    (("and", ("and", SH.dl("x"), SH.dl("y")), ("and", SH.dl("u"), SH.dl("v"))), "x v", True),
    (("or", ("and", SH.dl("x"), SH.dl("y")), SH.bad("z")), "x y", True),
    (("or", SH.bad("z"), ("and", SH.dl("x"), SH.dl("y"))), "x y", True),
    (("or", SH.dl("x y"), SH.bad("z")), "x y", True), (("or", SH.bad("z"), SH.dl("x y")), "x y", True),
    (("and", ("or", SH.dl("x y"), SH.bad("z")), SH.dl("w")), "x y", True),
    (("and", ("ne", "x", True), SH.dl("y")), "x y", True), (("and", SH.dl("y"), ("ne", "x", True)), "x y", True),
    (("and", ("ne", "x", True), ("ne", "y", True)), "x y", True),
    (("and", ("ext", SH.dl("x")), SH.dl("y")), "x y", True), (("ext", ("and", SH.dl("x"), SH.dl("y"))), "x y", True),
    (("and", ("ext", SH.dl("x")), ("ext", SH.dl("y"))), "x y", True), (("ext", SH.dl("x y")), "x y", True),
    (("and", ("bbs", 1, True), ("dl#g1", "y")), "t.0_m0 y", True), (("bbs", 2, True), "t_m0 t_m1", True),
    (("bbs", 2, False), "t_m0 t_m1", True), (("and", ("bbs", 2, False), ("dl#g1", "y")), "t.0_m1 y", True),
    (("and", ("bbs", 1, True), ("dl#g1", "y")), "t.0_e y", True), (("and", ("bbs", 1, True), ("dl#g1", "y")), "t.0_s y", True),
    (("and", ("range", 0, 2, "x", 1), SH.dl("y")), "x y", True), (("and", SH.dl("y"), ("range", 0, 2, "x", 1)), "y r_x", True),
    (("or", SH.dl("x"), SH.dl("y")), "x y", False), (("or", SH.dl("x"), SH.bad("y")), "x y", False),
    (("or", SH.bad("x"), SH.dl("y")), "x y", False), (("or", ("and", SH.dl("x"), SH.dl("z")), SH.dl("y")), "z y", False),
    (("or", ("or", SH.dl("x"), SH.dl("y")), SH.dl("z")), "x z", False),
    (("or", ("ne", "x", True), SH.dl("y")), "x y", False), (("and", ("ne", "x", False), SH.dl("y")), "x y", False),
]


@scenario("C04", "C12", "C14", "C16", cases=[dict(spec=s, merge=m, joined=j) for s, m, j in MERGE], seeds=3)
def one_secret_one_response(env, spec, merge, joined):
    """Proofs in which all equations hold, but with other values for two occurrences."""
    a, b = merge.split()
    inst = Inst(env, spec)
    env.assume(env.mod(inst.val(a) - inst.val(b), spec_order(env, spec)) != 0)
    V, _ = make_secrets(env, inst, False)
    distinct = inst.stmt(V)
    W, _ = make_secrets(env, inst, False)
    W[b] = W[a]
    same = inst.stmt(W)
    pre = inst.model_pre(scalars(env))
    node = inst.expand(pre)
    w = inst.witness()

    def forge(stmt):
        ve = stmt.get_verifier()
        ve.process_precommitment(pre)
        f = Forger(env, node, lambda path, leaf: [w[l] for l in leaf.labels])
        return f.nizk(stmt, pre, "m")
    env.check_accept("different secrets do not constrain each other", distinct.verify, forge(distinct), message="m")
    n = forge(same)
    if joined:
        env.check_reject("different responses for one secret are rejected", same.verify, n, message="m")
    else:
        env.check_accept("occurrences in different disjuncts do not constrain each other", same.verify, n, message="m")
    # interactive
    f = Forger(env, node, lambda path, leaf: [w[l] for l in leaf.labels])
    com = f.commit()
    ve = same.get_verifier()
    ve.process_precommitment(pre)
    c = ve.send_challenge((same.prehash_statement().digest(), com))
    ok = env.accepts(ve.verify, f.respond(c))
    env.check(ok is (not joined), "the same holds interactively", ok)


@scenario("C04", cases=[dict(spec=s) for s in [SH.dl("x x"), ("and", SH.dl("x"), SH.dl("x")), SH.PLAIN[5], SH.PLAIN[7],
          SH.PLAIN[12], ("dl#g1", "x x"), SH.NE[2], SH.NE[3], SH.EXT[4], SH.BBS[5]]], seeds=3)
def responses_equal_modulo_order(env, spec):
    """Responses that differ by the order, or whose differences cancel, are different."""
    inst, p, v, d = honest(env, spec)
    n = prove(env, p)
    paths = tree_paths(n.responses)
    at = paths[env.choose(len(paths), "place")]
    node = inst.expand(n.precommitment)
    groups = {}
    for a in walk(node, n.challenge, n.responses):
        for l, r in zip(a.leaf.labels, a.resp):
            groups.setdefault((a.scope, l), []).append(r)
    q = inst.q
    m = copy_nizk(env, n, responses=tree_set(n.responses, at, tree_get(n.responses, at) + q))
    ats = walk(node, m.challenge, m.responses)
    ok = env.accepts(v.verify, m)
    if ok:
        env.check(consistent(env, ats), "responses that are not equal are rejected")


# -- C05

@scenario("C05", cases=[dict(spec=s) for s in SH.ORS] + [dict(spec=SH.many(k, "or")) for k in (4, 6)],
          con=[dict(spec=s, edge=e) for s in SH.ORS[:8] for e in (0, 1, (1 << 128) - 1, 1 << 127, 1 << 128, (1 << 256) - 1)],
          seeds=4)
def provers_subchallenges(env, spec, edge=None):
    inst, p, v, d = honest(env, spec)
    M = env.Bn(2).pow(128)
    pr = p.get_prover()
    pre = pr.precommit()
    com = pr.commit()
    c = env.num("c", 0, 1 << 256) if edge is None else env.bn(edge)
    r = pr.compute_response(c)
    node = inst.expand(pre)
    for nd, ch, subs, path in ors(node, c, r):
        env.check(len(subs) == len(nd.kids), "one subchallenge for each disjunct")
        tot = env.Bn(0)
        for s in subs:
            env.check(env.all([s >= 0, s < M]), "a subchallenge is in [0, 2^128)", s)
            tot = tot + s
        env.check((tot - ch) % M == 0, "the subchallenges add up to the challenge")


@scenario("C05", cases=[dict(k=k, how=h) for k in (2, 3, 5) for h in ("any", "extra", "extra0", "fewer", "crt", "shift", "none", "minus")],
          seeds=4)
def all_disjuncts_simulated(env, k, how):
    """With all subchallenges chosen in advance no proof is accepted."""
    inst, v = verifier_side(env, SH.many(k, "or", SH.bad))
    node = inst.expand(None)
    M = env.Bn(2).pow(128)
    q = inst.q
    c = [env.num("c%d" % i, 0, 1 << 128) for i in range(k)]
    rs = [arbitrary(env, nd, "r", path="t.%d" % i) for i, nd in enumerate(node.kids)]
    com = [commitment_tree(nd, ci, r) for nd, ci, r in zip(node.kids, c, rs)]
    h = v.prehash_statement()
    sh = h.digest()
    base = env.m("base")
    ch = base.build_fiat_shamir_challenge(h, None, com, message="")
    tot = env.Bn(0)
    for ci in c:
        tot = tot + ci
    rest = (ch - tot) % M
    env.assume(rest != 0)
    subs = list(c)
    if how in ("extra", "extra0"):
        subs.insert(0 if how == "extra0" else k, rest)
        if how == "extra0":
            rs = [rs[0]] + rs
    elif how == "fewer":
        subs = subs[:-1]
    elif how == "crt":
        if env.symbolic:
            t = env.num("t", 1)
            t = t if env.choose(2, "sign") else -t
            env.assume((t * q - rest) % M == 0)
        else:
            t = (rest * q.mod_inverse(M)) % M
        subs[0] = subs[0] + t * q
    elif how == "shift":
        subs[0] = subs[0] + M
    elif how == "minus":
        subs[0] = subs[0] - M
    elif how == "none":
        subs = []
    n = base.NIZK(challenge=ch, responses=(subs, rs), precommitment=None, stmt_hash=sh)
    env.check_reject("a proof with all disjuncts simulated is rejected", v.verify, n)


@scenario("C05", "C22", cases=[dict(k=k) for k in range(0, 5)], seeds=6)
def residual_challenge(env, k):
    """The last subchallenge for any others and any challenge, of any size."""
    comp = env.m("composition")
    if not hasattr(comp, "_find_residual_challenge"):
        return
    M = env.Bn(2).pow(128)
    subs = [env.num("s%d" % i, 0, 1 << 128) for i in range(k)]
    c = env.num("c", 0, 1 << 256)
    before = list(subs)
    how, r = env.outcome(comp._find_residual_challenge, subs, c, env.m("consts").CHALLENGE_LENGTH)
    if how == "raise":
        return
    env.check(env.same(before, subs), "the subchallenges are not changed")
    env.check(env.all([r >= 0, r < M]), "it is in range")
    tot = r
    for s in subs:
        tot = tot + s
    env.check((tot - c) % M == 0, "the sum is the challenge")


# -- C06

@scenario("C06", cases=[dict(spec=s, odd=o) for s in (SH.dl("x"), SH.PLAIN[9]) for o in ("\ud800", "\udfff", "a\ud800", "\udc80b", "\udcc3\udca9")], seeds=1, sym=False)
def odd_messages(env, spec, odd):
    """Texts that have no encoding are refused or are messages of their own."""
    inst, p, v, d = honest(env, spec)
    others = ["", "".join(x for x in odd if x < "\ud800"), odd.encode("utf-8", "replace").decode(), odd.encode("utf-8", "backslashreplace").decode(),
              odd.encode("utf-8", "surrogateescape").decode("latin1") if all("\udc80" <= x < "\udd00" or x < "\x80" for x in odd) else "?"]
    if all("\udc80" <= x < "\udd00" for x in odd):
        others.append(odd.encode("utf-8", "surrogateescape").decode("utf-8", "replace"))
    for o in others:
        n = prove(env, p, message=o)
        env.check_reject("a proof for another text is not accepted", v.verify, n, message=odd)
    how, n = env.outcome(p.prove, message=odd)
    if how == "ok":
        env.check_accept("what was proven for the text is accepted", v.verify, n, message=odd)
        for o in others:
            env.check_reject("but not for another text", v.verify, n, message=o)


PAIRS = [("", "a"), ("a", ""), ("a", "aa"), ("aa", "a"), ("m", "m\0"), ("m", "M"), ("caf\u00e9", "cafe"), ("caf\u00e9", "cafe\u0301"),
         ("\u6f22", "\u6c49"), ("x" * 1000, "x" * 999 + "y"), ("m", " m"), ("None", ""), ("0", ""), ("1", "1.0"), ("\xff", "\u0178"),
         ("?", "\u00e9"), ("a\n", "a"), ("a\r\n", "a\n"), ("\ufeffa", "a"), ("ab", "ba"), ("ab ", "ab"), ("\n", ""), ("\0", ""), ("a\0b", "a"),
         ("\u212b", "\u00c5"), ("\ufb01", "fi"), ("\uff21", "A"), ("STRASSE", "stra\u00dfe"), ("x" * 65, "x" * 64), ("x" * 5000 + "1", "x" * 5000 + "2"),
         ("1" + "x" * 5000, "2" + "x" * 5000), ("\u0410", "A"), ("a\u200b", "a"), ("a\tb", "a b"), ("01", "1"), ("True", "true")]


@scenario("C06", cases=[dict(spec=s, m1=a, m2=b) for s in (SH.dl("x"), SH.PLAIN[9], SH.NE[1]) for a, b in PAIRS], seeds=1)
def another_message(env, spec, m1, m2):
    inst, p, v, d = honest(env, spec)
    n = prove(env, p, message=m1)
    env.check_accept("accepted for its message", v.verify, n, message=m1)
    env.check_reject("rejected for another message", v.verify, n, message=m2)


@scenario("C06", cases=[dict(m1=a, m2=b) for a, b in [("a\ud800", "a?"), ("\ud800", "\ud801"), ("\ud800", ""), ("a\udfffb", "ab"), ("a\ud800", "a\ufffd"),
                                                   ("a\udce9", "a\u00e9"), ("\udc80", "\x80")]], seeds=1)
def strange_messages(env, m1, m2):
    """Messages without an encoding may be refused, but never taken for others."""
    inst, p, v, d = honest(env, SH.dl("x"))
    for a, b in ((m1, m2), (m2, m1)):
        how, n = env.outcome(p.prove, message=a)
        env.check(how in ("ok", "raise"), "a proof or an error")
        if how == "ok":
            env.check_accept("accepted for its message", v.verify, n, message=a)
            env.check_reject("rejected for another message", v.verify, n, message=b)


@scenario("C06", cases=[dict(spec=s) for s in SH.SOME], seeds=6)
def any_other_message(env, spec):
    inst, p, v, d = honest(env, spec)
    a, b = env.opaque_str("m1"), env.opaque_str("m2")
    if not env.symbolic and a == b:
        return
    n = prove(env, p, message=a)
    env.check_accept("accepted for its message", v.verify, n, message=a)
    env.check_reject("rejected for another message", v.verify, n, message=b)
    env.check_reject("rejected for no message", v.verify, n)
    env.check_reject("rejected for an extension", v.verify, n, message=a + "x")
    env.check_reject("rejected for what is appended to", v.verify, n, message="x" + a)


@scenario("C06", cases=[dict(i=i) for i in range(9)], seeds=3)
def challenge_differs(env, i):
    """Changing one of the hashed parts changes the challenge."""
    base = env.m("base")
    q = env.group().order()
    G = env.gens(4)
    a, b = env.sc("a", q), env.sc("b", q)
    env.assume(a != b)
    inst, v = verifier_side(env, SH.dl("x y"))
    inst2, v2 = verifier_side(env, SH.dl("x x"))

    def ch(stmt, pre, com, m):
        return base.build_fiat_shamir_challenge(stmt.prehash_statement(), pre, com, message=m)
    one = (v, [a * G[0]], [a * G[1], a * G[2]], "m")
    two = [(v2, [a * G[0]], [a * G[1], a * G[2]], "m"), (v, [b * G[0]], [a * G[1], a * G[2]], "m"),
           (v, None, [a * G[1], a * G[2]], "m"), (v, [a * G[0]], [a * G[1], b * G[2]], "m"),
           (v, [a * G[0]], [b * G[1], a * G[2]], "m"), (v, [a * G[0]], [[a * G[1]], a * G[2]], "m"),
           (v, [a * G[0]], [a * G[1], a * G[2]], "n"), (v, [a * G[0]], [a * G[1]], "m"),
           (v, {"A": a * G[0]}, [a * G[1], a * G[2]], "m")][i]
    c, d = ch(*one), ch(*two)
    env.check(isinstance(c, env.Bn), "a challenge is a big number")
    env.check(env.same(c, ch(*one)), "the challenge is a function of the hashed parts")
    env.check(env.not_(c == d), "another part gives another challenge")
    env.check(c >= 0, "a challenge is not negative")


@scenario("C06", "C03", cases=[dict(group=g) for g in ("", "#g1", "#g2", "#gt", "@415")], seeds=6)
def challenge_of_nearly_equal_parts(env, group):
    """Points and numbers that agree in all but a few bits, or up to the sign."""
    base = env.m("base")
    inst, v = verifier_side(env, ("dl" + group, "x y"))
    P, Q, R = [env.pt(t, inst.group) for t in "PQR"]

    def ch(pre, com, m="m"):
        return base.build_fiat_shamir_challenge(v.prehash_statement(), pre, com, message=m)
    forms = [lambda x: (None, x), lambda x: (None, [Q, [R, x]]), lambda x: (None, [x, Q]), lambda x: (x, Q), lambda x: ([None, x], [Q, R]),
             lambda x: ({"A1": Q, "A2": x}, Q), lambda x: ([{"Cs": [Q, x, R], "rand": env.bn(5)}, None], R)]
    for f in forms:
        ref = ch(*f(P))
        env.check(ref == ch(*f(P)), "the challenge is a function of the hashed parts")
        for x in env.nears(P):
            env.check(env.not_(ch(*f(x)) == ref), "another point gives another challenge")
    a = env.num("a")
    g = lambda n: ch([{"Cs": [Q, R], "rand": n}, None], R)
    ref = g(a)
    for d in (1, -1, 256, 1 << 32, 1 << 64, 1 << 127, 1 << 128, 1 << 250, inst.group.order()):
        env.check(env.not_(g(a + (d if isinstance(d, env.Bn) else env.bn(d))) == ref), "another number gives another challenge")
    if not env.symbolic:
        env.check(g(-a) != ref or a == env.bn(0), "another sign gives another challenge")


@scenario("C06", "C03", cases=[dict(n=n) for n in (1, 2, 3, 5, 9, 17)], con=[dict(n=n) for n in (33, 64, 65, 130, 260)], seeds=1)
def challenge_of_many_parts(env, n):
    """Each of n commitments, precommitments and letters of the message counts."""
    base = env.m("base")
    inst, v = verifier_side(env, SH.dl("x y"))
    P = env.gens(n + 1)
    O, P = P[n], P[:n]

    def ch(pre, com, m="m"):
        return base.build_fiat_shamir_challenge(v.prehash_statement(), pre, com, message=m)
    msg = "".join(chr(97 + i % 26) for i in range(n))
    forms = [lambda x: (None, x), lambda x: ([None] * n, [[y] for y in x]), lambda x: (x, O), lambda x: ([{"Cs": x, "rand": env.bn(1)}], [O]),
             lambda x: (None, [O, [O, x]])]
    for f in forms:
        ref = ch(*f(P))
        for i in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))) if n > 9 else range(n):
            L = list(P)
            L[i] = O
            env.check(env.not_(ch(*f(L)) == ref), "each of the points counts", i)
            if i:
                L = list(P)
                L[i], L[i - 1] = L[i - 1], L[i]
                env.check(env.not_(ch(*f(L)) == ref), "and their order", i)
        env.check(env.not_(ch(*f(P[:-1])) == ref), "and their number")
        env.check(env.not_(ch(*f(P + [O])) == ref), "and their number")
    ref = ch(None, O, msg)
    for i in range(n):
        env.check(env.not_(ch(None, O, msg[:i] + "_" + msg[i + 1:]) == ref), "each letter of the message counts", i)


@scenario("C06", cases=[dict(spec=s) for s in SH.SOME], sym=False, seeds=3)
def challenge_is_long(env, spec):
    inst, p, v, d = honest(env, spec)
    cs = [prove(env, p, message="%d" % i).challenge for i in range(6)]
    env.check(any(c >= env.bn(1 << 123) for c in cs), "challenges have at least 128 bits")
    env.check(len({str(c) for c in cs}) == len(cs), "challenges of different proofs differ")


@scenario("C06", "C03", cases=[dict(spec=s) for s in STATE], seeds=2)
def challenge_recomputed(env, spec):
    """The challenge of a proof is the hash over statement, precommitment, commitment and message."""
    inst, p, v, d = honest(env, spec)
    n = prove(env, p, message="m")
    v.verify(n, message="m")
    node = inst.expand(n.precommitment)
    com = commitment_tree(node, n.challenge, n.responses)
    c = env.m("base").build_fiat_shamir_challenge(v.prehash_statement(), n.precommitment, com, message="m")
    env.check(c == n.challenge, "the challenge is the hash of what is proven")
    env.check(env.same(v.prehash_statement().digest(), n.stmt_hash), "the proof carries the identity of the statement")
