"""More obligations for lists of any length: generators, challenges, identities, patterns of secrets, reuse."""
from .registry import scenario
from .p_unbounded import CH, chal, dlrep, values, kids, node, implies, one_response_each, bbs_key, bbs_stmt


# -- generators

@scenario("C22", cases=[dict(group=g) for g in ("", "G1")], unbound=True)
def generators_n(env, group):
    """Every number of generators from any seed: each depends on the sum of seed and position only."""
    G = env.group() if not group else env.m("pairings").BilinearGroupPair().G1
    u = env.m("utils.groups")
    n, m = env.length("n", 0), env.length("m", 0)
    s, t = env.pyint("s"), env.pyint("t")
    a, b = u.make_generators(n, G, seed=s), u.make_generators(m, G, seed=t)
    env.check(env.len(a) == n, "as many as requested")
    env.check(env.len(b) == m, "as many as requested")
    i, j = env.index(n), env.index(m)
    P, Q = env.at(a, i), env.at(b, j)
    env.check(P == u.get_random_point(G, seed=s + i), "the point of the sum of seed and position")
    same = s + i == t + j
    env.check(env.any([env.not_(same), P == Q]), "equal for equal sums")
    env.check(env.any([same, env.not_(P == Q)]), "different for different sums")
    env.check(env.not_(P == G.infinite()), "not neutral")


# -- the challenge

@scenario("C06", unbound=True)
def challenge_of_n_commitments(env):
    """Two lists of commitments have the same challenge exactly if they are equal."""
    from hashlib import sha256
    n, m = env.length("n", 1), env.length("m", 1)
    base = env.m("base")
    v = dlrep(env, env.length("k", 1))[0]
    f = lambda cs: base.build_fiat_shamir_challenge(v.prehash_statement(), None, cs, message="m")
    a = f(env.seq(n, lambda i: env.fpt("A", i)))
    b = f(env.seq(m, lambda i: env.fpt("B", i)))
    if env.truth(n == m):
        same = env.forall(n, lambda i: env.fpt("A", i) == env.fpt("B", i))
        env.check(env.any([env.not_(same), a == b]), "equal commitments have equal challenges")
        env.check(env.any([same, env.not_(a == b)]), "other commitments have other challenges")
    else:
        env.check(env.not_(a == b), "another number of commitments has another challenge")


# -- the identity

@scenario("C07", unbound=True)
def identity_of_n_terms(env):
    """Representations with any number of terms have the same identity exactly if lhs and bases agree."""
    n, m = env.length("n", 1), env.length("m", 1)
    D, W = env.m("primitives.dlrep").DLRep, env.m("expr").wsum_secrets
    Y, Z = env.pt("Y"), env.pt("Z")

    def make(k, y, g, s):
        return D(y, W(env.seq(k, lambda i: env.fsecret(s, i)), env.seq(k, lambda i: env.fpt(g, i))))
    a, b = make(n, Y, "A", "s"), make(m, Z, "B", "t")
    x, y = a.prehash_statement().digest(), b.prehash_statement().digest()
    if env.truth(n == m):
        same = env.all([Y == Z, env.forall(n, lambda i: env.fpt("A", i) == env.fpt("B", i))])
        env.check(env.any([env.not_(same), x == y]), "the same statement has the same identity")
        env.check(env.any([same, env.not_(x == y)]), "another statement has another identity")
    else:
        env.check(env.not_(x == y), "another number of terms has another identity")


# -- any pattern of secrets

@scenario("C01", "C02", "C10", unbound=True)
def dlrep_n_shared(env):
    """n terms with m secrets, distributed in any way: complete."""
    n, m = env.length("n", 1), env.length("m", 1)
    env.assume(m <= n)
    sg = env.pattern("sg", n, m)
    p, v = dlrep(env, n, sigma=sg)[0], dlrep(env, n, names="v", sigma=sg)[0]
    pr, ve = p.get_prover(values(env, m)), v.get_verifier()
    com = pr.internal_commit()
    ve.commitment, ve.challenge = com, chal(env)
    r = pr.compute_response(ve.challenge)
    env.check(env.len(r) == n, "one response for each term")
    env.check_accept("accepted", ve.verify, r)


@scenario("C04", unbound=True)
def node_n_consistency(env):
    """A conjunction of n statements with m secrets, distributed in any way."""
    n, m = env.length("n", 2), env.length("m", 1)
    env.assume(m <= n)
    sigma = env.pattern("sg", n, m)
    ks = env.seq(n, lambda i: env.kid("k", i, env.fsecret("s", sigma(i)), env.fpt("g", i), known=False))
    v = env.m("composition").AndProofStmt(*env.items(ks))
    r = env.seq(n, lambda i: env.kid_response("r", i))
    ok = env.truth(v.get_verifier().check_responses_consistency(r))
    spec = one_response_each(env, n, sigma, lambda i: env.kid_response("r", i))
    env.check(spec if ok else env.not_(spec), "consistent exactly if equal secrets have equal responses")


@scenario("C04", unbound=True)
def or_n_consistency(env):
    """The disjuncts of a disjunction do not constrain each other, whatever secrets they share."""
    n, m = env.length("n", 2), env.length("m", 1)
    env.assume(m <= n)
    sigma = env.pattern("sg", n, m)
    ks = env.seq(n, lambda i: env.kid("k", i, env.fsecret("s", sigma(i)), env.fpt("g", i), known=False))
    v = env.m("composition").OrProofStmt(*env.items(ks))
    r = env.seq(n, lambda i: env.kid_response("r", i))
    c = env.seq(n, lambda i: env.fnum("c", i))
    env.check(env.truth(v.get_verifier().check_responses_consistency((c, r))), "disjuncts do not constrain each other")


# -- reuse

@scenario("C20", unbound=True)
def dlrep_n_reused(env):
    n = env.length("n", 1)
    p, v = dlrep(env, n)[0], dlrep(env, n, names="v")[0]
    a = p.prove(values(env, n), "first")
    tr = p.simulate()
    b = p.prove(values(env, n), "second")
    env.check_accept("the first proof", v.verify, a, "first")
    env.check_accept("the second proof", v.verify, b, "second")
    env.check_accept("the first proof again", v.verify, a, "first")
    env.check_accept("the simulation", p.verify_simulation_consistency, tr)
    env.check_accept("by the prover's own statement", p.verify, b, "second")


@scenario("C20", cases=[dict(kind=k, other=o) for k in ("and", "or") for o in ("and", "or")], unbound=True)
def kids_n_reused(env, kind, other):
    """n statements in one composition after another."""
    n = env.length("n", 2)
    C = env.m("composition")
    cls = dict(zip(("and", "or"), (C.AndProofStmt, C.OrProofStmt)))
    ks, vs = kids(env, n), kids(env, n, known=False, names="v")
    first, second = cls[kind](*env.items(ks)), cls[other](*env.items(ks))
    a = first.prove({}, "m")
    b = second.prove({}, "m")
    env.check_accept("the first composition", cls[kind](*env.items(vs)).verify, a, "m")
    env.check_accept("the second composition", cls[other](*env.items(vs)).verify, b, "m")
    env.check_accept("the first composition, by the prover", first.verify, a, "m")


# -- operators

@scenario("C20", cases=[dict(kind=k, side=s) for k in ("and", "or") for s in ("left", "right", "both", "neither")], unbound=True)
def operator_n(env, kind, side):
    """& and | flatten compositions of any size, in order."""
    n, m = env.length("n", 2), env.length("m", 2)
    A = env.seq(n, lambda i: env.kid("k", i, env.fsecret("as", i), env.fpt("g", i)))
    B = env.seq(m, lambda i: env.kid("l", i, env.fsecret("bs", i), env.fpt("h", i)))
    C = env.m("composition")
    one = (C.AndProofStmt, C.OrProofStmt) if kind == "and" else (C.OrProofStmt, C.AndProofStmt)
    x = one[0 if side in ("left", "both") else 1](*env.items(A))
    y = one[0 if side in ("right", "both") else 1](*env.items(B))
    s = x & y if kind == "and" else x | y
    env.check(type(s) is one[0], "a composition of this kind")
    left, right = side in ("left", "both"), side in ("right", "both")
    env.check(env.len(s.subproofs) == (n if left else 1) + (m if right else 1), "flat")
    i, j = env.index(n), env.index(m)
    d = env.at(s.subproofs, i if left else 0)
    if not left:
        env.check(type(d) is one[1], "the other kind is one part")
        d = env.at(d.subproofs, i)
    env.check(env.at(d.get_bases(), 0) == env.fpt("g", i), "the parts of the first in order")
    d = env.at(s.subproofs, (n if left else 1) + (j if right else 0))
    if not right:
        env.check(type(d) is one[1], "the other kind is one part")
        d = env.at(d.subproofs, j)
    env.check(env.at(d.get_bases(), 0) == env.fpt("h", j), "the parts of the second in order")


# -- groups of different order

@scenario("C11", cases=[dict(kind=k, shared=s) for k in ("and", "or") for s in (True, False)], unbound=True)
def orders_n(env, kind, shared):
    """n parts over one group and m over another one: refused exactly if they share a secret."""
    n, m = env.length("n", 1), env.length("m", 1)
    G, H = env.group(), env.group(415)
    A = env.seq(n, lambda i: env.kid("k", i, env.fsecret("as", i), env.fpt("g", i, G), known=False))
    B = env.seq(m, lambda i: env.kid("l", i, env.fsecret("bs", i), env.fpt("h", i, H), known=False))
    i = env.index(n)
    C = env.m("composition")
    cls = C.AndProofStmt if kind == "and" else C.OrProofStmt
    more = [env.kid("z", 0, env.fsecret("as", i) if shared else env.fsecret("zs", 0), env.fpt("z", 0, H), known=False)]
    s = cls(*env.items(env.concat(A, B, more)))
    if shared:
        env.check_raises("refused", s.validate_composition)
    else:
        s.validate_composition()
        env.check(True, "not refused")


# -- the contract by which a composition knows its parts holds for compositions and representations of any size

@scenario("C01", "C02", "C10", cases=[dict(pre=p) for p in (False, True)], unbound=True)
def and_n_contract(env, pre):
    """A conjunction uses the randomizers it is given, and its responses recompute its commitment."""
    n = env.length("n", 2)
    p, v = node(env, "and", n, pre=pre), node(env, "and", n, pre=pre, known=False, names="v")
    pr = p.get_prover({})
    pr.precommit()
    sec = lambda i: env.at(p.subproofs, i).get_secret_vars()[0]
    d = env.mapping(n, lambda i: (sec(i), env.fnum("k", i)))
    com = pr.internal_commit(d)
    c = chal(env)
    r = pr.compute_response(c)
    env.check(env.forall(n, lambda i: com[i] == env.at(p.subproofs, i).recompute_commitment(c, r[i])), "commitments of the parts")
    env.check(env.same(com, v.recompute_commitment(c, r)), "the responses recompute the commitment")
    env.check(env.len(com) == n, "one commitment for each part")
    env.check(env.len(r) == n, "one response for each part")
    j = env.index(n)
    q = env.kid("k", j, env.fsecret("as", j), env.fpt("g", j), precommit=pre).get_prover({})
    env.check(env.same(q.internal_commit(env.mapping(1, lambda i: (sec(j + i), env.fnum("k", j + i)))), com[j]), "the randomizer given is used")
    env.check(env.same(q.compute_response(c), r[j]), "the randomizer given is used in the response")


@scenario("C08", "C04", cases=[dict(pre=p) for p in (False, True)], unbound=True)
def and_n_simulation_contract(env, pre):
    """A conjunction is simulated for the challenge and the responses given."""
    n = env.length("n", 2)
    v = node(env, "and", n, pre=pre, known=False)
    c = chal(env)
    d = env.mapping(n, lambda i: (env.fsecret("as", i), env.fnum("r", i)))
    tr = v.simulate_proof(responses_dict=d, challenge=c)
    env.check(tr.challenge == c, "the challenge given")
    env.check(env.forall(n, lambda i: env.at(tr.responses, i) == env.kid_response("r", i)), "the responses given")
    env.check(env.len(tr.responses) == n, "one response for each part")
    env.check(env.same(tr.commitment, v.recompute_commitment(c, tr.responses)), "the commitment")


@scenario("C04", unbound=True)
def and_n_consistency_contract(env):
    """A conjunction checks its responses against those of other parts, and adds its own."""
    n, m = env.length("n", 2), env.length("m", 0)
    env.assume(m <= n)
    v = node(env, "and", n, known=False)
    r = env.seq(n, lambda i: env.kid_response("r", i))
    d = env.mapping(m, lambda i: (env.fsecret("as", i), env.fnum("o", i)))
    ok = env.truth(v.get_verifier().check_responses_consistency(r, d))
    spec = env.forall(m, lambda i: env.fnum("o", i) == env.fnum("r", i))
    env.check(spec if ok else env.not_(spec), "consistent exactly if equal to those of other parts")
    if ok:
        j = env.index(n)
        env.check(d[env.fsecret("as", j)] == env.fnum("r", j), "the responses are remembered")


@scenario("C08", "C05", "C09", cases=[dict(pre=p) for p in (False, True)], unbound=True)
def or_n_simulation_contract(env, pre):
    """A disjunction is simulated for any challenge, whatever responses are prescribed outside."""
    n = env.length("n", 2)
    v = node(env, "or", n, pre=pre, known=False)
    c = chal(env)
    tr = v.simulate_proof(challenge=c)
    env.check(tr.challenge == c, "the challenge given")
    subs, r = tr.responses
    env.check(env.len(subs) == n, "one subchallenge for each part")
    env.check(env.len(r) == n, "one response for each part")
    two = env.Bn(2).pow(CH)
    env.check(env.forall(n, lambda i: env.all([subs[i] >= 0, subs[i] < two])), "subchallenges in range")
    env.check(env.mod(env.sum(subs) - c, two) == 0, "subchallenges add up to the challenge")
    env.check(env.same(tr.commitment, v.recompute_commitment(c, tr.responses)), "the commitment")


@scenario("C01", "C02", "C10", unbound=True)
def dlrep_n_contract(env):
    """A representation with any pattern of secrets uses the randomizers it is given."""
    n, m = env.length("n", 1), env.length("m", 1)
    env.assume(m <= n)
    sg = env.pattern("sg", n, m)
    p, v = dlrep(env, n, sigma=sg)[0], dlrep(env, n, names="v", sigma=sg)[0]
    pr = p.get_prover(values(env, m))
    d = env.mapping(m, lambda i: (env.fsecret("ws", i), env.fnum("k", i)))
    com = pr.internal_commit(d)
    env.check(com == env.ptotal(n, lambda i: env.fnum("k", sg(i)) * env.fpt("g", i)), "the commitment")
    c = chal(env)
    r = pr.compute_response(c)
    q = env.group().order()
    env.check(env.forall(n, lambda i: r[i] == env.mod(env.fnum("k", sg(i)) + c * env.fsc("x", sg(i), q), q)), "the responses")
    env.check(com == v.recompute_commitment(c, r), "the responses recompute the commitment")


@scenario("C08", "C04", unbound=True)
def dlrep_n_simulation_contract(env):
    n, m = env.length("n", 1), env.length("m", 1)
    env.assume(m <= n)
    sg = env.pattern("sg", n, m)
    v = dlrep(env, n, sigma=sg)[0]
    c = chal(env)
    d = env.mapping(m, lambda i: (env.fsecret("ws", i), env.fnum("r", i)))
    tr = v.simulate_proof(responses_dict=d, challenge=c)
    env.check(tr.challenge == c, "the challenge given")
    env.check(env.len(tr.responses) == n, "one response for each term")
    env.check(env.forall(n, lambda i: tr.responses[i] == env.fnum("r", sg(i))), "the responses given")
    env.check(tr.commitment == v.recompute_commitment(c, tr.responses), "the commitment")


# -- serialized proofs with any number of parts

def same_after_round_trip(env, n, v, *a):
    base = env.m("base")
    raw = n.serialize()
    m = base.NIZK.deserialize(raw)
    for part in ("challenge", "responses", "precommitment", "stmt_hash"):
        env.check(env.same(getattr(n, part), getattr(m, part)), "equal " + part)
    env.check(m.serialize() == raw, "the same bytes again")
    env.check_accept("the deserialized proof is accepted", v.verify, m, *a)


@scenario("C17", unbound=True)
def dlrep_n_serialized(env):
    n = env.length("n", 1)
    p, v = dlrep(env, n)[0], dlrep(env, n, names="v")[0]
    same_after_round_trip(env, p.prove(values(env, n), "m"), v, "m")


@scenario("C17", cases=[dict(kind=k, pre=p) for k in ("and", "or") for p in (False, True)], unbound=True)
def node_n_serialized(env, kind, pre):
    n = env.length("n", 2)
    p, v = node(env, kind, n, pre=pre), node(env, kind, n, pre=pre, known=False, names="v")
    same_after_round_trip(env, p.prove({}, "m"), v, "m")


@scenario("C17", unbound=True)
def any_n_numbers_serialized(env):
    """Numbers of any size and sign, points, lists of lists."""
    n, m = env.length("n", 0), env.length("m", 0)
    base = env.m("base")
    z = base.NIZK(challenge=env.num("c"), responses=env.concat(env.seq(n, lambda i: env.fnum("r", i)), [
        env.seq(m, lambda i: env.fnum("s", i)), (env.num("t"), env.seq(n, lambda i: [env.fnum("u", i), env.fnum("w", i)]))]),
        precommitment=env.seq(m, lambda i: env.fpt("P", i)), stmt_hash=b"h" * 32)
    raw = z.serialize()
    y = base.NIZK.deserialize(raw)
    for part in ("challenge", "responses", "precommitment", "stmt_hash"):
        env.check(env.same(getattr(z, part), getattr(y, part)), "equal " + part)
    env.check(y.serialize() == raw, "the same bytes again")


# -- precommitments reach their part

@scenario("C21", cases=[dict(kind=k) for k in ("and", "or")], unbound=True)
def node_n_routing(env, kind):
    n = env.length("n", 2)
    p, v = node(env, kind, n, pre=True), node(env, kind, n, pre=True, known=False, names="v")
    pr, ve = p.get_prover({}), v.get_verifier()
    pre = pr.precommit()
    env.check(env.len(pre) == n, "one for each part")
    ve.process_precommitment(pre)
    j = env.index(n)
    x = env.at(v.subproofs, j)
    env.check(env.same(x.got, env.at(pre, j)), "the part gets its own")


# -- unsound combinations

@scenario("C11", cases=[dict(shared=s, first=f) for s in (True, False) for f in (True, False)], unbound=True)
def secrets_n(env, shared, first):
    """A conjunction of n statements and a disjunction of m: refused exactly if a secret occurs in both."""
    n, m = env.length("n", 1), env.length("m", 2)
    C = env.m("composition")
    A = env.seq(n, lambda i: env.kid("k", i, env.fsecret("as", i), env.fpt("g", i), known=False))
    B = env.seq(m, lambda i: env.kid("l", i, env.fsecret("bs", i), env.fpt("h", i), known=False))
    o = C.OrProofStmt(*env.items(B))
    i = env.index(m)
    x = env.kid("z", 0, env.fsecret("bs", i) if shared else env.fsecret("zs", 0), env.fpt("z", 0), known=False)
    s = C.AndProofStmt(*env.items(env.concat(A, [o, x] if first else [x, o])))
    if shared:
        env.check_raises("refused", s.validate_composition)
    else:
        s.validate_composition()
        env.check(True, "not refused")


# -- identities of compositions

@scenario("C07", cases=[dict(kind=k, other=o) for k in ("and", "or") for o in ("and", "or")], unbound=True)
def identity_of_n_parts(env, kind, other):
    n, m = env.length("n", 2), env.length("m", 2)
    C = env.m("composition")
    cls = dict(zip(("and", "or"), (C.AndProofStmt, C.OrProofStmt)))

    def make(k, kind, g, s):
        return cls[kind](*env.items(env.seq(k, lambda i: env.kid("k", i, env.fsecret(s, i), env.fpt(g, i), known=False))))
    a, b = make(n, kind, "A", "s"), make(m, other, "B", "t")
    x, y = a.prehash_statement().digest(), b.prehash_statement().digest()
    if kind != other:
        env.check(env.not_(x == y), "a conjunction is no disjunction")
    elif env.truth(n == m):
        same = env.forall(n, lambda i: env.fpt("A", i) == env.fpt("B", i))
        env.check(env.any([env.not_(same), x == y]), "the same statement has the same identity")
        env.check(env.any([same, env.not_(x == y)]), "another statement has another identity")
    else:
        env.check(env.not_(x == y), "another number of parts has another identity")


# -- random numbers of any length

@scenario("C22", unbound=True)
def random_number_of_any_length(env):
    n = env.length("n", 1)
    env.assume(n < 1 << 32)
    i0 = len(env.draws())
    x = env.m("utils.groups").get_random_num(n)
    ds = env.draws()[i0:]
    env.check(len(ds) == 1, "one draw")
    v, b, how = ds[0]
    env.check(how != "insecure", "from secure randomness")
    env.check(b == env.pow2(n), "of the whole range")
    env.check(x == v, "the number drawn")


# -- signatures on any number of messages as parts of compositions

def bbs_spec(env, kp, bp, n, pre, com, c, r):
    """The three equations of a proof of possession, with one response for e, r1 and delta1."""
    g = lambda i: env.fpt("g", i, bp.G1)
    A1, A2, w, h0 = pre["A1"], pre["A2"], kp.pk.w, kp.pk.h0
    (r1, r2), (d1, d2, e), z = r[0], r[1], r[2]
    return env.all([
        z[0] == e, z[1] == r1, z[2] == d1,
        r1 * g(1) + r2 * g(2) == com[0] + c * A1,
        d1 * g(1) + d2 * g(2) == com[1] + e * A1,
        (-e) * A2.pair(h0) + r1 * g(2).pair(w) + d1 * g(2).pair(h0) + z[3] * g(1).pair(h0)
        + env.ptotal(n, lambda i: z[4 + i] * g(i + 2).pair(h0)) == com[2] + c * (A2.pair(w) - g(0).pair(h0))])


@scenario("C16", "C10", "C04", cases=[dict(bind=b) for b in (True, False)], unbound=True)
def bbs_n_contract(env, bind):
    """A proof of possession uses the randomizers it is given for messages, and answers for them."""
    n = env.length("n", 1)
    kp, bp = bbs_key(env, n)
    q = bp.G1.order()
    m = lambda i: env.fsc("m", i, q)
    cr = env.m("primitives.bbsplus").BBSPlusSignatureCreator(kp.pk)
    sig = cr.obtain_signature(kp.sk.sign(cr.commit(env.seq(n, m), zkp=False).com_message))
    p, v = bbs_stmt(env, kp, n, sig, bind, m), bbs_stmt(env, kp, n, None, bind)
    pr, ve = p.get_prover({}), v.get_verifier()
    pre = pr.precommit()
    ve.process_precommitment(pre)
    d = env.mapping(n, lambda i: (env.fsecret("sm", i, m(i)), env.fnum("k", i)))
    com = pr.internal_commit(d)
    c = chal(env)
    r = pr.compute_response(c)
    env.check(env.len(r[2]) == n + 4, "one response for each message, e, s, r1 and delta1")
    env.check(env.forall(n, lambda i: r[2][4 + i] == env.mod(env.fnum("k", i) + c * m(i), q)), "the randomizers given are used")
    env.check(bbs_spec(env, kp, bp, n, pre, com, c, r), "the equations")
    env.check(env.same(com, v.recompute_commitment(c, r)), "the responses recompute the commitment")


@scenario("C08", "C16", "C04", cases=[dict(bind=b) for b in (True, False)], unbound=True)
def bbs_n_simulation_contract(env, bind):
    """It is simulated for the challenge and the responses given."""
    n = env.length("n", 1)
    kp, bp = bbs_key(env, n)
    v = bbs_stmt(env, kp, n, None, bind)
    v.prepare_simulate_proof()
    c = chal(env)
    d = env.mapping(n, lambda i: (env.fsecret("sm", i), env.fnum("r", i)))
    t = v.simulate_proof(responses_dict=d, challenge=c)
    env.check(t.challenge == c, "the challenge given")
    r = t.responses
    env.check(env.len(r[2]) == n + 4, "one response for each message, e, s, r1 and delta1")
    env.check(env.forall(n, lambda i: r[2][4 + i] == env.fnum("r", i)), "the responses given")
    env.check(bbs_spec(env, kp, bp, n, t.precommitment, t.commitment, c, r), "the equations")


# -- what provers reveal, for any number of parts

@scenario("C09", "C10", cases=[dict(pre=False)], unbound=True)
def or_n_masking(env, pre):
    """All subchallenges of a disjunction but one, and the responses that belong to them, are uniform numbers of their own."""
    n = env.length("n", 2)
    pr = node(env, "or", n, pre=pre).get_prover({})
    pr.precommit()
    pr.commit()
    c = chal(env)
    subs, r = pr.compute_response(c)
    q, two = env.group().order(), env.Bn(2).pow(CH)
    i, j = env.index(n), env.index(n)
    env.assume(i != j)
    a, b = env.fresh(subs[i], two), env.fresh(subs[j], two)
    env.check(a is not None or b is not None, "all subchallenges but one are fresh uniform numbers")
    if a is not None and b is not None:
        env.check(not env.same_draw(a, b), "a number for each")
    both = []
    for k, x in ((i, a), (j, b)):
        m = r[k]
        if x is not None:
            both.append(env.fresh(m if not isinstance(m, list) else m[0], q))
        else:
            both.append(env.fresh(env.kid_blinder(k, m, subs[k]), q))
        env.check(both[-1] is not None, "responses are fresh uniform numbers or masked by one")
    if None not in both:
        env.check(not env.same_draw(*both), "a number for each response")


@scenario("C10", "C09", cases=[dict(pre=p) for p in (False, True)], unbound=True)
def and_n_masking(env, pre):
    """The parts of a conjunction have randomizers of their own."""
    n = env.length("n", 2)
    pr = node(env, "and", n, pre=pre).get_prover({})
    pr.precommit()
    pr.commit()
    c = chal(env)
    r = pr.compute_response(c)
    q = env.group().order()
    i, j = env.index(n), env.index(n)
    env.assume(i != j)
    a, b = [env.fresh(env.kid_blinder(k, r[k], c), q) for k in (i, j)]
    env.check(a is not None and b is not None, "randomizers are fresh uniform numbers")
    if a is not None and b is not None:
        env.check(not env.same_draw(a, b), "one for each secret")


@scenario("C10", "C09", unbound=True)
def dlrep_n_masking(env):
    """The secrets of a representation have randomizers of their own."""
    n, m = env.length("n", 1), env.length("m", 1)
    env.assume(m <= n)
    sg = env.pattern("sg", n, m)
    pr = dlrep(env, n, sigma=sg)[0].get_prover(values(env, m))
    pr.internal_commit()
    c = chal(env)
    r = pr.compute_response(c)
    q = env.group().order()
    i, j = env.index(n), env.index(n)
    a, b = [env.masked_by(r[x], c * env.fsc("x", sg(x), q), q) for x in (i, j)]
    env.check(a is not None and b is not None, "responses are masked by fresh uniform numbers")
    if a is not None and b is not None:
        if env.truth(sg(i) == sg(j)):
            env.check(env.same_draw(a, b), "one for each secret")
        else:
            env.check(not env.same_draw(a, b), "one for each secret")


@scenario("C04", cases=[dict(kind=k) for k in ("or", "and")], unbound=True)
def inner_consistency_n(env, kind):
    """n parts in each of which a secret occurs twice."""
    n = env.length("n", 2)
    z = env.z
    sec = lambda i: env.fsecret("s", i)
    ks = env.seq(n, lambda i: z.DLRep(env.fpt("Y", i), sec(i) * env.fpt("g", i) + sec(i) * env.fpt("h", i)))
    comp = env.m("composition")
    v = (comp.OrProofStmt if kind == "or" else comp.AndProofStmt)(*env.items(ks))
    r = env.seq(n, lambda i: [env.fnum("r", i), env.fnear("q", i, env.fnum("r", i))])
    c = env.seq(n, lambda i: env.fnum("c", i))
    ok = env.truth(v.get_verifier().check_responses_consistency((c, r) if kind == "or" else r))
    spec = env.forall(n, lambda i: env.fnum("r", i) == env.fnear("q", i, env.fnum("r", i)))
    env.check(spec if ok else env.not_(spec), "consistent exactly if the responses in each part are")

