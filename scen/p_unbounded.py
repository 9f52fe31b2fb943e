"""Obligations for lists of any length: the loops are verified by invariants, not unrolled.

In the verifier n, m are arbitrary lengths; on the real library they are drawn.
"""
from .registry import scenario

CH = 128


def chal(env, name="c"):
    return env.num(name, 0, 1 << CH)


def dlrep(env, n, value=None, names="w", sigma=None):
    """(statement, secrets, bases) of Y = sum x_i G_i with n terms; sigma: which secret each term has."""
    q = env.group().order()
    sigma = sigma or (lambda i: i)
    secs = env.seq(n, lambda i: env.fsecret(names + "s", sigma(i)))
    bases = env.seq(n, lambda i: env.fpt("g", i))
    expr = env.m("expr").wsum_secrets(secs, bases)
    y = env.ptotal(n, lambda i: env.fsc("x", sigma(i), q) * env.fpt("g", i))
    return env.m("primitives.dlrep").DLRep(y, expr), secs, y


def values(env, n):
    q = env.group().order()
    return env.mapping(n, lambda i: (env.fsecret("ws", i), env.fsc("x", i, q)))


# -- DL representations with n terms

@scenario("C02", "C01", "C10", "C03", unbound=True)
def dlrep_n_interactive(env):
    n = env.length("n", 1)
    p, v = dlrep(env, n)[0], dlrep(env, n, names="v")[0]
    pr, ve = p.get_prover(values(env, n)), v.get_verifier()
    com = pr.commit()
    env.check(pr.precommit() is None, "no precommitment")
    c = ve.send_challenge(com)
    r = pr.compute_response(c)
    env.check(env.len(r) == n, "one response for each term")
    env.check_accept("accepted", ve.verify, r)


@scenario("C01", "C06", "C08", unbound=True)
def dlrep_n_nizk(env):
    n = env.length("n", 1)
    p, v = dlrep(env, n)[0], dlrep(env, n, names="v")[0]
    nz = p.prove(values(env, n), "msg")
    env.check_accept("accepted", v.verify, nz, "msg")
    env.check_reject("another message", v.verify, nz, "msgx")
    tr = v.simulate()
    env.check_accept("simulation", v.verify_simulation_consistency, tr)
    env.check_reject("no simulation is a proof", v.verify,
                     env.m("base").NIZK(challenge=tr.challenge, responses=tr.responses,
                                        precommitment=tr.precommitment, stmt_hash=v.prehash_statement().digest()))


@scenario("C03", "C04", "C16", unbound=True)
def dlrep_n_equation(env):
    """Arbitrary responses are accepted exactly if the equation holds."""
    n = env.length("n", 1)
    v, secs, y = dlrep(env, n)
    ve = v.get_verifier()
    t = env.pt("T")
    c = chal(env)
    env.force_draw(c)
    ve.send_challenge((v.prehash_statement().digest(), t))
    r = env.seq(n, lambda i: env.fnum("r", i))
    ok = env.accepts(ve.verify, r)
    eq = t == env.ptotal(n, lambda i: env.fnum("r", i) * env.fpt("g", i)) + (-c) * y
    env.check(eq if ok else env.not_(eq), "accepted exactly if the equation holds")


# -- conjunctions and disjunctions of n arbitrary statements (which are known by their contract only)

def kids(env, n, pre=False, known=True, names="a"):
    return env.seq(n, lambda i: env.kid("k", i, env.fsecret(names + "s", i), env.fpt("g", i), precommit=pre, known=known))


def node(env, kind, n, **kw):
    C = env.m("composition")
    return (C.AndProofStmt if kind == "and" else C.OrProofStmt)(*env.items(kids(env, n, **kw)))


KINDS = [dict(kind=k, pre=p) for k in ("and", "or") for p in (False, True)]


@scenario("C02", "C21", "C05", "C09", cases=KINDS, unbound=True)
def node_n_interactive(env, kind, pre):
    n = env.length("n", 2)
    p, v = node(env, kind, n, pre=pre), node(env, kind, n, pre=pre, known=False, names="v")
    pr, ve = p.get_prover({}), v.get_verifier()
    ve.process_precommitment(pr.precommit())
    com = pr.commit()
    c = ve.send_challenge(com)
    r = pr.compute_response(c)
    if kind == "or":
        env.check(env.len(r) == 2, "subchallenges and responses")
        env.check(env.len(r[0]) == n, "one subchallenge for each disjunct")
        env.check(env.forall(n, lambda i: env.all([r[0][i] >= 0, r[0][i] < env.Bn(2).pow(CH)])), "subchallenges in range")
        env.check(env.mod(env.sum(r[0]) - c, env.Bn(2).pow(CH)) == 0, "subchallenges add up to the challenge")
    else:
        env.check(env.len(r) == n, "one response for each conjunct")
    env.check_accept("accepted", ve.verify, r)


@scenario("C01", "C08", "C05", "C21", "C06", cases=KINDS, unbound=True)
def node_n_nizk(env, kind, pre):
    n = env.length("n", 2)
    p, v = node(env, kind, n, pre=pre), node(env, kind, n, pre=pre, known=False, names="v")
    nz = p.prove({}, "msg")
    env.check_accept("accepted", v.verify, nz, "msg")
    v = node(env, kind, n, pre=pre, known=False, names="v")
    env.check_reject("another message", v.verify, nz, "msgx")
    v = node(env, kind, n, pre=pre, known=False, names="v")
    tr = v.simulate()
    v = node(env, kind, n, pre=pre, known=False, names="v")
    env.check_accept("simulation", v.verify_simulation_consistency, tr)


@scenario("C08", "C05", cases=KINDS, unbound=True)
def node_n_simulation_prescribed(env, kind, pre):
    """A simulation for a given challenge."""
    n = env.length("n", 2)
    v = node(env, kind, n, pre=pre, known=False)
    c = chal(env)
    tr = v.simulate(c)
    env.check(tr.challenge == c, "the prescribed challenge")
    env.check_accept("simulation", v.verify_simulation_consistency, tr)


def kid_commitment(env, i, c, r):
    """What the i-th statement recomputes."""
    return env.kid("k", i, env.fsecret("as", i), env.fpt("g", i), known=False).recompute_commitment(c, r)


@scenario("C03", "C04", "C05", cases=[dict(kind=k, how=h) for k in ("and", "or") for h in ("interactive", "nizk")], unbound=True)
def node_n_equation(env, kind, how):
    """What is accepted: the equations of all parts, with the subchallenges of the specification."""
    n = env.length("n", 2)
    two = env.Bn(2).pow(CH)
    coms = env.seq(n, lambda i: env.fpt("T", i))
    v = node(env, kind, n, known=False)
    if how == "interactive":
        ve = v.get_verifier()
        c = chal(env)
        env.force_draw(c)
        ve.send_challenge((v.prehash_statement().digest(), coms))
    else:
        base = env.m("base")
        h = v.prehash_statement()
        sh = h.digest()
        c = base.build_fiat_shamir_challenge(h, None, coms, message="m")
    resp = env.seq(n, lambda i: env.kid_response("r", i))
    if kind == "or":
        subs = env.seq(n, lambda i: env.fnum("s", i))
        resp = (subs, resp)
    sub = (lambda i: env.fnum("s", i)) if kind == "or" else (lambda i: c)
    if how == "interactive":
        ok = env.accepts(ve.verify, resp)
    else:
        ok = env.accepts(v.verify, base.NIZK(challenge=c, responses=resp, precommitment=None, stmt_hash=sh), message="m")
    spec = [env.forall(n, lambda i: env.fpt("T", i) == kid_commitment(env, i, sub(i), env.kid_response("r", i)))]
    if kind == "or":
        spec.append(env.forall(n, lambda i: env.all([sub(i) >= 0, sub(i) < two])))
        spec.append(env.mod(env.total(n, sub) - c, two) == 0)
    spec = env.all(spec)
    env.check(spec if ok else env.not_(spec), "accepted exactly if all equations hold")


@scenario("C05", "C03", cases=[dict(which=w) for w in ("subchallenges", "responses", "both")], unbound=True)
def or_n_counts(env, which):
    """Too few or too many subchallenges or responses."""
    n, m = env.length("n", 2), env.length("m", 0)
    env.assume(m != n)
    v = node(env, "or", n, known=False)
    ve = v.get_verifier()
    coms = env.seq(n, lambda i: env.fpt("T", i))
    c = chal(env)
    env.force_draw(c)
    ve.send_challenge((v.prehash_statement().digest(), coms))
    if which == "responses":
        env.assume(m < n)            # further responses are not looked at
    resp = env.seq(n if which == "subchallenges" else m, lambda i: env.kid_response("r", i))
    subs = env.seq(n if which == "responses" else m, lambda i: env.fnum("s", i))
    env.check_reject("not one for each disjunct", ve.verify, (subs, resp))


@scenario("C03", unbound=True)
def and_n_counts(env):
    """Too few responses in a conjunction."""
    n, m = env.length("n", 2), env.length("m", 0)
    env.assume(m < n)
    v = node(env, "and", n, known=False)
    ve = v.get_verifier()
    coms = env.seq(n, lambda i: env.fpt("T", i))
    c = chal(env)
    env.force_draw(c)
    ve.send_challenge((v.prehash_statement().digest(), coms))
    env.check_reject("not one for each conjunct", ve.verify, env.seq(m, lambda i: env.kid_response("r", i)))


@scenario("C03", unbound=True)
def dlrep_n_counts(env):
    """Another number of responses than terms."""
    n, m = env.length("n", 1), env.length("m", 0)
    env.assume(m != n)
    v, secs, y = dlrep(env, n)
    ve = v.get_verifier()
    c = chal(env)
    env.force_draw(c)
    ve.send_challenge((v.prehash_statement().digest(), env.pt("T")))
    env.check_reject("not one for each term", ve.verify, env.seq(m, lambda i: env.fnum("r", i)))


# -- arithmetic of the composition

@scenario("C05", "C22", unbound=True)
def sum_of_n_numbers(env):
    n, m = env.length("n", 0), env.num("m", 1, 1 << 300)
    xs = env.seq(n, lambda i: env.fnum("x", i))
    r = env.m("utils").sum_bn_array(xs, m)
    env.check(r == env.mod(env.total(n, lambda i: env.fnum("x", i)), m), "the sum reduced into [0, modulus)")


@scenario("C05", unbound=True)
def residual_challenge_n(env):
    n, c = env.length("n", 0), env.num("c")
    xs = env.seq(n, lambda i: env.fnum("x", i))
    two = env.Bn(2).pow(CH)
    r = env.m("composition")._find_residual_challenge(xs, c, CH)
    env.check(env.all([r >= 0, r < two]), "in range")
    env.check(env.mod(r + env.total(n, lambda i: env.fnum("x", i)) - c, two) == 0, "completes the sum")


# -- expressions

@scenario("C19", unbound=True)
def wsum_n(env):
    n = env.length("n", 1)
    q = env.group().order()
    secs = env.seq(n, lambda i: env.fsecret("s", i, env.fsc("x", i, q)))
    bases = env.seq(n, lambda i: env.fpt("g", i))
    e = env.m("expr").wsum_secrets(secs, bases)
    env.check(env.len(e.secrets) == n, "as many secrets as written")
    env.check(env.len(e.bases) == n, "as many bases as written")
    env.check(env.forall(n, lambda i: env.at(e.secrets, i) == secs[i]), "the secrets in order")
    env.check(env.forall(n, lambda i: env.at(e.bases, i) == bases[i]), "the bases in order")
    env.check(e.eval() == env.ptotal(n, lambda i: env.fsc("x", i, q) * env.fpt("g", i)), "the sum of value times base")


@scenario("C19", unbound=True)
def sum_of_expressions_n(env):
    """(m terms) + (n terms) + (m terms)"""
    n, m = env.length("n", 1), env.length("m", 1)
    q = env.group().order()
    w = env.m("expr").wsum_secrets

    def part(t, k):
        return w(env.seq(k, lambda i: env.fsecret(t + "s", i, env.fsc(t, i, q))), env.seq(k, lambda i: env.fpt(t + "g", i)))
    a, b = part("a", n), part("b", m)
    e = a + b + a
    env.check(env.len(e.bases) == n + m + n, "all terms")
    env.check(env.forall(n, lambda i: env.at(e.bases, i) == env.fpt("ag", i)), "first terms")
    env.check(env.forall(m, lambda i: env.at(e.bases, n + i) == env.fpt("bg", i)), "middle terms")
    env.check(env.forall(n, lambda i: env.at(e.secrets, n + m + i) == env.fsecret("as", i, env.fsc("a", i, q))), "last terms")
    s, t = (env.ptotal(k, lambda i, x=x: env.fsc(x, i, q) * env.fpt(x + "g", i)) for x, k in (("a", n), ("b", m)))
    env.check(e.eval() == s + t + s, "the sum of value times base")
    env.check(env.len(a.bases) == n, "the operands are unchanged")
    env.check(a.eval() == s, "the operands are unchanged")
    env.check(env.len(b.bases) == m, "the operands are unchanged")


@scenario("C19", unbound=True)
def missing_value_n(env):
    """One missing value among n."""
    n, m = env.length("n", 0), env.length("m", 0)
    q = env.group().order()
    secs = env.concat(env.seq(n, lambda i: env.fsecret("s", i, env.fsc("x", i, q))), env.fsecret("none", n),
                      env.seq(m, lambda i: env.fsecret("t", i, env.fsc("z", i, q))))
    bases = env.concat(env.seq(n, lambda i: env.fpt("g", i)), env.fpt("f", n), env.seq(m, lambda i: env.fpt("h", i)))
    e = env.m("expr").wsum_secrets(secs, bases)
    env.check_raises("not evaluated", e.eval)


# -- pairing groups

@scenario("C18", cases=[dict(which=w) for w in ("G1", "G2", "GT")], unbound=True)
def pairing_sums_n(env, which):
    n = env.length("n", 1)
    bp = env.m("pairings").BilinearGroupPair()
    g = getattr(bp, which)
    q = g.order()
    pts = env.seq(n, lambda i: env.fpt("p", i, g))
    ws = env.seq(n, lambda i: env.fnum("w", i))
    env.check(g.wsum(ws, pts) == env.ptotal(n, lambda i: env.fnum("w", i) * env.fpt("p", i, g)), "wsum")
    env.check(g.sum(pts) == env.ptotal(n, lambda i: env.fpt("p", i, g)), "sum")
    env.check(g.sum(env.seq(0, lambda i: env.fpt("p", i, g))) == g.infinite(), "empty sum")


# -- one response for each secret: any pattern of equal secrets

def implies(env, a, b):
    return env.any([env.not_(a), b])


def one_response_each(env, n, sigma, r):
    return env.forall(n, lambda i: env.forall(n, lambda j: implies(env, sigma(i) == sigma(j), r(i) == r(j))))


@scenario("C04", "C16", unbound=True)
def consistency_n(env):
    """DL representations with n terms and m secrets, distributed in any way."""
    n, m = env.length("n", 1), env.length("m", 1)
    env.assume(m <= n)
    sigma = env.pattern("sg", n, m)
    secs = env.seq(n, lambda i: env.fsecret("s", sigma(i)))
    bases = env.seq(n, lambda i: env.fpt("g", i))
    v = env.m("primitives.dlrep").DLRep(env.pt("Y"), env.m("expr").wsum_secrets(secs, bases))
    r = env.seq(n, lambda i: env.fnum("r", i))
    ok = env.truth(v.get_verifier().check_responses_consistency(r))
    spec = one_response_each(env, n, sigma, lambda i: env.fnum("r", i))
    env.check(spec if ok else env.not_(spec), "consistent exactly if equal secrets have equal responses")


# -- range proofs of any size

def returns(env, f, *a):
    """Whether there is no error."""
    return env.accepts(lambda: (f(*a), True)[1])


def weighted(env, n, points):
    """The sum of 2^i points(i)."""
    return env.ptotal(n, lambda i: env.pow2(i) * points(i))


@scenario("C13", unbound=True)
def bits_of_any_number(env):
    """The binary representation with n bits, of any number."""
    n, x = env.length("n", 0), env.num("x", 0, None)
    dec = env.m("primitives.rangeproof").decompose_into_n_bits
    if env.truth(x >= env.pow2(n)):
        env.check_raises("does not fit", dec, x, n)
        return
    bits = dec(x, n)
    env.check(env.len(bits) == n, "n bits")
    i = env.index(n)
    env.check(env.any([env.at(bits, i) == 0, env.at(bits, i) == 1]), "each 0 or 1")
    env.check(env.weighted(bits, lambda i, b: env.pow2(i) * b) == x, "the bits have the value")


def range_stmt(env, n, xv, rv, **kw):
    g, h = env.pt("g"), env.pt("h")
    com = xv * g + rv * h
    return env.m("primitives.rangeproof").PowerTwoRangeStmt(com, g, h, n, **kw), g, h, com


@scenario("C13", "C10", unbound=True)
def range_n_precommit(env):
    """The bit commitments of n bits."""
    n, x, r = env.length("n", 1), env.num("x", 0, None), env.sc("r", env.group().order())
    env.assume(x < env.pow2(n))
    S = env.z.Secret
    p, g, h, com = range_stmt(env, n, x, r, x=S(x), randomizer=S(r))
    pre = p.precommit()
    env.check(env.len(pre["Cs"]) == n, "one commitment for each bit")
    v = range_stmt(env, n, x, r)[0]
    v.validate(pre)
    env.check(True, "accepted")


@scenario("C14", unbound=True)
def range_n_validate(env):
    """Which precommitments of n bits are accepted."""
    n, m = env.length("n", 1), env.length("m", 0)
    q = env.group().order()
    x, r = env.num("x"), env.sc("r", q)
    v, g, h, com = range_stmt(env, n, x, r)
    rand = env.num("rand")
    pre = {"Cs": env.seq(m, lambda i: env.fpt("C", i)), "rand": rand}
    ok = returns(env, v.validate, pre)
    if not env.truth(m == n):
        env.check(not ok, "another number of commitments than bits")
        return
    eq = weighted(env, n, lambda i: env.fpt("C", i)) == com + rand * h
    env.check(eq if ok else env.not_(eq), "accepted exactly if they combine to the commitment")


@scenario("C14", "C13", unbound=True)
def range_n_construct(env):
    """Each of the n bits is proven to be 0 or 1."""
    n = env.length("n", 2)
    q = env.group().order()
    v, g, h, com = range_stmt(env, n, env.num("x"), env.sc("r", q))
    C = env.m("composition")
    s = v.full_construct_stmt({"Cs": env.seq(n, lambda i: env.fpt("C", i)), "rand": env.num("rand")})
    env.check(isinstance(s, C.AndProofStmt), "a conjunction")
    env.check(env.len(s.subproofs) == n, "one conjunct for each bit")
    i, j = env.index(n), env.index(n)
    b = env.at(s.subproofs, i)
    env.check(isinstance(b, C.OrProofStmt), "of disjunctions")
    env.check(env.len(b.subproofs) == 2, "with two cases")
    for k in range(2):
        d = b.subproofs[k]
        env.check(isinstance(d, env.m("primitives.dlrep").DLRep), "which are representations")
        env.check(env.len(d.bases) == 1, "of one term")
        env.check(env.len(d.secret_vars) == 1, "of one term")
        env.check(env.at(d.bases, 0) == h, "of the randomizer")
        env.check(d.lhs == env.fpt("C", i) - k * g, "of the commitment to this bit")


@scenario("C14", cases=[dict(part=1), dict(part=2)], unbound=True)
def range_any_bounds(env, part):
    """The parts of a range proof for any bounds."""
    a, d, m = env.num("a"), env.num("d", 1, None), env.length("m", 0)
    S = env.z.Secret
    g, h, com, rand = env.pt("g"), env.pt("h"), env.pt("com"), env.num("rand")
    x, r = S(name="x"), S(name="r")
    s = env.m("primitives.rangeproof").RangeStmt(com, g, h, a, a + d, x, r)
    env.check(env.len(s.subproofs) == 3, "the commitment and two ranges")
    dl = s.subproofs[0]
    env.check(dl.lhs == com, "the commitment")
    env.check(env.all([dl.bases[0] == g, dl.bases[1] == h, env.len(dl.bases) == 2]), "to the secret")
    env.check(env.all([dl.secret_vars[0] == x, dl.secret_vars[1] == r]), "to the secret")
    p = s.subproofs[part]
    ok = returns(env, p.validate, {"Cs": env.seq(m, lambda i: env.fpt("C", i)), "rand": rand})
    size = [m >= 1, env.pow2(m) >= d, env.any([m == 1, env.pow2(m) < d + d])]
    off = -a if part == 1 else env.pow2(m) - d - a
    if not env.truth(env.all(size)):
        env.check(not ok, "not the smallest power of two")
        return
    eq = weighted(env, m, lambda i: env.fpt("C", i)) == com + off * g + rand * h
    env.check(eq if ok else env.not_(eq), "accepted exactly if they combine to the shifted commitment")


@scenario("C13", cases=[dict(part=1), dict(part=2)], unbound=True)
def range_any_bounds_precommit(env, part):
    """Any value in any range has bits."""
    a, d, x, r = env.num("a"), env.num("d", 1, None), env.num("x", 0, None), env.sc("r", env.group().order())
    env.assume(x < d)
    S = env.z.Secret
    g, h = env.pt("g"), env.pt("h")
    com = (x + a) * g + r * h
    R = env.m("primitives.rangeproof").RangeStmt
    p = R(com, g, h, a, a + d, S(x + a, "x"), S(r, "r"))
    v = R(com, g, h, a, a + d, S(name="x"), S(name="r"))
    pre = p.subproofs[part].precommit()
    v.subproofs[part].validate(pre)
    env.check(True, "accepted")


# -- BBS+ signatures on n messages

def bbs_key(env, n):
    """(key pair without its generators computed, the pairing) for n messages."""
    bp = env.shared("bp", lambda: env.m("pairings").BilinearGroupPair())
    bb = env.m("primitives.bbsplus")
    gamma, h0 = env.sc("gamma", bp.G1.order()), env.num("eta", 1, 1 << 100) * bp.G2.generator()
    gens = env.seq(n + 2, lambda i: env.fpt("g", i, bp.G1))
    pk = bb.BBSPlusPublicKey(w=gamma * h0, h0=h0, generators=gens)
    return bb.BBSPlusKeypair(generators=gens, h0=h0, sk=bb.BBSPlusSecretKey(gamma=gamma, h0=h0, generators=gens), pk=pk), bp


def bbs_product(env, kp, bp, s, n, m):
    g = lambda i: env.fpt("g", i, bp.G1)
    return g(0) + s * g(1) + env.ptotal(n, lambda i: m(i) * g(i + 2))


@scenario("C15", cases=[dict(zkp=z) for z in (True, False)], unbound=True)
def bbs_n_issue(env, zkp):
    n = env.length("n", 1)
    kp, bp = bbs_key(env, n)
    q = bp.G1.order()
    m = lambda i: env.fsc("m", i, q)
    cr = env.m("primitives.bbsplus").BBSPlusSignatureCreator(kp.pk)
    com = cr.commit(env.seq(n, m), zkp=zkp)
    if zkp:
        env.check_accept("an honest blinding proof is accepted", com.verify_blinding, kp.pk)
    sig = cr.obtain_signature(kp.sk.sign(com.com_message))
    env.check((kp.sk.gamma + sig.e) * sig.A == bbs_product(env, kp, bp, sig.s, n, m), "A is the signature of the protocol")
    env.check_accept("the signature verifies", sig.verify_signature, kp.pk, env.seq(n, m))


@scenario("C15", "C16", unbound=True)
def bbs_n_verify(env):
    """The verdict on any A, e, s and n messages is that of the equation."""
    n = env.length("n", 1)
    kp, bp = bbs_key(env, n)
    q = bp.G1.order()
    m = lambda i: env.fnum("m", i)
    A, e, s = env.sc("a", q) * env.fpt("g", 0, bp.G1), env.num("e"), env.num("s")
    sig = env.m("primitives.bbsplus").BBSPlusSignature(A=A, e=e, s=s)
    ok = env.accepts(sig.verify_signature, kp.pk, env.seq(n, m))
    eq = (kp.sk.gamma + e) * A == bbs_product(env, kp, bp, s, n, m)
    env.check(eq if ok else env.not_(eq), "accepted exactly if the equation holds")


def bbs_stmt(env, kp, n, sig=None, bind=True, m=None, tag=""):
    """A proof of possession of a signature on n messages."""
    q = kp.h0.group.order()
    secs = env.seq(n, lambda i: env.fsecret("sm", i, None if m is None else m(i)))
    if bind:
        S = env.z.Secret
        secs = env.concat(S(name="se"), S(name="ss"), secs)
    return env.m("primitives.bbsplus").BBSPlusSignatureStmt(secs, kp.pk, sig, binding=bind)


def bbs_signature(env, kp, bp, n, m):
    """A valid signature: A is given by the equation."""
    q = bp.G1.order()
    e, s = env.sc("e", q), env.sc("s", q)
    A = env.fpt("A", 0, bp.G1)
    env.assume((kp.sk.gamma + e) * A == bbs_product(env, kp, bp, s, n, m))
    return env.m("primitives.bbsplus").BBSPlusSignature(A=A, e=e, s=s)


@scenario("C16", cases=[dict(bind=b) for b in (True, False)], unbound=True)
def bbs_n_complete(env, bind):
    """Anyone who holds a valid signature on n messages can prove it."""
    n = env.length("n", 1)
    kp, bp = bbs_key(env, n)
    q = bp.G1.order()
    m = lambda i: env.fsc("m", i, q)
    cr = env.m("primitives.bbsplus").BBSPlusSignatureCreator(kp.pk)
    sig = cr.obtain_signature(kp.sk.sign(cr.commit(env.seq(n, m), zkp=False).com_message))
    p = bbs_stmt(env, kp, n, sig, bind, m)
    v = bbs_stmt(env, kp, n, None, bind)
    z = p.prove()
    env.check_accept("the proof is accepted", v.verify, z)


@scenario("C16", "C12", "C03", cases=[dict(bind=b) for b in (True, False)], unbound=True)
def bbs_n_equation(env, bind):
    """What is accepted as a proof of possession: the three equations, e, r1 and delta1 with one response each."""
    n = env.length("n", 1)
    kp, bp = bbs_key(env, n)
    q = bp.G1.order()
    g = lambda i: env.fpt("g", i, bp.G1)
    base = env.m("base")
    pre = {"A1": env.fpt("A", 1, bp.G1), "A2": env.fpt("A", 2, bp.G1)}
    T1, T2, T3 = env.fpt("T", 1, bp.G1), env.fpt("T", 2, bp.G1), env.fpt("T", 3, bp.GT)
    com = [T1, T2, T3]
    v, v2 = bbs_stmt(env, kp, n, None, bind), bbs_stmt(env, kp, n, None, bind)
    v2.get_verifier().process_precommitment(pre)
    h = v2.prehash_statement()
    sh = h.digest()
    c = base.build_fiat_shamir_challenge(h, pre, com, message="m")
    r = lambda s: env.num("r_" + s)
    rm = lambda i: env.fnum("rm", i)
    resp = [[r("r1"), r("r2")], [r("d1"), r("d2"), r("e")],
            env.concat([r("e'"), r("r1'"), r("d1'"), r("s")], env.seq(n, rm))]
    ok = env.accepts(v.verify, base.NIZK(challenge=c, responses=resp, precommitment=pre, stmt_hash=sh), message="m")
    A1, A2, w, h0 = pre["A1"], pre["A2"], kp.pk.w, kp.pk.h0
    spec = [
        r("r1") == r("r1'"), r("d1") == r("d1'"), r("e") == r("e'"),
        r("r1") * g(1) + r("r2") * g(2) == T1 + c * A1,
        r("d1") * g(1) + r("d2") * g(2) == T2 + r("e") * A1,
        (-r("e")) * A2.pair(h0) + r("r1") * g(2).pair(w) + r("d1") * g(2).pair(h0) + r("s") * g(1).pair(h0)
        + env.ptotal(n, lambda i: rm(i) * g(i + 2).pair(h0)) == T3 + c * (A2.pair(w) - g(0).pair(h0)),
    ]
    spec = env.all(spec)
    env.check(spec if ok else env.not_(spec), "accepted exactly if the equations hold")


@scenario("C16", "C04", cases=[dict(what=w) for w in ("message", "e", "s")], unbound=True)
def bbs_n_bound_secret(env, what):
    """In a conjunction with a statement about one of the n messages, e or s there is one response for it."""
    n = env.length("n", 1)
    kp, bp = bbs_key(env, n)
    base = env.m("base")
    j = env.index(n)
    pre = [{"A1": env.fpt("A", 1, bp.G1), "A2": env.fpt("A", 2, bp.G1)}, None]
    com = [[env.fpt("T", 1, bp.G1), env.fpt("T", 2, bp.G1), env.fpt("T", 3, bp.GT)], env.fpt("T", 4, bp.G1)]

    def make():
        x = env.fsecret("sm", j) if what == "message" else env.z.Secret(name="s" + what)
        return env.m("composition").AndProofStmt(bbs_stmt(env, kp, n), env.z.DLRep(env.fpt("Y", 0, bp.G1), x * env.fpt("P", 0, bp.G1)))
    v, v2 = make(), make()
    v2.get_verifier().process_precommitment(pre)
    h = v2.prehash_statement()
    sh = h.digest()
    c = base.build_fiat_shamir_challenge(h, pre, com, message="m")
    r = lambda s: env.num("r_" + s)
    rm = lambda i: env.fnum("rm", i)
    resp = [[[r("r1"), r("r2")], [r("d1"), r("d2"), r("e")],
            env.concat([r("e'"), r("r1'"), r("d1'"), r("s")], env.seq(n, rm))], [r("x")]]
    ok = env.accepts(v.verify, base.NIZK(challenge=c, responses=resp, precommitment=pre, stmt_hash=sh), message="m")
    if ok:
        env.check(r("x") == (rm(j) if what == "message" else r(what)), "the same response")
