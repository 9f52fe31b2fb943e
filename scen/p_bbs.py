"""C15, C16: BBS+ signatures."""
from .registry import scenario
from .model import *
from .common import *
from . import shapes as SH

NS = (1, 2, 3, 4)


def pair(env):
    return env.shared("bp", lambda: env.m("pairings").BilinearGroupPair())


def generated(env, n):
    return env.m("primitives.bbsplus").BBSPlusKeypair.generate(pair(env), n)


def keypair(env, n, own=None):
    """A key pair, for even n with an h0 other than the generator of G2."""
    kp = generated(env, n)
    if n % 2 if own is None else not own:
        return kp
    bb = env.m("primitives.bbsplus")
    h0 = env.num("eta", 1, 1 << 100) * kp.h0
    gs, gamma = list(kp.generators), kp.sk.gamma
    return bb.BBSPlusKeypair(generators=gs, h0=h0, sk=bb.BBSPlusSecretKey(gamma=gamma, generators=gs, h0=h0),
                             pk=bb.BBSPlusPublicKey(w=gamma * h0, generators=gs, h0=h0))


def messages(env, n, kind, tag="m"):
    q = pair(env).G1.order()
    if kind == "any":
        return [env.num("%s%d" % (tag, i)) for i in range(n)]
    if kind == "zero":
        return [env.bn(0)] * n
    if kind == "same":
        return [env.sc(tag, q)] * n
    return [env.sc("%s%d" % (tag, i), q) for i in range(n)]


def issue(env, kp, ms, zkp, creator=None):
    """(signature, commitment message, creator, presignature)"""
    bb = env.m("primitives.bbsplus")
    cr = creator or bb.BBSPlusSignatureCreator(kp.pk)
    com = cr.commit(list(ms), zkp=zkp)
    if zkp:
        env.check_accept("an honest blinding proof is accepted", com.verify_blinding, kp.pk)
    pre = kp.sk.sign(com.com_message)
    return cr.obtain_signature(pre), com, cr, pre


def product(kp, s, ms):
    g = kp.pk.generators
    r = g[0] + s * g[1]
    for m, b in zip(ms, g[2:]):
        r = r + m * b
    return r


def valid(env, kp, sig, ms):
    """(gamma + e) A = g0 + s g1 + sum m_i g_i"""
    return (kp.sk.gamma + sig.e) * sig.A == product(kp, sig.s, ms)


@scenario("C15", cases=[dict(n=n, zkp=z, kind=k) for n in NS for z in (True, False) for k in ("scalar", "any", "zero", "same")],
          con=[dict(n=n, zkp=z, kind="scalar") for n in (7, 12) for z in (True, False)], seeds=2)
def issuance(env, n, zkp, kind):
    kp = keypair(env, n)
    ms = messages(env, n, kind)
    given = list(ms)
    q = kp.h0.group.order()
    bb = env.m("primitives.bbsplus")
    cr = bb.BBSPlusSignatureCreator(kp.pk)
    i0 = len(env.draws())
    com = cr.commit(ms, zkp=zkp)
    i1 = len(env.draws())
    if zkp:
        env.check_accept("an honest blinding proof is accepted", com.verify_blinding, kp.pk)
        hits = []
        C0 = kp.pk.generators[0].group.infinite()
        for m, b in zip(ms, kp.pk.generators[2:]):
            C0 = C0 + m * b
        for w, b, how in env.draws()[i0:i1]:
            if how != "insecure" and env.known(b == q) and env.known(com.com_message == w * kp.pk.generators[1] + C0):
                hits.append(w)
        env.check(len(hits) == 1, "the commitment is blinded by a fresh draw of the full range")
    else:
        env.check(com.com_nizk_proof is None, "no proof without blinding")
        env.check(com.com_message == product(kp, env.bn(0), ms) - kp.pk.generators[0], "the commitment to the messages")
    j0 = len(env.draws())
    pre = kp.sk.sign(com.com_message)
    new = env.draws()[j0:]
    for x, what in ((pre.e, "e"), (pre.s, "s")):
        hits = [i for i, (w, b, how) in enumerate(new) if how != "insecure" and env.known(b == q) and env.known(w == x)]
        env.check(len(hits) == 1, "%s is a fresh draw of the full range" % what)
    old = (pre.A, pre.e, pre.s)
    sig = cr.obtain_signature(pre)
    env.check(env.same(list(old), [pre.A, pre.e, pre.s]), "obtaining a signature does not change what the issuer sent")
    env.check(env.same(ms, given), "the list of messages is not changed")
    env.check(valid(env, kp, sig, ms), "A is the signature of the protocol")
    env.check_accept("the signature verifies", sig.verify_signature, kp.pk, ms)
    env.check_accept("again", sig.verify_signature, kp.pk, list(ms))
    env.check(env.same(ms, given), "the list of messages is not changed by verification")


@scenario("C15", cases=[dict(n=n, zkp=z, what=w) for n in NS[:3] for z in (True, False)
                        for w in ("messages", "one", "A", "e", "s", "key", "swap", "generators", "h0") if w != "swap" or n > 1], seeds=3)
def exactly_the_signature(env, n, zkp, what):
    """The verdict for any other messages, key, A, e or s is that of the equation."""
    bb = env.m("primitives.bbsplus")
    kp = keypair(env, n)
    ms = messages(env, n, "scalar")
    sig, _, _, _ = issue(env, kp, ms, zkp)
    pk, q = kp.pk, kp.h0.group.order()
    A, e, s = sig.A, sig.e, sig.s
    cond = True
    if what == "messages":
        m2 = messages(env, n, "any", "other")
        cond = env.all([(x - y) % q == 0 for x, y in zip(ms, m2)])
        ms = m2
    elif what == "one":
        i = env.choose(n, "message")
        d = env.num("d")
        ms = [m + d if i == j else m for j, m in enumerate(ms)]
        cond = d % q == 0
    elif what == "swap":
        cond = ms[0] == ms[1]
        ms = [ms[1], ms[0]] + ms[2:]
    elif what == "A":
        d = env.sc("d", q)
        A = A + d * env.gens(1, pair(env).G1, "delta")[0]
        cond = env.any([d == 0])
    elif what == "e":
        d = env.num("d")
        e = e + d
        cond = d % q == 0
    elif what == "s":
        d = env.num("d")
        s = s + d
        cond = d % q == 0
    elif what == "key":
        d = env.sc("d", q)
        pk = bb.BBSPlusPublicKey(w=kp.pk.w + d * kp.h0, h0=kp.h0, generators=kp.pk.generators)
        cond = d == 0
    elif what == "generators":
        i = env.choose(n + 2, "generator")
        d = env.sc("d", q)
        g = list(kp.pk.generators)
        g[i] = g[i] + d * env.gens(1, pair(env).G1, "delta")[0]
        pk = bb.BBSPlusPublicKey(w=kp.pk.w, h0=kp.h0, generators=g)
        cond = (([env.bn(1), s] + ms)[i] * d) % q == 0
    else:
        d = env.sc("d", q)
        pk = bb.BBSPlusPublicKey(w=kp.pk.w, h0=kp.h0 + d * kp.h0, generators=kp.pk.generators)
        cond = (d * kp.sk.gamma) % q == 0
    other = bb.BBSPlusSignature(A=A, e=e, s=s)
    agree(env, "the signature with other " + what, env.accepts(other.verify_signature, pk, ms), cond)


@scenario("C15", cases=[dict(n=n) for n in NS[:3]], seeds=3)
def any_signature(env, n):
    """A, e, s and the messages are arbitrary: accepted exactly if they satisfy the equation."""
    bb = env.m("primitives.bbsplus")
    kp = keypair(env, n)
    q = kp.h0.group.order()
    ms = messages(env, n, "scalar")
    sig = bb.BBSPlusSignature(A=env.pt("A", pair(env).G1), e=env.sc("e", q), s=env.sc("s", q))
    # the equation of A in G1, mapped to GT (pairing with h0 is injective)
    cond = ((kp.sk.gamma + sig.e) * sig.A).pair(kp.h0) == product(kp, sig.s, ms).pair(kp.h0)
    agree(env, "an arbitrary signature", env.accepts(sig.verify_signature, kp.pk, ms), cond)


@scenario("C15", cases=[dict(n=n, what=w) for n in NS[:3] for w in ("commitment", "key", "response", "challenge", "identity", "nothing", "less", "swap", "g0")], seeds=3)
def blinding_proof(env, n, what):
    """The proof of a blinded commitment verifies for that commitment and key only."""
    bb = env.m("primitives.bbsplus")
    kp = keypair(env, n)
    ms = messages(env, n, "scalar")
    cr = bb.BBSPlusSignatureCreator(kp.pk)
    com = cr.commit(ms)
    pk, C, z = kp.pk, com.com_message, com.com_nizk_proof
    env.check_accept("the honest one is accepted", com.verify_blinding, pk)
    if what == "nothing":
        env.check_raises("no proof is refused", bb.UserCommitmentMessage(com_message=C).verify_blinding, pk)
        return
    q = kp.h0.group.order()
    d = env.sc("d", q)
    env.assume(d != 0)
    P = env.gens(1, pair(env).G1, "delta")[0]
    if what == "commitment":
        C = C + d * P
    elif what == "g0":
        C = C + kp.pk.generators[0]
    elif what == "key":
        g = list(pk.generators)
        i = 1 + env.choose(n + 1, "generator")
        g[i] = g[i] + d * P
        pk = bb.BBSPlusPublicKey(w=pk.w, h0=pk.h0, generators=g)
    elif what == "response":
        i = env.choose(len(z.responses), "response")
        z = copy_nizk(env, z, responses=tree_set(z.responses, (i,), z.responses[i] + d))
    elif what == "challenge":
        z = copy_nizk(env, z, challenge=z.challenge + d)
    elif what == "identity":
        z = copy_nizk(env, z, stmt_hash=b"x" * 32)
    elif what == "less":
        z = copy_nizk(env, z, responses=list(z.responses)[:-1])
    else:
        env.assume(z.responses[0] != z.responses[1])
        z = copy_nizk(env, z, responses=[z.responses[1], z.responses[0]] + list(z.responses)[2:])
    env.check_reject("another one is rejected", bb.UserCommitmentMessage(com_message=C, com_nizk_proof=z).verify_blinding, pk)


@scenario("C15", "C03", cases=[dict(n=n) for n in NS[:3]], seeds=2)
def any_blinding_proof(env, n):
    """A dishonest user's proof is accepted exactly if it opens the commitment over g_1, g_2, ..."""
    bb, base, z = env.m("primitives.bbsplus"), env.m("base"), env.z
    kp = keypair(env, n)
    q = kp.h0.group.order()
    C = env.pt("C", pair(env).G1)
    bases = list(kp.pk.generators[1:n + 2])
    e = None
    for b in bases:
        t = z.Secret() * b
        e = t if e is None else e + t
    h = z.DLRep(C, e).prehash_statement()
    sh = h.digest()
    T = env.pt("T", pair(env).G1)
    c = base.build_fiat_shamir_challenge(h, None, T, message="")
    r = [env.sc("r%d" % i, q) for i in range(n + 1)]
    nz = base.NIZK(challenge=c, responses=r, precommitment=None, stmt_hash=sh)
    S = pair(env).G1.infinite()
    for x, b in zip(r, bases):
        S = S + x * b
    agree(env, "an arbitrary proof", env.accepts(bb.UserCommitmentMessage(com_message=C, com_nizk_proof=nz).verify_blinding, kp.pk), S == T + c * C)


@scenario("C15", cases=[dict(n=n, zkp=z) for n in (1, 2) for z in (True, False)], seeds=2)
def signatures_are_fresh(env, n, zkp):
    """Two signatures on one commitment, and two commitments to the same messages, share nothing."""
    kp = keypair(env, n)
    bb = env.m("primitives.bbsplus")
    ms = messages(env, n, "scalar")
    a, b = bb.BBSPlusSignatureCreator(kp.pk), bb.BBSPlusSignatureCreator(kp.pk)
    ca, cb = a.commit(ms, zkp=zkp), b.commit(ms, zkp=zkp)
    if zkp:
        env.check(env.not_(ca.com_message == cb.com_message), "each commitment has its own blinding")
    p = [kp.sk.sign(ca.com_message), kp.sk.sign(ca.com_message), kp.sk.sign(cb.com_message)]
    for i in range(3):
        for j in range(i):
            env.check(env.not_(p[i].e == p[j].e), "each signature has its own e")
            env.check(env.not_(p[i].s == p[j].s), "each signature has its own s")
        env.check(env.not_(p[i].e == p[i].s), "e and s are independent")
    # the commitments belong to their creators, in any order
    for cr, x in ((b, p[2]), (a, p[1]), (a, p[0])):
        sig = cr.obtain_signature(x)
        env.check_accept("the signature verifies", sig.verify_signature, kp.pk, ms)


@scenario("C15", "C20", cases=[dict(order=o) for o in ("tt", "tf", "ft", "ff", "ttf", "tft", "ftf")], seeds=2)
def one_creator_many_signatures(env, order):
    """A creator can be used again, for other messages and with or without blinding."""
    kp = keypair(env, 3)
    bb = env.m("primitives.bbsplus")
    cr = bb.BBSPlusSignatureCreator(kp.pk)
    for k, o in enumerate(order):
        ms = messages(env, 1 + k, "scalar", "m%d_" % k)
        sig, _, _, _ = issue(env, kp, ms, o == "t", cr)
        env.check_accept("each signature verifies", sig.verify_signature, kp.pk, ms)


@scenario("C15", cases=[dict(n=n) for n in (1, 2, 5)], seeds=2)
def keys(env, n):
    bb = env.m("primitives.bbsplus")
    q = pair(env).G1.order()
    i0 = len(env.draws())
    kp = generated(env, n + 2)
    new = env.draws()[i0:]
    hits = [w for w, b, how in new if how != "insecure" and env.known(b == q) and env.known(w == kp.sk.gamma)]
    env.check(len(hits) == 1, "the secret key is a fresh draw of the full range")
    env.check(kp.pk.w == kp.sk.gamma * kp.h0 and kp.pk.h0 == kp.h0 and kp.sk.h0 == kp.h0, "the public key belongs to it")
    env.check(env.not_(kp.h0 == pair(env).G2.infinite()), "h0 is not neutral")
    gs = kp.pk.generators
    env.check(len(gs) >= n + 2 and env.same(list(gs), list(kp.sk.generators)) is not False, "the same generators for both, enough of them")
    for i, a in enumerate(gs):
        env.check(a == kp.sk.generators[i] and a == kp.generators[i], "the same generators")
        env.check(env.not_(a == pair(env).G1.infinite()), "no neutral generator")
        for b in gs[:i]:
            env.check(env.not_(a == b), "different generators")
    k2 = generated(env, n + 2)
    env.check(env.not_(k2.sk.gamma == kp.sk.gamma), "each key is another one")
    env.check(env.same(list(k2.pk.generators), list(gs)), "the generators are canonical")
    ms = messages(env, n, "scalar")
    sig, _, _, _ = issue(env, kp, ms, True)
    env.check_reject("another key does not verify the signature", sig.verify_signature, k2.pk, ms)


# -- possession

def possession(env, kp, sig, ms, bind, known=True, creator=None):
    bb, z = env.m("primitives.bbsplus"), env.z
    S = [z.Secret(value=m) if known else z.Secret() for m in ms]
    E = [z.Secret(), z.Secret()] if bind else []
    return bb.BBSPlusSignatureStmt(E + S, kp.pk, sig, binding=bind), S, E


@scenario("C16", "C01", cases=[dict(n=n, bind=b, zkp=k) for n in NS for b in (True, False) for k in (True, False)],
          con=[dict(n=n, bind=b, zkp=True) for n in (6, 9) for b in (True, False)], seeds=2)
def issued_signature_is_proven(env, n, bind, zkp):
    kp = keypair(env, n)
    ms = messages(env, n, "any" if n < 3 else "scalar")
    sig, _, _, _ = issue(env, kp, ms, zkp)
    p, S, E = possession(env, kp, sig, ms, bind)
    v, _, _ = possession(env, kp, None, ms, bind, False)
    q = kp.h0.group.order()
    i0 = len(env.draws())
    z = prove(env, p, message="m")
    env.check_accept("accepted", v.verify, z, message="m")
    pr, ve = p.get_prover(), v.get_verifier()
    pre, com, c, r = run_interactive(env, pr, ve)
    env.check_accept("accepted interactively", ve.verify, r)
    g = kp.pk.generators
    for x in (z.precommitment, pre):
        ds = [(i, w) for i, (w, b, how) in enumerate(env.draws()) if how != "insecure" and i >= i0 and env.known(b == q)]
        r1 = [(i, w) for i, w in ds if env.known(x["A2"] == sig.A + w * g[2])]
        env.check(len(r1) == 1, "A is blinded by a fresh draw of the full range")
        r2 = [i for i, w in ds if env.known(x["A1"] == r1[0][1] * g[1] + w * g[2])]
        env.check(len(r2) == 1 and r2[0] != r1[0][0], "which is committed to with another one")
    env.check(env.not_(env.same(z.precommitment, pre)), "each proof has its own blinding")
    env.check(sorted(z.precommitment) == ["A1", "A2"], "nothing else is sent before")


@scenario("C16", "C20", cases=[dict(n=n, bind=b) for n in (1, 2, 4) for b in (True, False)], seeds=2)
def what_is_given_stays(env, n, bind):
    """Statements are made from the caller's objects without changing them; several can be made from the same ones."""
    bb, z = env.m("primitives.bbsplus"), env.z
    kp = keypair(env, n)
    ms = messages(env, n, "scalar")
    sig, _, _, _ = issue(env, kp, ms, True)
    mk = lambda known: ([z.Secret(), z.Secret()] if bind else []) + [z.Secret(value=m) if known else z.Secret() for m in ms]
    given, asked = mk(True), mk(False)
    c1, c2, c3 = list(given), list(asked), list(kp.pk.generators)
    A, e, s_ = sig.A, sig.e, sig.s
    stmts = [bb.BBSPlusSignatureStmt(given, kp.pk, sig, binding=bind) for _ in range(2)]
    checks = [bb.BBSPlusSignatureStmt(asked, kp.pk, None, binding=bind) for _ in range(2)]
    for i in range(2):
        for j in range(2):
            env.check_accept("every one of them can be used", checks[j].verify, prove(env, stmts[i]))
    env.check_accept("in a conjunction", (checks[0] & checks[1]).verify, prove(env, stmts[0] & stmts[1]))
    for now, before in ((given, c1), (asked, c2)):
        env.check(len(now) == len(before) and all(x is y for x, y in zip(now, before)), "the given list is unchanged")
    env.check(len(kp.pk.generators) == len(c3) and all(x is y for x, y in zip(kp.pk.generators, c3)), "the key is unchanged")
    env.check(env.all([sig.A == A, sig.e == e, sig.s == s_]), "the signature is unchanged")


@scenario("C16", "C12", cases=[dict(spec=s) for s in [("bbs", 4, True), ("bbs", 4, False), ("bbs", 5, True), ("and", ("bbs", 1, True), ("bbs", 2, False)),
          ("or", ("bbs", 1, False), ("bbs", 2, True))]], seeds=2)
def any_possession_proof(env, spec):
    from . import p_sound
    p_sound.any_nizk(env, spec)
    p_sound.any_interactive_transcript(env, spec)


@scenario("C16", cases=[dict(n=n, bind=b, what=w) for n in (1, 2, 3) for b in (True, False) for w in ("A", "e", "s", "message", "key", "d1", "d2", "r1", "r2", "A1")], seeds=2)
def without_a_valid_signature(env, n, bind, what):
    """The proofs a dishonest prover makes with one value of the relation changed."""
    inst = Inst(env, ("bbs", n, bind))
    q = inst.q
    pre = inst.model_pre(scalars(env))
    d = env.sc("d", q)
    env.assume(d != 0)
    P = env.gens(1, inst.group, "delta")[0]
    w0 = inst.witness()
    off = {}
    if what in ("A", "A1"):
        pre = dict(pre, **{"A2" if what == "A" else "A1": pre["A2" if what == "A" else "A1"] + d * P})
    elif what == "key":
        inst.w = inst.w + d * inst.h0
    else:
        lab = {"e": inst.le if bind else inst.path + ":e", "s": inst.ls if bind else inst.path + ":s",
               "message": inst.msgs[-1]}.get(what, "%s:%s" % (inst.path, what))
        off[lab] = d
        if what == "e":          # consistently with the second equation
            for k in ("1", "2"):
                off["%s:d%s" % (inst.path, k)] = d * inst.internal["%s:r%s" % (inst.path, k)]
    if what in ("d1", "d2", "r1", "r2"):
        # responses for other values, everywhere the same
        pass
    node = inst.expand(pre)

    def opening(path, leaf):
        return [(w0[l] + off.get(l, env.bn(0))) % q for l in leaf.labels]
    from .p_range import forge_and_judge
    holds = env.all([a.leaf.lhs == inst_lin(a.leaf, opening("", a.leaf)) for a in walk(node, env.bn(0), arbitrary(env, node, "z"))])
    env.check(env.not_(holds), "the relation does not hold")
    forge_and_judge(env, inst, pre, lambda path, leaf, w: opening(path, leaf), "a proof without a valid signature is rejected", False)


def inst_lin(leaf, vals):
    r = leaf.group.infinite()
    for v, b in zip(vals, leaf.bases):
        r = r + v * b
    return r


@scenario("C16", "C01", cases=[dict(n=n, bind=b, what=w) for n in (1, 3) for b in (True, False) for w in ("message", "A", "e", "s", "key")], seeds=2)
def honest_prover_wrong_signature(env, n, bind, what):
    bb = env.m("primitives.bbsplus")
    kp = keypair(env, n)
    ms = messages(env, n, "scalar")
    sig, _, _, _ = issue(env, kp, ms, True)
    q = kp.h0.group.order()
    d = env.sc("d", q)
    env.assume(d != 0)
    A, e, s, pk = sig.A, sig.e, sig.s, kp.pk
    if what == "message":
        ms = ms[:-1] + [ms[-1] + d]
    elif what == "A":
        A = A + d * env.gens(1, pair(env).G1, "delta")[0]
    elif what == "e":
        e = e + d
    elif what == "s":
        s = s + d
    sig = bb.BBSPlusSignature(A=A, e=e, s=s)
    if what == "key":
        kp.pk = bb.BBSPlusPublicKey(w=pk.w + d * pk.h0, h0=pk.h0, generators=pk.generators)
    p, _, _ = possession(env, kp, sig, ms, bind)

    def run():
        z = p.prove()
        return possession(env, kp, None, ms, bind, False)[0].verify(z)
    env.check_reject("a proof with an invalid signature is rejected", run)


@scenario("C16", "C04", cases=[dict(n=n, at=i) for n in (1, 2, 3) for i in range(n + 2)], seeds=2)
def secrets_are_bound(env, n, at):
    """Binding: e, s and every message are the secrets given; a conjunction with a statement about each of them needs the same value."""
    bb, z = env.m("primitives.bbsplus"), env.z
    kp = keypair(env, n)
    ms = messages(env, n, "scalar")
    sig, _, _, _ = issue(env, kp, ms, False)
    q = kp.h0.group.order()
    P = env.gens(1, pair(env).G1, "link")[0]
    val = ([sig.e, sig.s] + ms)[at]
    d = env.sc("d", q)

    def build(prover, lhs):
        E = [z.Secret(), z.Secret()]
        S = [z.Secret(value=m) if prover else z.Secret() for m in ms]
        st = bb.BBSPlusSignatureStmt(E + S, kp.pk, sig if prover else None, binding=True)
        return env.m("composition").AndProofStmt(st, z.DLRep(lhs, (E + S)[at] * P))
    n1 = prove(env, build(True, val * P))
    env.check_accept("accepted for the value", build(False, val * P).verify, n1)
    env.assume(d != 0)
    lhs = val * P + d * P
    env.check_reject("rejected for another one", lambda: build(False, lhs).verify(build(True, lhs).prove()))
