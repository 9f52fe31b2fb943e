"""C01, C02: completeness."""
from .registry import scenario
from .model import *
from .common import *
from . import shapes as SH

MESSAGES = ["", "m", "message é漢\U0001f600", "a" * 300, "\x00", "1"]


@scenario("C01", "C16", "C13", cases=[dict(spec=s) for s in SH.ALL + SH.BIG[10:]],
          con=[dict(spec=s) for s in SH.BIG] + [dict(spec=s, message=m) for s in SH.SOME[:3] for m in MESSAGES], seeds=4)
def nizk_verifies(env, spec, message="hello"):
    inst, p, v, d = honest(env, spec)
    n = prove(env, p, message=message)
    env.check_accept("the verifier's own statement accepts it", v.verify, n, message=message)
    env.check_accept("the prover's statement accepts it", p.verify, n, message=message)


@scenario("C01", cases=[dict(spec=s) for s in SH.SOME[:6]])
def default_and_opaque_messages(env, spec):
    inst, p, v, d = honest(env, spec)
    env.check_accept("without a message", v.verify, prove(env, p))
    msg = env.opaque_str("m")
    env.check_accept("with any message", v.verify, prove(env, p, message=msg), message=msg)
    env.check_accept("the empty message is the default", v.verify, prove(env, p, message=""))


VALS = SH.PLAIN[:16] + SH.OTHER[1:4] + [SH.NE[0], SH.NE[1], SH.NE[2], SH.NE[4]]


@scenario("C01", cases=[dict(spec=s, kind=k, how=h) for s in VALS for k in ("any", "py") for h in ("secret", "dict")],
          seeds=6)
def value_kinds(env, spec, kind, how):
    labels = sorted(set(Inst.labels_of(spec)))
    vals = {l: (env.num("n_" + l) if kind == "any" else env.pyint("p_" + l)) for l in labels}
    inst, p, v, d = honest(env, spec, how, vals)
    n = prove(env, p, d) if how == "dict" else prove(env, p)
    env.check_accept("accepted", v.verify, n)


@scenario("C01", "C13", "C16", cases=[dict(spec=s, k=k) for s in SH.SOME for k in (0, 1, -1)], seeds=1)
def special_values(env, spec, k):
    """Zero, one and minus one as Python integers for all plain secrets."""
    if "range" in repr(spec) or "p2" in repr(spec):
        labels = [l for l in sorted(set(Inst.labels_of(spec))) if l.startswith("r_")]
    else:
        labels = sorted(set(Inst.labels_of(spec)))
    labels = [l for l in labels if not l.endswith("_e")]
    inst, p, v, d = honest(env, spec, "secret", {l: k for l in labels})
    env.check_accept("accepted", v.verify, prove(env, p))


@scenario("C01", cases=[dict(spec=s) for s in [SH.PLAIN[1], SH.PLAIN[5], SH.PLAIN[14], SH.NE[2]]])
def values_from_both(env, spec):
    """Some values on the secrets, the others given to prove()."""
    inst = Inst(env, spec)
    S, d = make_secrets(env, inst, False)
    V, _ = make_secrets(env, inst, False)
    d = {}
    for i, l in enumerate(S):
        if i % 2:
            d[S[l]] = inst.vals[l]
        else:
            S[l].value = inst.vals[l]
    env.check_accept("accepted", inst.stmt(V).verify, prove(env, inst.stmt(S, True), d))


@scenario("C01", "C09", cases=[dict(spec=s) for s in [
    ("or", SH.dl("x"), SH.dl("y")), ("or", SH.dl("x"), SH.dl("y"), SH.dl("z")),
    ("or", ("and", SH.dl("x"), SH.dl("y")), SH.dl("z")), ("or", ("or", SH.dl("x"), SH.dl("y")), SH.dl("z")),
    ("or", ("ne", "x", True), SH.dl("y")), ("and", ("or", SH.dl("x"), SH.dl("y")), SH.dl("z")),
    ("or", ("ext", SH.dl("x")), ("ne", "y", False))]], seeds=4)
def only_some_values_known(env, spec):
    """An or-proof is made with the values of one disjunct only; nothing is marked as simulated."""
    inst = Inst(env, spec)

    def pick(node, known):
        if node.kind == "or":
            k = env.choose(len(node.kids), node.path)
            for i, kid in enumerate(node.kids):
                if i == k:
                    pick(kid, known)
        elif node.kids:
            for kid in node.kids:
                pick(kid, known)
        else:
            known.update(node.secret_labels())
    known = set()
    pick(inst, known)
    S = {l: env.z.Secret(value=inst.vals[l]) if l in known else env.z.Secret() for l in inst.secret_labels()}
    V, _ = make_secrets(env, inst, False)
    n = prove(env, inst.stmt(S), message="m")
    env.check_accept("accepted", inst.stmt(V).verify, n, message="m")


@scenario("C01", "C02", cases=[dict(spec=s) for s in SH.SOME])
def named_secrets(env, spec):
    inst = Inst(env, spec)
    S, _ = make_secrets(env, inst, True, names=lambda l: "p-" + l)
    V, _ = make_secrets(env, inst, False, names=lambda l: "name of %s" % l)
    p, v = inst.stmt(S, True), inst.stmt(V)
    env.check_accept("accepted", v.verify, prove(env, p))
    pr, ve = p.get_prover(), v.get_verifier()
    _, _, _, r = run_interactive(env, pr, ve)
    env.check_accept("accepted interactively", ve.verify, r)


@scenario("C02", cases=[dict(spec=s) for s in SH.ALL + SH.BIG[10:]], con=[dict(spec=s) for s in SH.BIG], seeds=4)
def interactive_verifies(env, spec):
    inst, p, v, d = honest(env, spec)
    pr, ve = p.get_prover(), v.get_verifier()
    env.check(pr is not None, "an honest prover is constructed")
    pre = pr.precommit()
    ve.process_precommitment(pre)
    com = pr.commit()
    n = len(env.draws())
    c = ve.send_challenge(com)
    new = env.draws()[n:]
    env.check(len(new) == 1, "the challenge is one fresh draw", len(new))
    env.check(new[0][1] == env.Bn(2).pow(128), "drawn from all 128-bit values")
    env.check(new[0][2] != "insecure", "drawn from secure randomness")
    env.check(c == new[0][0], "the challenge is what was drawn")
    r = pr.compute_response(c)
    env.check_accept("accepted", ve.verify, r)


@scenario("C02", "C20", cases=[dict(spec=s) for s in SH.SOME + SH.OTHER + SH.NE[:4] + SH.EXT], seeds=2)
def one_verifier_several_runs(env, spec):
    """Every challenge is a fresh draw, also of a verifier object that has sent one before."""
    inst, p, v, d = honest(env, spec)
    ve = v.get_verifier()
    for k in range(4):
        pr = p.get_prover()
        pre = pr.precommit()
        ve.process_precommitment(pre)
        com = pr.commit()
        n = len(env.draws())
        c = ve.send_challenge(com)
        new = env.draws()[n:]
        env.check(len(new) == 1 and new[0][2] != "insecure", "each challenge is one fresh draw", (k, len(new)))
        env.check(new[0][1] == env.Bn(2).pow(128), "drawn from all 128-bit values")
        env.check(c == new[0][0], "the challenge is what was drawn")
        if k == 1:
            # the same commitment again
            n = len(env.draws())
            c2 = ve.send_challenge(com)
            new = env.draws()[n:]
            env.check(len(new) == 1 and env.known(c2 == new[0][0]), "each challenge is one fresh draw", k)
            c = c2
        env.check_accept("accepted", ve.verify, pr.compute_response(c))


@scenario("C02", cases=[dict(spec=s) for s in SH.ALL], con=[dict(spec=s, edge=e) for s in SH.SOME for e in
                                                        (0, 1, (1 << 128) - 1, 1 << 127)], seeds=2)
def every_challenge(env, spec, edge=None):
    inst, p, v, d = honest(env, spec)
    c = env.num("c", 0, 1 << 128) if edge is None else env.bn(edge)
    pr, ve = p.get_prover(), v.get_verifier()
    pre, com, c2, r = run_interactive(env, pr, ve, c)
    env.check(c2 == c, "the challenge is what was drawn")
    env.check_accept("accepted", ve.verify, r)


@scenario("C02", cases=[dict(spec=s) for s in SH.SOME + SH.NE + SH.BBS[:2] + SH.EXT])
def protocol_runner(env, spec):
    inst, p, v, d = honest(env, spec)
    proto = env.m("utils.debug").SigmaProtocol(v.get_verifier(), p.get_prover())
    env.check_accept("accepted", proto.verify, verbose=False)
    proto = env.m("utils.debug").SigmaProtocol(p.get_verifier(), p.get_prover())
    env.check_accept("accepted by the prover's statement", proto.verify, verbose=False)


@scenario("C02", cases=[dict(a=a, b=b) for a, b in [
    (SH.dl("x"), SH.dl("x y")), (SH.dl("x y"), SH.dl("x x")), (SH.many(2), SH.many(2, "or")),
    (SH.many(2, "or"), SH.many(3, "or")), (("ne", "x", True), ("ne", "x", False)),
    (SH.many(2), ("and", SH.dl("x0"), SH.dl("x0"))), (("ext", SH.dl("x")), ("ext", SH.dl("x y")))]])
def commitment_for_another_statement(env, a, b):
    inst = Inst(env, a)
    S, _ = make_secrets(env, inst, True)
    other = Inst(env, b)
    V, _ = make_secrets(env, other, False)
    pr, ve = inst.stmt(S, True).get_prover(), other.stmt(V).get_verifier()
    pre = pr.precommit()
    if pre is not None:
        ve.process_precommitment(pre)
    com = pr.commit()
    env.check_raises("a commitment for another statement is refused", ve.send_challenge, com)


@scenario("C02", cases=[dict(spec=s) for s in SH.SOME])
def wrong_response_rejected(env, spec):
    """A response to another challenge is rejected."""
    inst, p, v, d = honest(env, spec)
    pr, ve = p.get_prover(), v.get_verifier()
    c, c2 = env.num("c", 0, 1 << 128), env.num("c2", 0, 1 << 128)
    env.assume(c != c2)
    pre = pr.precommit()
    ve.process_precommitment(pre)
    com = pr.commit()
    env.force_draw(c)
    ve.send_challenge(com)
    r = pr.compute_response(c2)
    for v_ in inst.vals.values():
        env.assume(env.mod(v_, inst.q) != 0)
    if inst.kind == "dl":
        # c x0 b0 + ... may vanish only if the left-hand side is neutral
        env.assume(inst.lhs != inst.group.infinite())
    env.check_reject("a response to another challenge is rejected", ve.verify, r)


@scenario("C01", "C02", cases=[dict(n=3, at=2, how="secret"), dict(n=3, at=1, how="dict")],
          con=[dict(n=n, at=at, how=h) for n in (12, 20, 40, 70, 140) for at in (0, n // 2, n - 1) for h in ("secret", "dict")], seeds=1)
def one_of_many(env, n, at, how):
    """A disjunction of any number of statements is proven with the secret of any one of them."""
    z, comp = env.z, env.m("composition")
    g, = env.gens(1, env.group(), "many")
    x = env.sc("x", env.group().order())
    Y = [env.pt("Y%d" % i) for i in range(n)]
    Y[at] = x * g

    def stmt(prover):
        S = [z.Secret() for _ in Y]
        if prover and how == "secret":
            S[at].value = x
        return comp.OrProofStmt(*[z.DLRep(y, s * g) for y, s in zip(Y, S)]), {S[at]: x} if how == "dict" and prover else {}
    p, d = stmt(True)
    v, _ = stmt(False)
    how_, nizk = env.outcome(p.prove, d, "m")
    env.check(how_ == "ok", "a proof is made", nizk if how_ != "ok" else None)
    env.check_accept("a proof is accepted", v.verify, nizk, message="m")
    p, d = stmt(True)
    pr, ve = p.get_prover(d), v.get_verifier()
    env.check(pr is not None, "there is a prover")
    ve.process_precommitment(pr.precommit())
    c = ve.send_challenge(pr.commit())
    env.check_accept("a run is accepted", ve.verify, pr.compute_response(c))
