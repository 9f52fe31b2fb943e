"""C12: inequality of discrete logarithms."""
from .registry import scenario
from .model import *
from .common import *
from . import shapes as SH

dl, bad = SH.dl, SH.bad
GROUPS = ["", "@415", "#g1", "#g2", "#gt"]


def runs_reject(env, label, p, make_v, message=""):
    """Neither a non-interactive nor an interactive run of p convinces the verifier."""
    how, n = env.outcome(p.prove, message=message)
    if how == "ok":
        env.check_reject(label + " (non-interactive)", make_v().verify, n, message=message)
    ve = make_v().get_verifier()
    pr = p.get_prover()

    def run():
        ve.process_precommitment(pr.precommit())
        return ve.verify(pr.compute_response(ve.send_challenge(pr.commit())))
    env.check_reject(label + " (interactive)", run)


@scenario("C12", "C01", "C02", cases=[dict(group=g, bind=b, kind=k) for g in GROUPS for b in (False, True) for k in ("scalar", "any")], seeds=4)
def inequality_verifies(env, group, bind, kind):
    vals = {"x": env.num("x")} if kind == "any" else None
    inst, p, v, d = honest(env, ("ne" + group, "x", bind), vals=vals)
    env.check_accept("accepted", v.verify, prove(env, p, message="m"), message="m")
    pr, ve = p.get_prover(), v.get_verifier()
    pre, com, c, r = run_interactive(env, pr, ve)
    env.check_accept("accepted interactively", ve.verify, r)
    t = v.simulate()
    env.check_accept("simulated", inst.stmt(make_secrets(env, inst, False)[0]).verify_simulation_consistency, t)


@scenario("C12", "C01", cases=[dict(bind=b, how=h) for b in (False, True) for h in ("h0=h1", "H1=O", "x=0", "H1=H0", "h1=H0")], seeds=2)
def related_points(env, bind, how):
    """Points that coincide or are neutral."""
    vals = {"x": env.bn(0)} if how == "x=0" else None
    inst = Inst(env, ("ne", "x", bind), vals)
    x = inst.val("x")
    if how == "h0=h1":
        inst.h1 = inst.h0
        inst.H1 = x * inst.h0 + env.gens(1, None, "diff")[0]
    elif how == "H1=O":
        env.assume(env.mod(x, inst.q) != 0)
        inst.H1 = inst.group.infinite()
    elif how == "H1=H0":
        env.assume(env.mod(x, inst.q) != 0)
        inst.H1 = inst.H0
    elif how == "h1=H0":
        env.assume(env.mod(x, inst.q) != 0)
        inst.h1 = inst.H0
        inst.H1 = x * inst.H0 + inst.h0
    S, _ = make_secrets(env, inst, True)
    V, _ = make_secrets(env, inst, False)
    n = prove(env, inst.stmt(S, True))
    env.check_accept("accepted", inst.stmt(V).verify, n)


@scenario("C12", "C03", cases=[dict(group=g, bind=b, wrong=w) for g in GROUPS[:3] for b in (False, True) for w in ("equal", "first", "secret", "both")], seeds=3)
def not_unequal(env, group, bind, wrong):
    """What an honest prover makes of a false statement is rejected."""
    inst = Inst(env, ("ne" + group + ("!" if wrong in ("equal", "both") else ""), "x", bind))
    d = env.sc("d", inst.q)
    env.assume(d != 0)
    S, _ = make_secrets(env, inst, True)
    if wrong in ("first", "both"):
        inst.H0 = inst.H0 + d * env.gens(1, inst.group, "diff0")[0]
    elif wrong == "secret":
        S["x"].value = (S["x"].value + d) % inst.q
    p = inst.stmt(S, True)
    runs_reject(env, "a false statement is rejected", p, lambda: inst.stmt(make_secrets(env, inst, False)[0]))


FORGE = [("ne", "x", False), ("ne", "x", True), ("ne#g1", "x", True), ("and", ("ne", "x", True), dl("x")), ("and", dl("y"), ("ne", "x", True)),
         ("and", ("and", dl("y"), ("ne", "x", False)), dl("z")), ("or", ("ne", "x", True), bad("y")), ("or", bad("y"), ("ne", "x", False)),
         ("and", ("or", bad("y"), ("ne", "x", True)), dl("z")), ("or", ("and", dl("z"), ("ne", "x", True)), bad("y")),
         ("and", ("ne", "x", True), ("ne", "y", True)), ("and", ("ne", "y", True), ("ne", "x", True)), ("or", dl("y"), ("ne", "x", True)),
         ("or", ("or", ("ne", "x", True), bad("y")), dl("z")), ("ext", ("and", dl("y"), dl("x")))]


def falsify(spec):
    if spec[0].split("#")[0] == "ne" and spec[1] == "x":
        return (spec[0] + "!",) + spec[1:]
    return tuple(falsify(s) if isinstance(s, tuple) else s for s in spec)


def ne_of(inst):
    return [i for k in inst.kids for i in ne_of(k)] + ([inst] if inst.kind == "ne" else [])


RELATED = ("h1=h0", "h1=H0", "h1=-h0", "H1=O")


def relate(inst, rel, false):
    """Points of a DL-inequality that coincide; false: such that H1 = x h1."""
    if rel is None:
        return
    x = inst.val("x")
    if rel == "H1=O":
        inst.H1 = inst.group.infinite()
        if false:
            inst.h1 = inst.group.infinite()
        return
    d = inst.H1 - x * inst.h1
    inst.h1 = {"h1=h0": inst.h0, "h1=H0": inst.H0, "h1=-h0": -1 * inst.h0}[rel]
    inst.H1 = x * inst.h1 + d


@scenario("C12", "C21", cases=[dict(spec=s, false=f, wit=w) for s in FORGE[:-1] for f in (True, False) for w in ("zero", "blinded") if f or w == "zero"]
          + [dict(spec=("ne", "x", b), false=f, wit="zero", rel=r) for b in (False, True) for f in (True, False) for r in RELATED], seeds=2)
def neutral_precommitment(env, spec, false, wit, rel=None):
    """The neutral element as a precommitment makes all equations hold with a = b = 0 (or, if H1 = x h1,
    with any multiple of (x, -1)); such a proof is rejected wherever the statement is."""
    inst = Inst(env, falsify(spec) if false else spec)
    relate(inst, rel, false)
    pre = inst.model_pre(scalars(env))
    O = [i for i in ne_of(inst) if i.label == "x"][0]
    b = env.bn(0) if wit == "zero" else env.sc("blind", O.q)
    O.internal = {O.path + ":a": (O.val("x") * b) % O.q, O.path + ":b": (-b) % O.q}

    def put(i, x):
        if i is O:
            return i.group.infinite()
        if i.kind in ("and", "or") and x is not None:
            return [put(k, y) for k, y in zip(i.kids, x)]
        return x
    pre = put(inst, pre)
    node = inst.expand(pre)
    honest_pick(node)
    w = inst.witness()

    def verifier():
        return inst.stmt(make_secrets(env, inst, False)[0])

    def opening(path, leaf):
        return [w[l] for l in leaf.labels]
    # the identity such a proof carries
    f = Forger(env, node, opening)
    ident = verifier()
    how, _ = env.outcome(ident.get_verifier().process_precommitment, pre)
    if how == "ok":
        how, n = env.outcome(f.nizk, ident, pre, "m")
        if how == "ok":
            env.check_reject("a proof with the neutral element is rejected", verifier().verify, n, message="m")
            env.check_reject("also when verified by the verifier object", lambda: ident.verify(n, message="m"))
    f = Forger(env, node, opening)
    com = f.commit()
    ve = verifier().get_verifier()

    def run():
        ve.process_precommitment(pre)
        c = ve.send_challenge((ve.stmt.prehash_statement().digest(), com))
        return ve.verify(f.respond(c))
    env.check_reject("an interactive run with the neutral element is rejected", run)


def honest_pick(node):
    """Which disjunct the forger proves: the one with an inequality."""
    def has_ne(n):
        return (n.inst is not None and n.inst.kind == "ne") or any(has_ne(k) for k in n.kids)
    for k in node.kids:
        honest_pick(k)
    if node.kind == "or":
        t = [i for i, k in enumerate(node.kids) if has_ne(k)]
        node.true = t[0] if t else node.true


@scenario("C12", "C10", cases=[dict(group=g, bind=b) for g in GROUPS for b in (False, True)], seeds=3)
def blinder(env, group, bind):
    """D = b (x h1 - H1) for a fresh uniform b of the full range, used once."""
    inst, p, v, d = honest(env, ("ne" + group, "x", bind))
    E = inst.val("x") * inst.h1 + (-1) * inst.H1
    used = []
    for k in range(3):
        if k < 2:
            pr, ve = p.get_prover(), v.get_verifier()
            before = len(env.draws())
            pre, com, c, r = run_interactive(env, pr, ve)
        else:
            before = len(env.draws())
            n = prove(env, p)
            pre, r = n.precommitment, n.responses
        hits = [i for i, (w, m, how) in enumerate(env.draws()) if how != "insecure" and i >= before and env.known(m == inst.q)
                and env.known(pre == w * E)]
        env.check(len(hits) >= 1, "the blinder is a fresh draw from [0, order)", k)
        w = env.draws()[hits[0]][0]
        others = [x for i, (x, m, how) in enumerate(env.draws()) if i not in hits and env.known(x == w)]
        env.check(not others, "of its own")
        for y in env.flat(r):
            env.check(env.not_(y % inst.q == w), "the blinder is not revealed")
            env.check(env.not_((y + w) % inst.q == 0), "the blinder is not revealed")
        used.append(w)
    for i in range(3):
        for j in range(i):
            env.check(env.not_(used[i] == used[j]), "each run has its own blinder")


@scenario("C12", "C04", cases=[dict(spec=s) for s in [("and", ("ne", "x", True), dl("x")), ("and", dl("x"), ("ne", "x", True)),
          ("and", ("ne", "x", True), ("ne", "x", True)), ("and", dl("y x"), ("and", ("ne", "x", True), dl("y")))]], seeds=3)
def bound_secret(env, spec):
    """The binding form proves the inequality for the named secret: verified with another value for it elsewhere it is rejected, and it
    uses one response for all occurrences."""
    inst, p, v, d = honest(env, spec)
    n = prove(env, p)
    env.check_accept("accepted", v.verify, n)
    pre = n.precommitment
    node = inst.expand(pre)
    rs = [r for a in walk(node, n.challenge, n.responses) for l, r in zip(a.leaf.labels, a.resp) if l == "x"]
    env.check(len(rs) >= 2, "the named secret occurs")
    for r in rs[1:]:
        env.check(r == rs[0], "one response for the named secret")


@scenario("C12", cases=[dict(bind=b, group=g, rel=r) for b in (False, True) for g in GROUPS[:3] for r in (None,) + (RELATED if g == GROUPS[0] else ())], seeds=2)
def validation(env, bind, group, rel):
    """validate() refuses exactly the neutral element."""
    inst = Inst(env, ("ne" + group, "x", bind))
    relate(inst, rel, False)
    V, _ = make_secrets(env, inst, False)
    v = inst.stmt(V)
    D = env.pt("D", inst.group)
    O = inst.group.infinite()
    env.check_raises("the neutral element is not validated", v.validate, O)
    if env.decide(env.not_(D == O)):
        how, _ = env.outcome(v.validate, D)
        env.check(how == "ok", "any other one is")
