"""C21: precommitments reach the statement that made them."""
from .registry import scenario
from .model import *
from .common import *
from . import shapes as SH

dl, bad = SH.dl, SH.bad

ROUTE = [("ext", dl("x")), ("and", ("ext", dl("x")), ("ext", dl("y"))), ("and", dl("x"), ("ext", dl("y"))),
         ("and", ("ext", dl("x")), dl("y"), ("ext", dl("z"))), ("and", dl("x"), dl("y"), ("ext", dl("z"))),
         ("and", ("and", ("ext", dl("x")), dl("y")), ("and", dl("z"), ("ext", dl("w")))), ("or", ("ext", dl("x")), ("ext", dl("y"))),
         ("or", dl("x"), ("ext", dl("y"))), ("or", ("ext", dl("x")), bad("y")), ("or", bad("u"), ("ext", bad("x")), ("ext", dl("y"))),
         ("or", ("ext", dl("x")), bad("u"), ("ext", bad("y")), bad("z")), ("and", ("or", ("ext", dl("x")), bad("y")), ("ext", dl("z"))),
         ("or", ("and", ("ext", dl("x")), dl("y"), ("ext", dl("z"))), bad("w")), ("or", bad("w"), ("and", dl("y"), ("ext", dl("x")), ("ext", dl("z")))),
         ("or", ("or", ("ext", bad("x")), ("ext", dl("y"))), ("ext", dl("z"))), ("and", ("or", bad("x"), dl("y")), ("ext", dl("z"))),
         ("and", ("ext", ("or", dl("x"), bad("y"))), ("ext", ("and", dl("z"), dl("w")))), ("or", ("and", dl("x"), dl("y")), ("ext", dl("z"))),
         ("and", ("and", dl("x"), dl("y")), ("ext", dl("z"))), ("and", ("ext", dl("x")), ("and", dl("y"), dl("z"))),
         ("or", ("or", bad("x"), dl("y")), ("ext", dl("z")))]
NONE = [s for s in SH.PLAIN + SH.OTHER] + [("or", dl("x"), dl("y")), ("or", ("and", dl("x"), dl("y")), ("or", dl("z"), dl("w")))]


def logging_ext(env, log):
    """Extended statements that note which precommitments they make and get."""
    ext = env.m("extended")

    class LoggingExt(ext.ExtendedProofStmt):
        def __init__(self, path, point, inner, S, prover, side):
            self.path, self.point, self.inner, self.S, self.prover_, self.side = path, point, inner, S, prover, side

        def precommit(self):
            p = self.point.group.order().random() * self.point
            log.append(("made", self.side, self.path, p))
            return p

        def simulate_precommit(self):
            p = self.point.group.order().random() * self.point
            log.append(("simulated", self.side, self.path, p))
            return p

        def construct_stmt(self, precommitment):
            log.append(("got", self.side, self.path, precommitment))
            return self.inner.stmt(self.S, self.prover_)

        def validate(self, precommitment, *args, **kwargs):
            log.append(("validated", self.side, self.path, precommitment))

        def is_provable(self):
            return all(self.S[l].value is not None for l in self.inner.secret_labels())
    return LoggingExt


def logged(env, inst, S, prover, side, cls):
    if inst.kind in ("and", "or"):
        ks = [logged(env, k, S, prover, side, cls) for k in inst.kids]
        if inst.kind == "or" and prover:
            for k, s in zip(inst.kids, ks):
                if not k.provable():
                    s.set_simulated()
        comp = env.m("composition")
        return (comp.AndProofStmt if inst.kind == "and" else comp.OrProofStmt)(*ks)
    if inst.kind == "ext":
        return cls(inst.path, inst.prepoint, inst.kids[0], S, prover, side)
    return inst.stmt(S, prover)


def ext_paths(inst):
    if inst.kind == "ext":
        return [inst.path]
    return [p for k in inst.kids for p in ext_paths(k)]


def at_path(inst, pre):
    """{path: precommitment} of a nested precommitment; checks its nesting."""
    if inst.kind == "ext":
        return {inst.path: pre}
    if inst.kind in ("and", "or"):
        if pre is None:
            return {p: None for p in ext_paths(inst)}
        if not isinstance(pre, (list, tuple)) or len(pre) != len(inst.kids):
            return None
        out = {}
        for k, p in zip(inst.kids, pre):
            r = at_path(k, p)
            if r is None:
                return None
            out.update(r)
        return out
    return {} if pre is None else None


def last(env, log, side, path, kinds):
    for e in reversed(log):
        if e[1] == side and e[2] == path and e[0] in kinds:
            return e[3]
    return None


@scenario("C21", cases=[dict(spec=s, how=h) for s in ROUTE for h in ("interactive", "nizk", "simulate")], seeds=2)
def routing(env, spec, how):
    log = []
    cls = logging_ext(env, log)
    inst = Inst(env, spec)
    S, _ = make_secrets(env, inst, True)
    V, _ = make_secrets(env, inst, False)
    p = logged(env, inst, S, True, "P", cls)
    v = logged(env, inst, V, False, "V", cls)
    if how == "interactive":
        pr, ve = p.get_prover(), v.get_verifier()
        pre = pr.precommit()
        ve.process_precommitment(pre)
        c = ve.send_challenge(pr.commit())
        env.check_accept("accepted", ve.verify, pr.compute_response(c))
    elif how == "nizk":
        n = prove(env, p)
        pre = n.precommitment
        env.check_accept("accepted", v.verify, n)
    else:
        t = p.simulate()
        pre = t.precommitment
        env.check_accept("consistent", v.verify_simulation_consistency, t)
    sent = at_path(inst, pre)
    env.check(sent is not None, "the precommitment has the structure of the statement", pre)
    for path in ext_paths(inst):
        made = last(env, log, "P", path, ("made", "simulated"))
        env.check(made is not None, "a precommitment is made", path)
        env.check(sent[path] is not None and made == sent[path], "the precommitment sent is the one made", path)
        env.check(last(env, log, "P", path, ("got",)) == sent[path], "the prover's statement got it", path)
        got = [e[3] for e in log if e[:3] == ("got", "V", path)]
        env.check(len(got) == 1 and got[0] == sent[path], "the verifier's statement got exactly it", path)
        val = [e[3] for e in log if e[:3] == ("validated", "V", path)]
        env.check(bool(val) and all(env.known(x == sent[path]) for x in val), "and validates it", path)
        if how == "simulate":
            env.check(not [e for e in log if e[0] == "made"], "a simulation does not use the secrets", path)


@scenario("C21", "C09", cases=[dict(spec=s) for s in NONE], seeds=1)
def no_precommitment(env, spec):
    inst, p, v, d = honest(env, spec)
    env.check(prove(env, p).precommitment is None, "a proof without extended statements has no precommitment")
    env.check(p.get_prover().precommit() is None, "nor has an interactive one")
    env.check(v.simulate().precommitment is None, "nor a simulated one")
    ve = v.get_verifier()
    pr = p.get_prover()
    pr.precommit()
    ve.process_precommitment(None)
    c = ve.send_challenge(pr.commit())
    env.check_accept("accepted", ve.verify, pr.compute_response(c))


FALSY = {"list": lambda: [], "dict": lambda: {}, "bytes": lambda: b"", "zero": lambda: 0, "tuple": lambda: (), "false": lambda: False}
EMPTY = [("ext", dl("x")), ("and", ("ext", dl("x")), dl("y")), ("and", ("ext", dl("x")), ("ext", dl("y"))), ("and", dl("y"), ("ext", dl("x"))), ("or", ("ext", dl("x")), dl("y")),
         ("or", dl("y"), ("ext", dl("x"))), ("or", ("ext", dl("x")), bad("y")), ("or", bad("y"), ("ext", dl("x"))), ("and", ("or", ("ext", dl("x")), bad("y")), dl("z")),
         ("and", ("and", ("ext", dl("x")), dl("y")), ("ext", dl("z"))), ("or", ("and", dl("x"), ("ext", dl("y"))), ("ext", bad("z")))]


def plain_ext(env, value, log):
    """An extended statement without precommitment of its own, or with one that is empty."""
    ext = env.m("extended")

    class PlainExt(ext.ExtendedProofStmt):
        def __init__(self, path, point, inner, S, prover, side):
            self.path, self.inner, self.S, self.prover_, self.side = path, inner, S, prover, side

        def construct_stmt(self, precommitment):
            log.append((self.side, self.path, precommitment))
            return self.inner.stmt(self.S, self.prover_)

        def is_provable(self):
            return all(self.S[l].value is not None for l in self.inner.secret_labels())
    if value is not None:
        PlainExt.precommit = lambda self: FALSY[value]()
        PlainExt.simulate_precommit = lambda self: FALSY[value]()
    return PlainExt


@scenario("C21", "C01", "C02", cases=[dict(spec=s, value=v) for s in EMPTY for v in [None, "list"]] +
          [dict(spec=s, value=v) for s in EMPTY[:6] for v in ("dict", "bytes", "zero", "tuple", "false")], seeds=1)
def empty_precommitments(env, spec, value):
    """Statements whose precommitment is empty (as the default one is) are treated like others."""
    inst = Inst(env, spec)

    def pair_(msg=None):
        S, _ = make_secrets(env, inst, True)
        V, _ = make_secrets(env, inst, False)
        lp, lv = [], []
        return (logged(env, inst, S, True, "P", plain_ext(env, value, lp)), logged(env, inst, V, False, "V", plain_ext(env, value, lv)), lp, lv)

    def routed(lp, lv):
        for path in ext_paths(inst):
            a, b = [e[2] for e in lp if e[1] == path], [e[2] for e in lv if e[1] == path]
            env.check(bool(a) and bool(b), "the internal statement is made on both sides", path)
            if value is not None:
                env.check(all(x == FALSY[value]() and x is not None for x in a + b), "the precommitment reaches the statement", (path, a, b))
    p, v, lp, lv = pair_()
    env.check_accept("a proof is accepted", v.verify, prove(env, p, message="m"), message="m")
    routed(lp, lv)
    p, v, lp, lv = pair_()
    pr = p.get_prover()
    env.check(pr is not None, "an honest prover is constructed")
    ve = v.get_verifier()
    r = run_interactive(env, pr, ve)[3]
    env.check_accept("an interactive run is accepted", ve.verify, r)
    routed(lp, lv)
    p, v, lp, lv = pair_()
    t = p.simulate()
    env.check_accept("a simulation is consistent", v.verify_simulation_consistency, t)
    routed(lp, lv)


def swaps(pre):
    """Exchange, drop or repeat parts of a nested precommitment."""
    out = []

    def go(x, put):
        if isinstance(x, (list, tuple)) and x:
            for i in range(len(x)):
                for j in range(i):
                    y = list(x)
                    y[i], y[j] = y[j], y[i]
                    if not (x[i] is None and x[j] is None):
                        out.append(("exchanged", put(y)))
                        if x[i] is not None:
                            y = list(x)
                            y[i] = x[j]
                            out.append(("repeated", put(y)))
                y = list(x)
                if x[i] is not None:
                    y[i] = None
                    out.append(("missing", put(y)))
                    z = list(x)
                    del z[i]
                    out.append(("cut", put(z)))
                go(x[i], lambda w, i=i, x=x: put([w if k == i else e for k, e in enumerate(x)]))
        elif isinstance(x, dict):
            for k in x:
                go(x[k], lambda w, k=k: put(dict(x, **{k: w})))
    go(pre, lambda w: w)
    if pre is not None:
        out += [("missing", None), ("missing", [])]
    return out


BAD = [("and", ("ext", dl("x")), ("ext", dl("y"))), ("and", ("ne", "x", True), ("ne", "y", True)), ("or", ("ne", "x", True), ("ne!", "y", True)),
       ("or", ("ext", dl("x")), ("ext", dl("y"))), ("and", ("and", ("ext", dl("x")), dl("y")), ("ext", dl("z"))), ("p2", 2, "x", 1), ("p2", 3, "x", 5),
       ("range", 0, 4, "x", 2), ("and", dl("x"), ("ne", "x", True)), ("ne", "x", False), ("bbs", 1, True), ("or", ("and", ("ne", "x", False), dl("y")), ("ext", dl("z"))),
       ("and", ("bbs", 1, True), ("bbs", 1, True))]


@scenario("C21", "C14", "C12", cases=[dict(spec=s) for s in BAD], seeds=2)
def disordered(env, spec):
    """A proof with exchanged, missing or repeated precommitments is rejected."""
    inst, p, v, d = honest(env, spec)
    n = prove(env, p)
    alts = swaps(n.precommitment)
    env.check(bool(alts), "there are alterations")
    for kind, pre in alts:
        if env.known(env.same(pre, n.precommitment)):
            continue
        V, _ = make_secrets(env, inst, False)
        env.check_reject("a proof with %s precommitments is rejected" % kind, inst.stmt(V).verify, copy_nizk(env, n, precommitment=pre))
    pr = p.get_prover()
    pre = pr.precommit()
    com = pr.commit()
    for kind, alt in swaps(pre):
        if env.known(env.same(alt, pre)):
            continue
        V, _ = make_secrets(env, inst, False)
        ve = inst.stmt(V).get_verifier()

        def run():
            ve.process_precommitment(alt)
            return ve.verify(pr.compute_response(ve.send_challenge(com)))
        env.check_reject("an interactive run with %s precommitments is rejected" % kind, run)


@scenario("C21", cases=[dict(spec=s) for s in [("and", ("ext", dl("x")), ("ext", dl("y"))), ("or", ("ne", "x", True), bad("y")), ("ne", "x", True),
                                              ("and", dl("x"), ("ne", "x", True))]], seeds=2)
def commit_needs_precommit(env, spec):
    """Without a precommitment there is no identity and no commitment."""
    inst, p, v, d = honest(env, spec)
    env.check_raises("no identity before the precommitment", v.prehash_statement)
    pr = p.get_prover()
    env.check_raises("no commitment before the precommitment", pr.commit)
    n = prove(env, inst.stmt(make_secrets(env, inst, True)[0], True))
    env.check_reject("a proof without precommitment is rejected", v.verify, copy_nizk(env, n, precommitment=None))


@scenario("C21", cases=[dict(spec=s) for s in ROUTE[:12] + SH.NE[2:] + SH.P2[2:3] + SH.BBS[3:]], seeds=2)
def new_precommitment_each_run(env, spec):
    """A second run of the same objects uses its own precommitment on both sides."""
    inst, p, v, d = honest(env, spec)
    pres = []
    for k in range(2):
        pr, ve = p.get_prover(), v.get_verifier()
        pre, com, c, r = run_interactive(env, pr, ve)
        env.check_accept("accepted", ve.verify, r)
        pres.append(pre)
    n = prove(env, p)
    env.check_accept("accepted", v.verify, n)
    pres.append(n.precommitment)
    for i in range(3):
        for j in range(i):
            env.check(env.not_(env.same(pres[i], pres[j])), "each run has its own precommitment")
