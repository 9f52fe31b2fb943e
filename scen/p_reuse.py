"""C20: statements are reusable; & and |."""
import itertools

from .registry import scenario
from .model import *
from .common import *
from . import shapes as SH

dl, bad = SH.dl, SH.bad


def snapshot(env, s):
    """What a statement says (without its precommitment)."""
    n = type(s).__name__
    if hasattr(s, "subproofs"):
        return (n, tuple(snapshot(env, k) for k in s.subproofs))
    if n == "DLRep":
        return (n, s.lhs, tuple(s.bases), tuple(id(x) for x in s.secret_vars))
    return (n, id(type(s)))


def same_snapshot(env, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_snapshot(env, x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    if isinstance(a, (str, int)) or isinstance(b, (str, int)):
        return a == b
    return env.known(env.same(a, b))


def marks(s):
    return (bool(s.simulated), tuple(marks(k) for k in getattr(s, "subproofs", ())))


OPS = ["prove", "prove2", "verify", "reject", "simulate", "interactive", "andcomp", "orcomp", "simcomp", "known"]
REUSE = [dl("x y x"), ("and", dl("x"), dl("x y")), ("or", dl("x"), bad("y")), ("or", dl("x"), dl("y")),
         ("and", ("or", dl("x"), bad("y")), dl("z")), ("ne", "x", True), ("or", ("ne", "x", True), dl("y")), ("ext", dl("x")),
         ("and", ("ext", dl("x")), dl("x")), ("bbs", 1, True), ("p2", 2, "x", 1), ("range", 0, 3, "x", 2), ("dl#gt", "x")]


class Shared:
    """A statement object, used again and again, and what fresh objects say about its proofs."""

    def __init__(self, env, spec):
        self.env, self.spec = env, spec
        self.inst = Inst(env, spec)
        self.S, _ = make_secrets(env, self.inst, True)
        self.p = self.inst.stmt(self.S, True)
        V, _ = make_secrets(env, self.inst, False)
        self.v = self.inst.stmt(V)
        self.nizk = []
        self.k = 0
        self.values = {l: s.value for l, s in self.S.items()}
        self.marks = marks(self.p)
        self.snap = snapshot(env, self.p)

    def fresh(self):
        V, _ = make_secrets(self.env, self.inst, False)
        return self.inst.stmt(V)

    def extra(self, tag, good=True):
        """Another statement to compose with."""
        self.k += 1
        inst = Inst(self.env, dl("e%d" % self.k) if good else bad("e%d" % self.k), path="%s%d" % (tag, self.k))
        S, _ = make_secrets(self.env, inst, True)
        V, _ = make_secrets(self.env, inst, False)
        p = inst.stmt(S)
        if not good:
            p.set_simulated()
        return p, inst.stmt(V)

    def do(self, op):
        env = self.env
        comp = env.m("composition")
        if op in ("prove", "prove2"):
            m = "m" if op == "prove2" else ""
            n = prove(env, self.p, message=m)
            self.nizk.append((n, m))
            env.check_accept("the proof is accepted by fresh statements", self.fresh().verify, n, message=m)
        elif op == "verify":
            if not self.nizk:
                self.do("prove")
            for n, m in self.nizk:
                env.check_accept("earlier proofs are accepted again", self.v.verify, n, message=m)
                env.check_accept("by the prover's statement, too", self.p.verify, n, message=m)
        elif op == "reject":
            if not self.nizk:
                self.do("prove")
            n, m = self.nizk[-1]
            env.check_reject("another message is rejected", self.v.verify, n, message=m + "x")
            env.check_reject("a cut proof is rejected", self.v.verify, copy_nizk(env, n, responses=n.responses[:-1]), message=m)
        elif op == "simulate":
            t = self.p.simulate()
            env.check_accept("a simulation is consistent", self.fresh().verify_simulation_consistency, t)
            t = self.v.simulate()
            env.check_accept("a verifier's simulation is consistent", self.fresh().verify_simulation_consistency, t)
        elif op == "interactive":
            pr, ve = self.p.get_prover(), self.v.get_verifier()
            env.check(pr is not None, "an honest prover is constructed")
            r = run_interactive(env, pr, ve)[3]
            env.check_accept("an interactive run is accepted", ve.verify, r)
        elif op == "known":
            # the values are given again
            n = prove(env, self.p, {s: self.values[l] for l, s in self.S.items()})
            env.check_accept("accepted", self.fresh().verify, n)
        elif op == "andcomp":
            a, b = self.extra("a")
            n = prove(env, comp.AndProofStmt(self.p, a))
            env.check_accept("a conjunction with it is accepted", comp.AndProofStmt(self.fresh(), b).verify, n)
            env.check_accept("also by the verifier's object", comp.AndProofStmt(self.v, b).verify, n)
        elif op == "orcomp":
            a, b = self.extra("o", good=False)
            n = prove(env, comp.OrProofStmt(a, self.p))
            env.check_accept("a disjunction with it is accepted", comp.OrProofStmt(b, self.fresh()).verify, n)
            env.check_accept("also by the verifier's object", comp.OrProofStmt(b, self.v).verify, n)
        elif op == "simcomp":
            a, b = self.extra("s")
            o = comp.OrProofStmt(self.p, a)
            o.subproofs[0].set_simulated()
            n = prove(env, o)
            env.check_accept("a disjunction that simulates it is accepted", comp.OrProofStmt(self.fresh(), b).verify, n)
            env.check(self.p.simulated == self.marks[0], "only the copy is marked as simulated")

    def check_unchanged(self):
        env = self.env
        env.check(marks(self.p) == self.marks, "no statement is marked as simulated by its use")
        env.check(same_snapshot(env, snapshot(env, self.p), self.snap), "the statement is unchanged")
        for l, s in self.S.items():
            env.check(env.same(env.mod(s.value, self.inst.q), env.mod(self.values[l], self.inst.q)), "the secrets keep their values", l)


def seqs(n):
    return list(itertools.product(range(len(OPS)), repeat=n))


@scenario("C20", cases=[dict(spec=s, a=a) for s in REUSE for a in OPS], seeds=1)
def two_uses(env, spec, a):
    """Every operation after every other one."""
    sh = Shared(env, spec)
    sh.do(a)
    sh.do(OPS[env.choose(len(OPS), "op")])
    sh.check_unchanged()


@scenario("C20", cases=[dict(spec=s) for s in REUSE[:8]], con=[dict(spec=s, n=9) for s in REUSE + SH.BIG[:3]], seeds=2)
def many_uses(env, spec, n=None):
    """All operations one after the other (random sequences concretely)."""
    sh = Shared(env, spec)
    todo = ["prove", "simulate", "orcomp", "prove2", "verify", "simcomp", "reject", "andcomp", "interactive", "known", "verify",
            "prove"] if n is None else [OPS[env.choose(len(OPS), "op%d" % i)] for i in range(n)]
    for op in todo:
        sh.do(op)
    sh.check_unchanged()


@scenario("C20", cases=[dict(spec=s, used=u) for s in [dl("x y"), ("ne", "x", True), ("ext", dl("x")), ("and", dl("x"), ("ne", "x", True)),
                                              ("bbs", 1, True), ("p2", 2, "x", 2), ("range", 0, 2, "x", 1)] for u in (False, True)], seeds=2)
def same_object_twice(env, spec, used):
    """One object at two places of a composition."""
    comp = env.m("composition")
    sh = Shared(env, spec)
    if used:
        sh.do("prove")
    n = prove(env, comp.AndProofStmt(sh.p, sh.p))
    v = sh.fresh()
    env.check_accept("a conjunction of one object with itself", comp.AndProofStmt(v, v).verify, n)
    n = prove(env, comp.OrProofStmt(sh.p, sh.p))
    env.check_accept("a disjunction of one object with itself", comp.OrProofStmt(v, v).verify, n)
    a, b = sh.extra("b", good=False)
    n = prove(env, comp.AndProofStmt(sh.p, comp.AndProofStmt(sh.p, sh.p)))
    env.check_accept("nested", comp.AndProofStmt(v, comp.AndProofStmt(v, v)).verify, n)
    n = prove(env, comp.OrProofStmt(comp.AndProofStmt(sh.p, sh.p), a))
    env.check_accept("in a disjunction", comp.OrProofStmt(comp.AndProofStmt(v, v), b).verify, n)
    sh.check_unchanged()
    sh.do("prove")
    sh.do("simulate")


@scenario("C20", cases=[dict(spec=s) for s in [dl("x"), dl("x y x"), ("and", dl("x"), dl("x y")), ("or", dl("x"), dl("y")), ("dl#g1", "x")]], seeds=2)
def later_values_count(env, spec):
    """Values given to prove() and get_prover() replace those given before."""
    sh = Shared(env, spec)
    inst = sh.inst
    S, _ = make_secrets(env, inst, False)
    p = inst.stmt(S)
    good = {S[l]: inst.vals[l] for l in inst.secret_labels()}
    wrong = {k: v + env.num("off", 1, 1 << 64) for k, v in good.items()}
    for d, ok in ((wrong, False), (good, True), (wrong, False), (wrong, False), (good, True)):
        how, n = env.outcome(p.prove, d)
        if ok:
            env.check(how == "ok", "a proof with the right values", repr(n)[:200])
            env.check_accept("is accepted", sh.fresh().verify, n)
        elif how == "ok":
            env.check_reject("a proof with other values is not accepted", sh.fresh().verify, n)
        how, pr = env.outcome(p.get_prover, d)
        env.check(how == "ok" or not ok, "a prover with the right values", repr(pr)[:200])
        if how != "ok":
            continue
        ve = sh.fresh().get_verifier()
        how, run = env.outcome(run_interactive, env, pr, ve)
        if ok:
            env.check_accept("is believed", ve.verify, run[3])
        elif how == "ok":
            env.check_reject("one with other values is not", ve.verify, run[3])


@scenario("C20", cases=[dict(k=k) for k in range(3)], seeds=2)
def one_part_in_two_compositions(env, k):
    """Interleaved runs of two compositions that share a part."""
    comp = env.m("composition")
    spec = [dl("x y"), ("ne", "x", True), ("or", dl("x"), bad("y"))][k]
    sh = Shared(env, spec)
    a, av = sh.extra("a")
    b, bv = sh.extra("b", good=False)
    c1, c2 = comp.AndProofStmt(sh.p, a), comp.OrProofStmt(sh.p, b)
    v1, v2 = comp.AndProofStmt(sh.v, av), comp.OrProofStmt(sh.v, bv)
    p1, p2 = c1.get_prover(), c2.get_prover()
    w1, w2 = v1.get_verifier(), v2.get_verifier()
    pre1, pre2 = p1.precommit(), p2.precommit()
    w1.process_precommitment(pre1)
    w2.process_precommitment(pre2)
    m1, m2 = p1.commit(), p2.commit()
    x1, x2 = w1.send_challenge(m1), w2.send_challenge(m2)
    r2, r1 = p2.compute_response(x2), p1.compute_response(x1)
    env.check_accept("the first composition", w1.verify, r1)
    env.check_accept("the second composition", w2.verify, r2)
    sh.check_unchanged()


INTER = [dl("x y"), dl("x x"), ("and", dl("x"), dl("x y")), ("or", dl("x"), dl("y")), ("or", dl("x"), bad("y"), dl("z")), ("or", ("or", dl("x"), bad("y")), dl("z")),
         ("and", ("or", dl("x"), dl("y")), ("or", dl("z"), bad("w"))), ("or", ("and", dl("x"), dl("y x")), dl("z")), ("dl#g1", "x y"),
         ("or", ("dl#gt", "x"), ("dl#g1", "y"))]


@scenario("C20", "C02", cases=[dict(spec=s, how=h) for s in INTER for h in ("commits first", "responses reversed", "nested", "simulation", "nizk", "verify")], seeds=6)
def interleaved_runs(env, spec, how):
    """Runs of one statement object (without precommitments) do not disturb each other."""
    sh = Shared(env, spec)
    p1, w1 = sh.p.get_prover(), sh.v.get_verifier()

    def start(p, w):
        w.process_precommitment(p.precommit())
        return w.send_challenge(p.commit())
    c1 = start(p1, w1)
    if how == "simulation":
        t = sh.p.simulate()
        env.check_accept("a simulation is consistent", sh.fresh().verify_simulation_consistency, t)
        sh.v.simulate()
    elif how == "nizk":
        n = prove(env, sh.p)
        env.check_accept("a proof made meanwhile", sh.v.verify, n)
        env.check_accept("by the prover's statement", sh.p.verify, n)
    elif how == "verify":
        n = prove(env, sh.p)
        env.check_reject("a wrong proof", sh.v.verify, n, message="x")
        env.check_reject("a cut proof", sh.p.verify, copy_nizk(env, n, responses=n.responses[:-1]))
    else:
        p2, w2 = sh.p.get_prover(), sh.v.get_verifier()
        c2 = start(p2, w2)
        if how != "commits first":
            env.check_accept("the second run", w2.verify, p2.compute_response(c2))
        else:
            r1, r2 = p1.compute_response(c1), p2.compute_response(c2)
            env.check_accept("the first run", w1.verify, r1)
            env.check_accept("the second run", w2.verify, r2)
            sh.check_unchanged()
            return
        if how == "nested":
            p3, w3 = sh.p.get_prover(), sh.v.get_verifier()
            env.check_accept("a third run", w3.verify, p3.compute_response(start(p3, w3)))
    env.check_accept("the first run", w1.verify, p1.compute_response(c1))
    sh.check_unchanged()


# -- marks

@scenario("C20", cases=[dict(kind=k) for k in ("dl", "ne", "ext", "and")], seeds=2)
def marking_a_statement(env, kind):
    """Marking as simulated counts for later compositions only, and can be taken back."""
    comp = env.m("composition")
    spec = {"dl": dl("x"), "ne": ("ne", "x", True), "ext": ("ext", dl("x")), "and": ("and", dl("x"), dl("y"))}[kind]
    sh = Shared(env, spec)
    a, av = sh.extra("a")
    before = comp.OrProofStmt(sh.p, a)
    sh.p.set_simulated()
    env.check(sh.p.simulated is True, "marked")
    after = comp.OrProofStmt(sh.p, a)
    env.check(not before.subproofs[0].simulated and bool(after.subproofs[0].simulated), "compositions copy the mark")
    n = prove(env, after)
    env.check_accept("accepted", comp.OrProofStmt(sh.fresh(), av).verify, n)
    since = len(env.draws())
    n = prove(env, after)
    subs = n.responses[0]
    env.check(bool([k for k in find_draw(env, subs[0], env.Bn(2).pow(128)) if k >= since]), "the marked disjunct is simulated")
    sh.p.set_simulated(False)
    env.check(not sh.p.simulated, "not marked any more")
    env.check_accept("it can be proven again", sh.fresh().verify, prove(env, sh.p))
    env.check_accept("and in the earlier composition", comp.OrProofStmt(sh.fresh(), av).verify, prove(env, before))


# -- operators

def terms_(n):
    """All ways to combine n parts (left to right) with & and |, and explicit constructors."""
    if n == 1:
        return ["p"]
    out = []
    for k in range(1, n):
        for a in terms_(k):
            for b in terms_(n - k):
                out += [("&", a, b), ("|", a, b)]
    return out


def build_op(t, parts):
    if t == "p":
        return next(parts)
    a = build_op(t[1], parts)
    b = build_op(t[2], parts)
    return a & b if t[0] == "&" else a | b


def expect_op(t, ids):
    """Nested tuples, flattening only like into like."""
    if t == "p":
        return next(ids)
    a = expect_op(t[1], ids)
    b = expect_op(t[2], ids)
    h = {"&": "AndProofStmt", "|": "OrProofStmt"}[t[0]]
    out = []
    for x in (a, b):
        out += list(x[1:]) if isinstance(x, tuple) and x[0] == h else [x]
    return (h,) + tuple(out)


def describe(s, names):
    if hasattr(s, "subproofs"):
        return (type(s).__name__,) + tuple(describe(k, names) for k in s.subproofs)
    return names[id(s.secret_vars[0])] if type(s).__name__ == "DLRep" else names[id(s.x)]


@scenario("C20", "C07", cases=[dict(n=n, kinds=k) for n in (2, 3, 4) for k in ("d", "m") if not (n == 4 and k == "m")],
          con=[dict(n=4, kinds="m")], seeds=1)
def operators(env, n, kinds):
    z = env.z
    G = env.gens(n + 1)
    parts, names = [], {}
    for i in range(n):
        x = z.Secret(value=env.sc("x%d" % i, env.group().order()))
        names[id(x)] = "p%d" % i
        if kinds == "m" and i % 2:
            parts.append(env.m("primitives.dl_notequal").DLNotEqual((x.value * G[i], G[i]), (G[n], G[i]), x))
        else:
            parts.append(z.DLRep(x.value * G[i], x * G[i]))
    for t in terms_(n):
        s = build_op(t, iter(parts))
        want = expect_op(t, iter("p%d" % i for i in range(n)))
        env.check(describe(s, names) == want, "& and | compose exactly the given parts", (t, describe(s, names)))
    # the operands stay as they are
    a, b = parts[0] & parts[1], parts[0] | parts[1]
    da, db = describe(a, names), describe(b, names)
    for x, y in ((a, b), (b, a), (a, a), (b, b), (a, parts[0]), (parts[1], b)):
        u, w = x & y, x | y
        env.check(describe(a, names) == da and describe(b, names) == db, "the operands are unchanged")
        for c in (u, w):
            env.check(c is not a and c is not b, "a new statement is made")
            env.check(not any(p is q for p in c.subproofs for q in a.subproofs + b.subproofs + parts),
                      "the parts of a composition are copies")


@scenario("C20", cases=[dict(k=k) for k in (2, 3)], seeds=1)
def operators_prove(env, k):
    inst = Inst(env, SH.many(k))
    S, _ = make_secrets(env, inst, True)
    V, _ = make_secrets(env, inst, False)
    comp = env.m("composition")
    P, W = [x.stmt(S) for x in inst.kids], [x.stmt(V) for x in inst.kids]
    for op, cls in ((lambda a, b: a & b, comp.AndProofStmt), (lambda a, b: a | b, comp.OrProofStmt)):
        p, w = P[0], W[0]
        for a, b in zip(P[1:], W[1:]):
            p, w = op(p, a), op(w, b)
        env.check_accept("accepted by the same term", w.verify, prove(env, p))
        env.check_accept("accepted by the constructor's statement", cls(*W).verify, prove(env, p))
        env.check_accept("and the other way", w.verify, prove(env, cls(*P)))


@scenario("C20", "C04", cases=[dict(spec=s, used=u) for s in SH.EXT[:4] + SH.NE[1:3] + SH.BBS[:2] + SH.P2[2:3] for u in (False, True)], seeds=2)
def copies_are_independent(env, spec, used):
    """A shallow copy of a statement (as compositions make) shares no state of a run with it."""
    import copy
    sh = Shared(env, spec)
    if used:
        sh.do("prove")
    q = copy.copy(sh.p)
    p1, p2 = sh.p.get_prover(), q.get_prover()
    pre1 = p1.precommit()
    pre2 = p2.precommit()
    v1, v2 = sh.fresh().get_verifier(), sh.fresh().get_verifier()
    v1.process_precommitment(pre1)
    v2.process_precommitment(pre2)
    c1, c2 = v1.send_challenge(p1.commit()), v2.send_challenge(p2.commit())
    env.check_accept("the original", v1.verify, p1.compute_response(c1))
    env.check_accept("the copy", v2.verify, p2.compute_response(c2))
