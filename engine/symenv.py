"""The environment of symbolic runs."""
from . import ctx as C
from . import terms as T
from . import solver
from . import strings
from . import stubs
from .env import BaseEnv
from .loader import World


def by_contract(pr):
    """Contract of AdditivePoint.__mul__ (discharged by C18, group_operations): for every point and
    integer the result is the point times the integer.  Callers need not consider its special case."""
    body = pr.AdditivePoint.__mul__

    def mul(self, nb):
        n = stubs.Bn.from_num(nb) if isinstance(nb, (stubs.Bn, stubs.SInt, int)) and not isinstance(nb, bool) else None
        if n is None or n is NotImplemented or not isinstance(self.pt, stubs.GTElem):
            return body(self, nb)
        return pr.AdditivePoint(stubs.mkel(stubs.GTElem, self.pt.l.scale(n.p), self.pt.group), self.bp)
    pr.AdditivePoint.__mul__ = mul
    pr.AdditivePoint.__rmul__ = mul


class SymEnv(BaseEnv):
    symbolic = True
    numtypes = (stubs.Bn, stubs.SInt, int)
    boolish = C.SBool

    def __init__(self, c, transform=None, extra=None, bodies=False):
        """bodies: callers of AdditivePoint.__mul__ see its body rather than its contract."""
        self.c = c
        if transform is None:
            transform, extra = strings.transform, dict(strings.extra(), **(extra or {}))
        self.w = World(transform, extra)
        self.notes = []
        self.bodies = bodies

    def load(self, name):
        m = self.w.load(name)
        if not self.bodies and "zksk.pairings" in self.w.mods and not getattr(self, "_patched", False):
            self._patched = True
            by_contract(self.w.mods["zksk.pairings"])
        return m

    def _input(self, name, kind, a):
        self.c.inputs[name] = (kind, a)

    def sc(self, name, q):
        """A scalar in [0, q)."""
        p = T.var(name, T.ZERO, q.p)
        self._input(name, "int", p.single_atom())
        return stubs.mkbn(p)

    def num(self, name, lo=None, hi=None):
        """An integer in [lo, hi) (unbounded where None) as a big number."""
        p = T.var(name, None if lo is None else T.const(lo), None if hi is None else T.const(hi))
        self._input(name, "int", p.single_atom())
        return stubs.mkbn(p)

    def pyint(self, name, lo=1 - (1 << 32), hi=1 << 32):
        p = T.var(name, T.const(lo), T.const(hi))
        self._input(name, "int", p.single_atom())
        return stubs.mkint(p)

    def pt(self, name, group=None):
        """An arbitrary point."""
        group = group or self.group()
        kind = type(group).__name__
        a = T.atom("base", name, "pt", kind)
        if hasattr(group, "bp"):
            self._input(name, "pt", a)
            pr = self.m("pairings")
            q = group.order().p
            cls, wr = {"G1Group": (stubs.G1Elem, pr.G1Point), "G2Group": (stubs.G2Elem, pr.G2Point),
                       "GTGroup": (stubs.GTElem, pr.AdditivePoint)}[kind]
            return wr(stubs.mkel(cls, T.lin_base(a, q), group.bp.bpgp), group.bp)
        self._input(name, "pt", a)
        return stubs.mkpt(T.lin_base(a, group.q), group)

    def nears(self, p):
        """Points other than p, to try in its place."""
        G = p.group
        k = self.shared("nears", lambda: [0])
        k[0] += 1
        x, a = self.pt("near%d" % k[0], G), self.sc("nearby%d" % k[0], G.order())
        self.assume(a != 0)
        self.assume(p != G.infinite())
        return [-1 * p, G.infinite(), p + a * G.generator()]

    def choose(self, n, label=""):
        v = self.c.choose(n, label)
        d = self.__dict__.setdefault("chosen", {})
        k = 0
        while "choose:%s:%d" % (label, k) in d:
            k += 1
        d["choose:%s:%d" % (label, k)] = v
        return v

    def assume(self, cond):
        self.c.add(C.form(cond))

    def truth(self, v):
        return bool(v)

    def decide(self, cond):
        return bool(cond)

    def check(self, cond, label, detail=""):
        f = C.form(cond)
        if f[0] == "true":
            self.c.obligations.append((label, "evaluation"))
            return
        n = self.c.z3_calls
        r = self.c.entails(f)
        if r is True:
            self.c.obligations.append((label, "z3" if self.c.z3_calls > n else "normal form"))
            return
        if (self.c.facts or C.quantified(f)) and self.c.refute(T.fnot(f)):
            self.c.obligations.append((label, "instantiation"))
            return
        if self.c.merge_residues(self.c.simplify(f)) and self.c.entails(f) is True:
            self.c.obligations.append((label, "normal form"))
            return
        if solver.infeasible(self.c, f):
            self.c.obligations.append((label, "z3"))
            return
        e = C.Refuted(label, f if f[0] != "false" else None, detail)
        e.certain = r is False
        raise e

    def not_(self, cond):
        return C.mkbool(T.fnot(C.form(cond)))

    def plain(self, n):
        """The Python integer of a number that is a constant."""
        p = self.mkbn(n).p
        if not p.is_const():
            raise C.Unsupported("not a constant")
        return p.const()

    def force_draw(self, *vals):
        """The next large random draws give these values."""
        self.c.forced.extend(v.p for v in vals)

    def known(self, cond):
        """Whether the path decides the condition positively (no case split)."""
        return self.c.entails(C.form(cond)) is True

    def opaque_str(self, name):
        """An arbitrary string, different from those of other names."""
        from . import tokens
        return tokens.token("str", name)

    def note(self, text):
        self.notes.append(text)

    def draws(self):
        return [(stubs.mkbn(d["poly"]), stubs.mkbn(d["bound"]), d["how"]) for d in self.c.draws]

    def choices(self):
        return [e for e in self.c.events if e[0] == "choice"]

    def record(self, *event):
        self.c.events.append(event)
