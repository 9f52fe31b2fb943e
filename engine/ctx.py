"""Path exploration: symbolic booleans, path conditions, decisions.

A scenario is executed again and again; each run follows one path.  `decide` is called when the code
under verification branches on a symbolic boolean.
"""
import time

from . import terms as T
from . import ro
from .terms import Poly, Lin, TRUE, FALSE, by_id, patom, const, ONE

RO = "negligible: a hash output hits a value determined by what is hashed (random oracle)"


class Unsupported(BaseException):
    """The engine cannot represent what the code does here (undecided, never a violation)."""


class Prune(BaseException):
    """The path contradicts the assumptions."""


class Refuted(BaseException):
    """An obligation does not hold on a feasible path."""

    def __init__(self, label, formula, detail=""):
        self.label, self.formula, self.detail = label, formula, detail


class BudgetExceeded(BaseException):
    pass


class Ctx:
    """State of one path."""

    def __init__(self, prefix=(), deadline=None):
        self.prefix = list(prefix)
        self.taken = []          # [(choice, number of alternatives)]
        self.path = []           # literals that hold
        self.subst = {}          # atom id -> Poly (integer equalities)
        self.psubst = []         # (base id, Lin)
        self.counter = {}
        self.forced = []
        self.lengths = False
        self.bitsums = {}
        self.draws = []          # random draws in order
        self.inputs = {}         # name -> ('int', atom) / ('pt', atom)
        self.obligations = []    # (label, backend)
        self.assumed = set()
        self.deadline = deadline
        self.solver_s = 0.0
        self.z3_calls = 0
        self.events = []
        self.facts = []          # universal formulas that hold
        self.done = set()        # their instances made so far
        self.frames = []         # generic iterations of loops: (index atom, loop)
        self.explorers = []      # local explorations: what to do about an undecided condition
        self.Rs = {}             # values of mappings whose keys may coincide

    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return "%s%d" % (name, n)

    # -- choices ----------------------------------------------------------
    def choose(self, n, why=""):
        """Nondeterministic choice among n alternatives."""
        if n <= 0:
            raise IndexError("empty choice")
        if n == 1:
            return 0
        k = len(self.taken)
        if k > 4000:
            raise Unsupported("too many decisions on one path")
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded()
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.taken.append((c, n))
        return c

    # -- formulas -----------------------------------------------------------
    def sub_poly(self, p):
        if not self.subst:
            return p
        for _ in range(8):
            hit = [a for a in p.atoms() if a in self.subst]
            if not hit:
                return p
            r = T.ZERO
            for mono, c in p.m.items():
                t = const(c)
                for a, e in mono:
                    f = self.subst.get(a)
                    f = patom(by_id(a)) if f is None else f
                    for _ in range(e):
                        t = t * f
                r = r + t
            p = r
        return p

    def deep_sub(self, p):
        """Substitute also inside residues."""
        if not self.subst and not self.lengths:
            return p
        r = T.ZERO
        for mono, c in p.m.items():
            t = const(c)
            for a, e in mono:
                at = by_id(a)
                if a in self.subst:
                    f = self.deep_sub(self.subst[a])
                elif at.kind == "mod":
                    f = T.pmod(self.deep_sub(at.args[0]), at.args[1])
                elif at.kind == "inv":
                    f = T.pinv(self.deep_sub(at.args[0]), at.args[1])
                elif at.kind in ("var", "rnd") and len(at.args) > 3:
                    f = patom(T.atom(at.kind, *at.args[:3], *[self.deep_sub(x) for x in at.args[3:]]))
                    if f.single_atom().id in self.subst:
                        f = self.deep_sub(f)
                elif at.kind == "sum":
                    f = T.mk_sum(self.deep_sub(at.args[0]), self.deep_sub(at.args[1]))
                    if f.single_atom() is not None and f.single_atom().kind == "sum":
                        v = self.all_bits(f.single_atom())
                        f = f if v is None else self.deep_sub(v)
                elif at.kind == "nbits":
                    f = self.deep_sub(at.args[0])
                    f = const(abs(f.const()).bit_length()) if f.is_const() else patom(T.atom("nbits", f))
                    if f.single_atom() is not None and f.single_atom().id in self.subst:
                        f = self.deep_sub(f)
                elif at.kind == "bit":
                    f, x = self.deep_sub(at.args[0]), self.deep_sub(at.args[1])
                    f = const(abs(f.const()) >> x.const() & 1) if f.is_const() and x.is_const() else patom(T.atom("bit", f, x))
                elif at.kind == "pow2":
                    f = T.mk_pow2(self.deep_sub(at.args[0]))
                else:
                    f = patom(at)
                for _ in range(e):
                    t = t * f
            r = r + t
        return r

    def all_bits(self, a):
        """v, if a is the sum of 2^i times the i-th bit of v over enough bits."""
        d = a.args[1]
        if len(d.m) != 1 or list(d.m.values()) != [1]:
            return None
        v = T.binary(list(d.m)[0], True)
        if v is None:
            return None
        key = (a.id, len(self.path))
        if key not in self.bitsums:
            from . import solver
            self.bitsums[key] = solver.entails(self, T.fand([
                T.fnot(T.f_lt0(v)), T.fnot(T.f_lt0(a.args[0] - patom(T.atom("nbits", v))))])) is True
        return v if self.bitsums[key] else None

    def sub_base(self, a):
        """A member of a family of points with its index rewritten."""
        idx = T.index_of(a)
        if not idx or not self.subst:
            return a
        return T.atom(*([a.kind] + [tuple(self.deep_sub(x) if isinstance(x, Poly) else x for x in y)
                                    if isinstance(y, tuple) else y for y in a.args]))

    def sub_lin(self, l):
        r = Lin({}, l.q)
        for b, p in l.c.items():
            q = T.strip_mod(self.deep_sub(p), l.q)
            if not q.is_zero():
                at = by_id(b)
                if at.kind == "lsum":
                    r = r + T.mk_lsum(self.deep_sub(at.args[0]), Lin({self.sub_base(at.args[1]).id: q}, l.q))
                else:
                    r = r + Lin({self.sub_base(at).id: q}, l.q)
        for b, repl in self.psubst:
            r = T.lin_subst(r, b, repl)
        return r

    def simplify(self, f):
        k = f[0]
        if k in ("true", "false"):
            return f
        if k == "not":
            return T.fnot(self.simplify(f[1]))
        if k == "and":
            return T.fand([self.simplify(x) for x in f[1]])
        if k == "or":
            return T.for_([self.simplify(x) for x in f[1]])
        if k == "eq0":
            f = T.f_eq0(self.deep_sub(f[1]))
            if f[0] == "eq0":
                g = hash_eq(f[1])
                if g is not None:
                    return self.simplify(g)
                g = ro.eq0(f[1])
                if g is not None:
                    self.assumed.add(RO)
                    return self.simplify(g)
                g = generic_eq0(f[1])
                if g is not None:
                    self.assumed.add("negligible: two independent random values coincide")
                    return self.simplify(g)
        elif k == "eqm":
            f = T.f_eqm(self.deep_sub(f[1]), f[2])
            if f[0] == "eqm":
                g = ro.eqm(f[1], f[2])
                if g is not None:
                    self.assumed.add(RO)
                    return self.simplify(g)
                g = generic_eqm(f[1], f[2])
                if g is not None:
                    self.assumed.add("negligible: a fresh random scalar hits a given value")
                    return self.simplify(g)
        elif k == "lt0":
            f = T.f_lt0(self.deep_sub(f[1]))
        elif k == "peq0":
            f = T.f_peq0(self.sub_lin(f[1]))
            if f[0] == "peq0":
                g = ro.peq0(f[1])
                if g is not None:
                    self.assumed.add(RO)
                    return self.simplify(g)
                g = generic_peq0(f[1])
                if g is not None:
                    self.assumed.add("negligible: a fresh random scalar hits a given value")
                    return self.simplify(g)
        elif k == "all":
            lo, hi = self.deep_sub(f[1]), self.deep_sub(f[2])
            if (lo, hi) != (f[1], f[2]):
                f = T.f_all(lo, hi, f[4], f[3])
                if f[0] != "all":
                    return self.simplify(f)
            g = T.all_at(f, patom(self.eigen(f[1], f[2])))
            n = len(self.path)
            g = self.simplify(g)
            if g[0] == "true":
                return TRUE
        if f[0] in ("and", "or", "not"):
            return self.simplify(f)
        if f in self.path:
            return TRUE
        if T.fnot(f) in self.path:
            return FALSE
        if f[0] in ("eqm", "peq0"):
            return self.congruent(f)
        return f

    def congruent(self, f):
        """f with the congruences of the path that are not substitutions (integers that are no residues)."""
        q = f[2] if f[0] == "eqm" else f[1].q
        eqs = []
        for g in self.path:
            if (g[0] == "eqm" and g[2] == q or g[0] == "eq0") and g != f:
                # the monomial of the highest degree that has a unit coefficient is rewritten
                top = max((mono for mono, c in g[1].m.items() if mono and c in (1, -1)),
                          key=lambda m: (sum(e for _, e in m), m), default=None)
                if top is not None:
                    eqs.append((top, g[1]))
        if not eqs:
            return f
        eqs.sort(key=lambda x: -sum(e for _, e in x[0]))
        if f[0] == "eqm":
            p = f[1]
            for top, g in eqs:
                p = congr_poly(p, top, g)
            h = f if p == f[1] else T.f_eqm(p, q)
        else:
            l = {}
            for b, p in f[1].c.items():
                for top, g in eqs:
                    p = congr_poly(p, top, g)
                p = T.strip_mod(p, q)
                if not p.is_zero():
                    l[b] = p
            h = f if l == f[1].c else T.f_peq0(T.Lin(l, q))
        if h == f:
            return f
        return self.simplify(h) if h[0] in ("true", "false", "and", "or", "not") else \
            TRUE if h in self.path else FALSE if T.fnot(h) in self.path else h

    def eigen(self, lo, hi):
        """A fresh index in [lo, hi)."""
        n = self.counter.get("#e", 0)
        self.counter["#e"] = n + 1
        # in a generic iteration: one for each iteration
        return T.atom("var", "#e%d" % n, lo, hi, *[patom(f[0]) for f in self.frames])

    def instantiate(self, f):
        """Instances of the universal facts at the indices in f; whether there are new ones."""
        terms = index_terms(f)
        new = False
        for fact in list(self.facts):
            for t in terms:
                key = (fact, t)
                # (an index may turn out to be in the range later)
                if key in self.done or (key, len(self.path)) in self.done:
                    continue
                self.done.add((key, len(self.path)))
                if self.in_range(t, fact[1], fact[2]):
                    self.done.add(key)
                    g = self.simplify(T.all_at(fact, t))
                    if g[0] != "true" and g not in self.path:
                        self._add(g)
                        new = True
        return new

    def in_range(self, t, lo, hi, und=None):
        a = T.f_lt0(t - lo)
        b = T.f_lt0(t - hi)
        from . import solver
        for f, want in ((a, False), (b, True)):
            if f[0] in ("true", "false"):
                if (f[0] == "true") != want:
                    return False
                continue
            r = solver.entails(self, f)
            if r is None and und is not None and f not in und:
                und.append(f)
            if r is not want:
                return False
        return True

    def add(self, f):
        """Assume f on this path."""
        f = self.simplify(f)
        self._add(f)

    def _add(self, f):
        k = f[0]
        if k == "true":
            return
        if k == "false":
            raise Prune()
        if k == "and":
            for x in f[1]:
                self.add(x)
            return
        self.path.append(f)
        if k == "all":
            self.facts.append(f)
        if k == "not" and f[1][0] == "all":
            g = f[1]
            e = patom(self.eigen(g[1], g[2]))
            self.add(T.f_lt0(g[1] - g[2]))
            self.add(T.fnot(T.all_at(g, e)))
        if k == "not" and f[1][0] == "or":
            for x in f[1][1]:
                self.add(T.fnot(x))
        if k == "lt0" or k == "not" and f[1][0] == "lt0":
            # at the end of its range
            p = f[1] if k == "lt0" else f[1][1]
            b = T.bounds(p)
            if k == "lt0" and b[0] == -1:
                self.add(T.f_eq0(p + ONE))
            if k == "not" and b[1] == 0:
                self.add(T.f_eq0(p))
            elif self.lengths and len(p.m) <= 3 and all(len(m) <= 1 for m in p.m):
                # lengths are compared as terms: equal ones have to be the same term
                from . import solver
                for e in ((p,) if k == "not" else ()) + ((p + ONE,) if k == "lt0" else ()):
                    if solver.entails(self, T.f_eq0(e)) is True:
                        self.add(T.f_eq0(e))
        if k == "eq0" and f[1].single_atom() is not None and f[1].single_atom().kind == "nbits":
            self.add(T.f_eq0(f[1].single_atom().args[0]))
        if k == "eq0" or k == "eqm":
            p = f[1]
            for mono, c in sorted(p.m.items(), key=lambda x: ranged(x[0])) if k == "eq0" else p.m.items():
                if c in (1, -1) and len(mono) == 1 and mono[0][1] == 1:
                    a = by_id(mono[0][0])
                    if a.kind in ("var", "rnd", "app", "nbits"):
                        if k == "eqm" and not (a.kind == "var" and a.args[2] == f[2]):
                            continue
                        rest = p - Poly({mono: c})
                        if a.id in self.reach(rest):
                            continue
                        r = -rest if c == 1 else rest
                        if k == "eqm":
                            r = T.pmod(r, f[2])
                        self.subst[a.id] = r
                        if self.lengths and self.cyclic():
                            del self.subst[a.id]
                            continue
                        if self.lengths and k == "eq0" and len(self.subst) < 40:
                            self.again(a.id)
                        break
        if k == "peq0":
            l = f[1]
            for b, p in sorted(l.c.items(), reverse=True):
                if p.is_const() and p.const() in (1, -1):
                    rest = Lin({x: v for x, v in l.c.items() if x != b}, l.q)
                    repl = -rest if p.const() == 1 else rest
                    self.psubst.append((b, repl))
                    break

    def again(self, i):
        """Bounds that are now known better."""
        for g in list(self.path):
            h = g[1] if g[0] == "not" else g
            if h[0] == "lt0" and i in h[1].atoms():
                x = self.simplify(g)
                if x != g and x[0] != "true" and x not in self.path:
                    self._add(x)
            elif h[0] == "peq0" and T.depends(h[1], i):
                x = T.subst_form(g, i, self.subst[i])
                if x != g and x[0] != "true" and x not in self.path:
                    self._add(x)

    def cyclic(self):
        """Whether an indexed value has become its own replacement."""
        if not any(len(by_id(i).args) > 3 for i in self.subst):
            return False
        try:
            for i in self.subst:
                self.deep_sub(patom(by_id(i)))
        except RecursionError:
            return True
        return False

    def reach(self, p, seen=None):
        """Atoms in p, also inside residues and after substitution."""
        seen = set() if seen is None else seen
        todo = [p]
        while todo:
            for i in todo.pop().atoms():
                if i in seen:
                    continue
                seen.add(i)
                at = by_id(i)
                todo.extend(x for x in at.args if isinstance(x, Poly))
                if i in self.subst:
                    todo.append(self.subst[i])
        return seen

    def entails(self, f):
        """True/False if the path decides f, else None."""
        f = self.simplify(f)
        if f[0] == "true":
            return True
        if f[0] == "false":
            return False
        if self.facts and self.instantiate(f):
            return self.entails(f)
        if f[0] == "all":
            return True if self.entails_all(f) else None
        if f[0] == "or" and any(self.entails(x) is True for x in f[1]):
            return True
        if f[0] == "and":
            r = [self.entails(x) for x in f[1]]
            if False in r:
                return False
            if None not in r:
                return True
        if f[0] == "or" and len(f[1]) <= 4:
            for i, x in enumerate(f[1]):
                n = len(self.path)
                self._lits(T.fnot(x))
                try:
                    if self.entails(T.for_([y for j, y in enumerate(f[1]) if j != i])) is True:
                        return True
                finally:
                    del self.path[n:]
        from . import solver
        if f[0] in ("peq0", "eqm") and all(
                solver.entails(self, T.f_eq0(p)) is True for p in (f[1].c.values() if f[0] == "peq0" else [f[1]])):
            return True
        return solver.entails(self, f)

    def merge_residues(self, f):
        """Residues in f that the path makes equal are substituted by one another; whether there are any."""
        at = [by_id(i) for i in sorted(all_atoms(f))]
        mods = [a for a in at if a.kind == "mod" and a.id not in self.subst]
        new = False
        for n, a in enumerate(mods):
            m = a.args[1]
            cand = mods[:n] + [b for b in at if b.kind in ("var", "rnd") and b.args[1] is not None and b.args[2] is not None]
            for b in cand:
                if b.kind == "mod":
                    y = b.args[0]
                    if b.args[1] != m or b.id in self.subst:
                        continue
                else:
                    y = patom(b)
                    if T.f_lt0(b.args[2] - m - ONE)[0] != "true" or not b.args[1].is_const() or b.args[1].const() < 0:
                        continue
                if self.simplify(T.f_eqm(a.args[0] - y, m))[0] == "true":
                    self.subst[a.id] = patom(b)
                    new = True
                    break
        return new

    def refute(self, f, depth=0, end=None):
        """Whether f contradicts the path (universal facts are instantiated at the known indices)."""
        f = self.simplify(f)
        if f[0] == "true" and depth or depth > 6:
            return False
        if alternatives(f):
            return all(self.refute(x, depth + 1, end) for x in alternatives(f))
        st = self.save()
        try:
            self.add(f)
            end = time.time() + 8 if end is None else end
            und = []
            for _ in range(3):
                del und[:]
                new = False
                for g in list(self.path):
                    if g[0] in ("eq0", "peq0", "eqm"):
                        h = self.simplify_in(g)
                        if h != g and h[0] != "true" and h not in self.path:
                            self._add(h)
                            new = True
                        h = self.at_known(g)
                        if h != g and h[0] != "true" and h not in self.path:
                            self._add(h)
                            new = True
                if not self.match(end, und) and not new:
                    break
            # alternatives that are left
            for g in list(self.path):
                if quantified(g):
                    continue
                h = self.simplify_in(g)
                if h[0] == "false":
                    return True
            from . import solver
            if solver.entails(self, FALSE) is True:
                return True
            # an index in the range of a fact or not
            for x in und[:2]:
                if depth < 4 and time.time() < end and self.refute(x, depth + 1, end) and \
                        self.refute(T.fnot(x), depth + 1, end):
                    return True
            for g in self.path[st[0]:]:
                if alternatives(g) and depth < 3:
                    if all(self.refute(x, depth + 2, end) for x in alternatives(g)):
                        return True
            return False
        except Prune:
            return True
        finally:
            self.restore(st)

    def match(self, end, und):
        """Instances of the universal facts whose members occur on the path; whether there are new ones."""
        ground = {}
        for f in self.path:
            for name, t in members(f):
                if not T.depends_bound(t) and not skolem(t):
                    ground.setdefault(name, set()).add(self.deep_sub(t))
        new = False
        for fact in list(self.facts):
            b = fact[4]
            if fact[3][0] == "or" and quantified(fact[3]):
                continue
            for name, t in list(members(fact[3])):
                off = t - patom(by_id(b))
                if T.depends(off, b) or T.depends_bound(off):
                    continue
                for g in list(ground.get(name, ())):
                    t = g - off
                    if (fact, t) in self.done or time.time() > end or len(self.path) > 300:
                        continue
                    if self.in_range(t, fact[1], fact[2], und):
                        self.done.add((fact, t))
                        x = self.simplify(T.all_at(fact, t))
                        if x[0] != "true" and x not in self.path:
                            self._add(x)
                            new = True
        return new

    def at_known(self, f):
        """f with the indices that are equal to others on this path replaced by these."""
        for name, t in list(members(f)):
            for i in t.atoms():
                if i in self.subst:
                    f = T.subst_form(f, i, self.subst[i])
        return f

    def simplify_in(self, f):
        """f under the substitutions, but not by itself."""
        i = self.path.index(f)
        del self.path[i]
        try:
            return self.simplify(f)
        finally:
            self.path.insert(i, f)

    def entails_all(self, f):
        """Whether f holds for a fresh index."""
        e = patom(self.eigen(f[1], f[2]))
        st = self.save()
        try:
            return self.entails(T.all_at(f, e)) is True
        finally:
            self.restore(st)

    def save(self):
        return (len(self.path), dict(self.subst), list(self.psubst), len(self.facts), set(self.done),
                len(self.draws), len(self.events), list(self.forced), dict(self.counter))

    def restore(self, st, counter=False):
        n, sub, ps, m, done, d, e, fo, cn = st
        self.subst, self.psubst, self.done, self.forced = dict(sub), list(ps), set(done), list(fo)
        del self.path[n:]
        del self.facts[m:]
        del self.draws[d:]
        del self.events[e:]
        if counter:
            self.counter = dict(cn)

    def _lits(self, f):
        """Append what f says to the path (without substitutions)."""
        f = self.simplify(f)
        if f[0] == "and":
            for x in f[1]:
                self._lits(x)
        elif f[0] == "not" and f[1][0] == "or":
            for x in f[1][1]:
                self._lits(T.fnot(x))
        elif f[0] != "true":
            self.path.append(f)

    def decide(self, f):
        f = self.simplify(f)
        k = f[0]
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "not":
            return not self.decide(f[1])
        if k == "and":
            for x in f[1]:
                if not self.decide(x):
                    return False
            return True
        if k == "or":
            for x in f[1]:
                if self.decide(x):
                    return True
            return False
        r = self.entails(f)
        if r is not None:
            return r
        if self.explorers and self.explorers[-1] is not None:
            self.explorers[-1](f)
        c = self.choose(2, f)
        g = f if c == 0 else T.fnot(f)
        self._add(g)
        return c == 0


def alternatives(f):
    """The formulas of which one holds if f does; empty if f is no disjunction."""
    if f[0] == "or":
        return list(f[1])
    if f[0] == "not" and f[1][0] == "and":
        return [T.fnot(x) for x in f[1][1]]
    return []


def quantified(f):
    if f[0] == "not":
        return quantified(f[1])
    return f[0] == "all" or f[0] in ("and", "or") and any(quantified(x) for x in f[1])


def skolem(t):
    """Whether a chosen index that depends on another one occurs in t."""
    for i in t.atoms():
        a = by_id(i)
        if a.kind == "var" and a.args[0].startswith("#e") and len(a.args) > 3:
            return True
        if any(skolem(x) for x in a.args if isinstance(x, Poly)):
            return True
    return False


def members(f, out=None):
    """(family, index) of the members of families in f, also in nested quantifiers."""
    out = set() if out is None else out
    if isinstance(f, Poly):
        for i in f.atoms():
            members(by_id(i), out)
    elif isinstance(f, T.Atom):
        ix = T.index_of(f)
        if len(ix) == 1:
            out.add(((f.kind, f.args[0]), ix[0]))
        if f.kind not in ("sum", "lsum"):
            for x in f.args:
                members(x, out)
    elif isinstance(f, Lin):
        for b, p in f.c.items():
            members(by_id(b), out)
            members(p, out)
    elif isinstance(f, tuple):
        for x in f:
            members(x, out)
    return out


def all_atoms(f, out=None):
    """Atoms of the polynomials in f."""
    out = set() if out is None else out
    if isinstance(f, Poly):
        out.update(f.atoms())
    elif isinstance(f, Lin):
        for p in f.c.values():
            all_atoms(p, out)
    elif isinstance(f, tuple):
        for x in f:
            all_atoms(x, out)
    return out


def index_terms(f, out=None):
    """Indices of the members of families that occur in f."""
    out = set() if out is None else out
    if isinstance(f, Poly):
        for i in f.atoms():
            a = by_id(i)
            if a.args and isinstance(a.args[0], str) and a.args[0].startswith("#"):
                out.add(patom(a))
            for t in T.index_of(a):
                if not T.depends(t, T.BOUND.id):
                    out.add(t)
            for x in a.args:
                if a.kind != "sum":
                    index_terms(x, out)
    elif isinstance(f, Lin):
        for b, p in f.c.items():
            a = by_id(b)
            if a.kind != "lsum":
                out.update(T.index_of(a))
                index_terms(p, out)
    elif isinstance(f, tuple):
        if f and f[0] == "all":
            return out
        for x in f:
            index_terms(x, out)
    elif isinstance(f, (str, bytes)):
        from . import tokens
        if "{T" in f if isinstance(f, str) else b"{T" in f:
            for x in tokens.parts(f):
                if not isinstance(x, str):
                    index_terms(x[1], out)
    return out


def has_rnd(a):
    if a.kind == "rnd":
        b = T.bounds(a.args[2])[0]
        return b is not None and b >= (1 << 100)
    if a.kind == "mod":
        # a residue of a fresh draw and something else
        b = T.bounds(a.args[1])[0]
        return b is not None and b >= (1 << 100) and any(
            by_id(i).kind == "rnd" and has_rnd(by_id(i)) and a.args[0].m.get(((i, 1),)) in (1, -1)
            for i in a.args[0].atoms())
    if a.kind == "inv":
        return any(has_rnd(by_id(x)) for x in a.args[0].atoms())
    return False


def computed(i):
    """Whether the atom stands for a value that was computed, perhaps from draws (in mappings, in loops)."""
    a = by_id(i)
    return a.kind == "var" and a.args[0].startswith(("#R", "#A")) or \
        any(computed(j) for x in a.args if isinstance(x, Poly) for j in x.atoms())


def split_rnd(p, others=()):
    out = {}
    ok = {}
    all_ = set(p.atoms()).union(*others) if others else p.atoms()
    if any(computed(i) for i in all_):
        return {}
    fam = {}
    for i in all_:
        a = by_id(i)
        if a.kind == "rnd" and len(a.args) > 3:
            fam.setdefault(a.args[0], []).append(i)
    for i in p.atoms():
        a = by_id(i)
        ok[i] = has_rnd(a)
        if ok[i] and a.kind == "rnd" and len(fam.get(a.args[0], ())) > 1:
            ok[i] = False          # two members of a family may be the same one
            continue
        if ok[i] and a.kind == "mod":
            # the draws in it occur nowhere else
            ins = {j for j in ro.leaves(a.args[0]) if by_id(j).kind == "rnd"}
            ok[i] = not any(ins & (ro.leaves(patom(by_id(j))) | {j}) for j in all_ if j != i)
    for mono, c in p.m.items():
        rp = tuple((a, e) for a, e in mono if ok[a])
        np = tuple((a, e) for a, e in mono if not ok[a])
        out[rp] = out.get(rp, T.ZERO) + Poly({np: c})
    return {k: v for k, v in out.items() if not v.is_zero()}


def generic_eqm(p, m):
    s = split_rnd(p)
    if set(s) <= {()}:
        return None
    return T.fand([T.f_eqm(v, m) for v in s.values()])


def ranged(mono):
    """Whether a monomial is a variable with a range (which a substitution would forget)."""
    a = by_id(mono[0][0]) if len(mono) == 1 else None
    return a is None or a.kind != "var" or a.args[1] is not None or a.args[2] is not None


def congr_poly(p, top, g):
    """p plus multiples of g (which is 0) such that a monomial of g vanishes."""
    one = len(top) == 1 and top[0][1] == 1
    for _ in range(4):
        if one:
            at = [m for m in p.m if any(x == top[0][0] for x, _ in m)]
        else:
            at = [top] if top in p.m else []
        if not at:
            break
        for m in at:
            t = Poly({T.div_mono(m, top) if one else (): p.m[m] * g.m[top]})
            p = p - t * g
        if one and any(x == top[0][0] for mono in g.m if mono != top for x, _ in mono):
            break
    return p


def generic_eq0(p):
    s = split_rnd(p)
    if set(s) <= {()}:
        # residues modulo something large of a random expression
        return None
    return T.fand([T.f_eq0(v) for v in s.values()])


def generic_peq0(l):
    parts = {}
    others = [p.atoms() for p in l.c.values()]
    for b, p in l.c.items():
        for rp, v in split_rnd(p, others).items():
            parts.setdefault(rp, {})[b] = v
    if set(parts) <= {()}:
        return None
    return T.fand([T.f_peq0(Lin(c, l.q)) for c in parts.values()])


def hash_eq(p):
    """Equality of two hash outputs as equality of what was hashed (collision resistance)."""
    if len(p.m) == 2 and sorted(p.m.values()) == [-1, 1]:
        at = []
        for mono in p.m:
            if len(mono) == 1 and mono[0][1] == 1 and by_id(mono[0][0]).kind == "hash":
                at.append(by_id(mono[0][0]))
        if len(at) == 2:
            from . import tokens
            return tokens.bytes_eq(at[0].args[0], at[1].args[0])
    # a hash output and a constant, or something not containing it
    return None


class SBool:
    """A symbolic boolean."""

    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return cur().decide(self.f)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return SBool(T.fand([self.f, form(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(T.for_([self.f, form(o)]))

    __ror__ = __or__

    def __invert__(self):
        raise Unsupported("~bool")

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__

    def __repr__(self):
        return repr(bool(self))


def form(x):
    if isinstance(x, SBool):
        return x.f
    return TRUE if x else FALSE


def mkbool(f):
    if f[0] == "true":
        return True
    if f[0] == "false":
        return False
    return SBool(f)


_current = [None]


def cur():
    c = _current[0]
    if c is None:
        raise RuntimeError("symbolic value used outside of a scenario")
    return c


class Result:
    def __init__(self):
        self.paths = 0
        self.obligations = 0
        self.discharged = 0
        self.by_backend = {}
        self.refuted = []       # (label, text, ctx)
        self.unsupported = []   # text
        self.assumed = set()
        self.labels = {}
        self.incomplete = None
        self.solver_s = 0.0
        self.z3_calls = 0
        self.pruned = 0


def explore(run, max_paths=2000, deadline=None, stop_after=3):
    """Run `run(ctx)` on every path.  run raises Refuted / Unsupported / Prune."""
    res = Result()
    prefix = []
    while True:
        ctx = Ctx(prefix, deadline)
        _current[0] = ctx
        try:
            try:
                run(ctx)
            except Prune:
                res.pruned += 1
            except Refuted as e:
                res.refuted.append((e.label, T.fstr(e.formula) if e.formula else e.detail, e, ctx))
            except Unsupported as e:
                res.unsupported.append(str(e))
            except BudgetExceeded:
                res.incomplete = "time budget"
        finally:
            _current[0] = None
        res.paths += 1
        for label, backend in ctx.obligations:
            res.obligations += 1
            res.discharged += 1
            res.by_backend[backend] = res.by_backend.get(backend, 0) + 1
            res.labels[label] = res.labels.get(label, 0) + 1
        res.assumed |= ctx.assumed
        res.solver_s += ctx.solver_s
        res.z3_calls += ctx.z3_calls
        if res.incomplete or len(res.refuted) >= stop_after or len(res.unsupported) >= stop_after:
            break
        # next path (depth first)
        taken = ctx.taken
        while taken and taken[-1][0] + 1 >= taken[-1][1]:
            taken.pop()
        if not taken:
            break
        prefix = [c for c, _ in taken[:-1]] + [taken[-1][0] + 1]
        if res.paths >= max_paths:
            res.incomplete = "path budget (%d)" % max_paths
            break
    res.obligations += len(res.refuted)
    return res
