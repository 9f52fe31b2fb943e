"""z3 back end for order and divisibility facts on integers."""
import time

import z3

from . import terms as T
from .terms import by_id

TIMEOUT_MS = 1500


_ids = {}


def intern(f):
    return _ids.setdefault(f, len(_ids))


class Tr:
    def __init__(self):
        self.side = []
        self.seen = {}
        self.pows = []

    def poly(self, p):
        s = []
        for mono, c in p.m.items():
            t = None
            for a, e in mono:
                v = self.atom(by_id(a))
                for _ in range(e):
                    t = v if t is None else t * v
            if t is None:
                s.append(z3.IntVal(c))
            else:
                s.append(t if c == 1 else z3.IntVal(c) * t)
        if not s:
            return z3.IntVal(0)
        return z3.Sum(s) if len(s) > 1 else s[0]

    def atom(self, a):
        v = self.seen.get(a.id)
        if v is not None:
            return v
        v = z3.Int("a%d" % a.id)
        self.seen[a.id] = v
        k = a.kind
        if k in ("var", "rnd"):
            if a.args[1] is not None:
                self.side.append(v >= self.poly(a.args[1]))
            if a.args[2] is not None:
                self.side.append(v < self.poly(a.args[2]))
        elif k == "order":
            self.side.append(v >= z3.IntVal(T.BIG))
        elif k == "mod":
            m = self.poly(a.args[1])
            self.side.append(v >= 0)
            self.side.append(v < m)
            kq = z3.Int("k%d" % a.id)
            self.side.append(self.poly(a.args[0]) == kq * m + v)
        elif k == "hash":
            self.side.append(v >= 0)
            self.side.append(v < z3.IntVal(1 << 512))
        elif k == "hslice":
            self.side.append(v >= 0)
            self.side.append(v < z3.IntVal(1 << (a.args[2] - a.args[1])))
        elif k == "bit":
            self.side.append(v >= 0)
            self.side.append(v <= 1)
        elif k == "nbits":
            x = self.poly(a.args[0])
            x = z3.If(x < 0, -x, x)
            e = self.poly(T.mk_pow2(T.patom(a)))
            self.side.append(v < 1 << 31)
            self.side.append(z3.If(x == 0, v == 0, z3.And(v >= 1, x < e, 2 * x >= e)))
        elif k in ("len", "inv"):
            self.side.append(v >= 0)
        elif k == "pow2":
            e = self.poly(a.args[0])
            self.side.append(v >= 1)
            self.side.append(v >= e + 1)
            for e2, v2 in self.pows:
                self.side.append(z3.Implies(z3.And(e >= 0, e2 >= 0), z3.If(
                    e == e2, v == v2, z3.If(e < e2, 2 * v <= v2, 2 * v2 <= v))))
            self.pows.append((e, v))
        elif k == "div":
            m = self.poly(a.args[1])
            r = z3.Int("r%d" % a.id)
            x = self.poly(a.args[0])
            # truncation towards zero, as BN_div
            self.side.append(x == v * m + r)
            self.side.append(z3.If(x >= 0, z3.And(r >= 0, r < m), z3.And(r <= 0, r > -m)))
        elif k == "ite":
            self.side.append(v == z3.If(self.form(a.args[0]), self.poly(a.args[1]), self.poly(a.args[2])))
        return v

    def form(self, f):
        k = f[0]
        if k == "true":
            return z3.BoolVal(True)
        if k == "false":
            return z3.BoolVal(False)
        if k == "not":
            return z3.Not(self.form(f[1]))
        if k == "and":
            return z3.And([self.form(x) for x in f[1]])
        if k == "or":
            return z3.Or([self.form(x) for x in f[1]])
        if k == "eq0":
            return self.poly(f[1]) == 0
        if k == "lt0":
            return self.poly(f[1]) < 0
        if k == "eqm" and residue_eq(f):
            return self.poly(f[1]) == 0
        if k == "eqm" and f[2].is_const():
            return self.poly(f[1]) % z3.IntVal(f[2].const()) == 0
        if k == "eqm":
            # usable as an assumption only; as a goal it is opaque
            return z3.Bool("f%d" % intern(f))
        return z3.Bool("f%d" % intern(f))


def residue_eq(f):
    """p = 0 mod m for p = a, a - c or a - b with residues a, b modulo m: the same as p = 0."""
    p, m = f[1], f[2]
    n = []
    for mono, c in p.m.items():
        if mono == ():
            if abs(c) >= T.BIG or m.is_const():
                return False
            continue
        if len(mono) != 1 or mono[0][1] != 1 or c not in (1, -1):
            return False
        a = by_id(mono[0][0])
        if a.kind == "mod" and a.args[1] == m:
            n.append(c)
        elif a.kind in ("var", "rnd") and a.args[2] == m and a.args[1] is not None and a.args[1].is_zero():
            n.append(c)
        else:
            return False
    if () in p.m:
        # a = c has no solution in the range for negative c
        return len(n) == 1 and -p.m[()] * n[0] >= 0
    return len(n) == 1 or sorted(n) == [-1, 1]


def relevant(f):
    k = f[0]
    if k == "eqm":
        return f[2].is_const() or residue_eq(f)
    if k in ("lt0", "eq0"):
        return True
    if k == "not":
        return relevant(f[1])
    if k in ("and", "or"):
        return any(relevant(x) for x in f[1])
    return False


def entails(ctx, f):
    """True: path => f.  False: path => not f.  None: neither shown."""
    if not relevant(f) and f[0] != "false":
        return None
    t0 = time.time()
    ctx.z3_calls += 1
    try:
        tr = Tr()
        hyp = [tr.form(g) for g in ctx.path if relevant(g)]
        goal = tr.form(f)
        s = z3.Solver()
        s.set("timeout", TIMEOUT_MS)
        s.add(*hyp)
        s.add(*tr.side)
        s.push()
        s.add(z3.Not(goal))
        if s.check() == z3.unsat:
            return True
        s.pop()
        s.add(goal)
        if s.check() == z3.unsat:
            return False
        return None
    finally:
        ctx.solver_s += time.time() - t0


def infeasible(ctx, f):
    """Whether path and not f is contradictory, with congruences as multiples (a last try, slower)."""
    t0 = time.time()
    ctx.z3_calls += 1
    try:
        tr = Tr()

        def lit(g):
            if g[0] == "eqm" and not relevant(g):
                return tr.poly(g[1]) == z3.FreshInt("m") * tr.poly(g[2])
            return tr.form(g)
        hyp = [lit(g) for g in ctx.path if relevant(g) or g[0] == "eqm"]
        if relevant(f):
            hyp.append(z3.Not(tr.form(f)))
        s = z3.Solver()
        s.set("timeout", TIMEOUT_MS)
        s.add(*hyp)
        s.add(*tr.side)
        return s.check() == z3.unsat
    finally:
        ctx.solver_s += time.time() - t0


def model(ctx, extra=()):
    """Values for the integer inputs of a path: {atom id: int}, or None."""
    tr = Tr()
    s = z3.Solver()
    s.set("timeout", 3000)
    for g in list(ctx.path) + list(extra):
        if relevant(g):
            s.add(tr.form(g))
    ids = {}
    for name, (kind, a) in ctx.inputs.items():
        if kind == "int":
            ids[a.id] = tr.atom(a)
    for d in ctx.draws:
        if "atom" not in d:
            continue
        ids[d["atom"].id] = tr.atom(d["atom"])
    s.add(*tr.side)
    if s.check() != z3.sat:
        return None
    m = s.model()
    out = {}
    for i, v in ids.items():
        x = m.eval(v, model_completion=False)
        if z3.is_int_value(x):
            out[i] = x.as_long()
    # the orders are symbolic: remember the model's choice to scale values
    for i, v in tr.seen.items():
        if by_id(i).kind == "order":
            x = m.eval(v, model_completion=True)
            out[("order", by_id(i).args[0])] = x.as_long()
    return out
