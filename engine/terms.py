"""Term language of the verifier: integer polynomials over atoms, linear combinations of group
elements, boolean formulas.

Everything is kept in a canonical form, so that most obligations (ring and module identities) are
decided by normalisation; the others go to z3 (see solver.py).
"""

_atoms = {}
_atom_list = []


class Atom:
    __slots__ = ("kind", "args", "id")

    def __repr__(self):
        return "%s%r" % (self.kind, self.args)


def atom(kind, *args):
    key = (kind,) + args
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.id = kind, args, len(_atom_list)
        _atoms[key] = a
        _atom_list.append(a)
    return a


def by_id(i):
    return _atom_list[i]


class Poly:
    """Immutable polynomial: {monomial: coefficient}, monomial = ((atom id, exponent), ...)."""

    __slots__ = ("m", "_h")

    def __init__(self, m):
        self.m = m
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const(self):
        return self.m.get((), 0)

    def is_zero(self):
        return not self.m

    def atoms(self):
        s = set()
        for mono in self.m:
            for a, _ in mono:
                s.add(a)
        return s

    def single_atom(self):
        if len(self.m) == 1:
            (mono, c), = self.m.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                return by_id(mono[0][0])
        return None

    def __add__(self, o):
        r = dict(self.m)
        for k, c in o.m.items():
            v = r.get(k, 0) + c
            if v:
                r[k] = v
            else:
                r.pop(k, None)
        return Poly(r)

    def __neg__(self):
        return Poly({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = mul_mono(k1, k2)
                v = r.get(k, 0) + c1 * c2
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return Poly(r)

    def pow(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def __repr__(self):
        return pstr(self)


def mul_mono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


ZERO = Poly({})
ONE = Poly({(): 1})


def const(n):
    n = int(n)
    return Poly({(): n}) if n else ZERO


def patom(a):
    return Poly({((a.id, 1),): 1})


def var(name, lo=None, hi=None):
    """A free integer; lo/hi are inclusive/exclusive bounds (Poly or None)."""
    return patom(atom("var", name, lo, hi))


def pstr(p, depth=0):
    if not p.m:
        return "0"
    out = []
    for mono, c in sorted(p.m.items()):
        fs = []
        for a, e in mono:
            s = astr(by_id(a), depth)
            fs.append(s if e == 1 else "%s^%d" % (s, e))
        if not fs:
            out.append(str(c))
        elif c == 1:
            out.append("*".join(fs))
        elif c == -1:
            out.append("-" + "*".join(fs))
        else:
            out.append("%d*%s" % (c, "*".join(fs)))
    return " + ".join(out).replace("+ -", "- ")


def astr(a, depth=0):
    if depth > 6:
        return "..."
    if a.kind in ("var", "base", "rnd"):
        ix = index_of(a)
        return str(a.args[0]) + ("[%s]" % ",".join(pstr(x, depth + 1) for x in ix) if ix else "")
    parts = []
    for x in a.args:
        if isinstance(x, Poly):
            parts.append(pstr(x, depth + 1))
        else:
            parts.append(str(x)[:60])
    return "%s(%s)" % (a.kind, ", ".join(parts))


def index_of(a):
    """Indices of a member of a family (elements of a sequence of unknown length)."""
    if a.kind in ("var", "rnd"):
        return a.args[3:]
    if a.kind == "base" and len(a.args) > 2 and isinstance(a.args[1], tuple):
        return a.args[1]
    return ()


# ---------------------------------------------------------------------------
# bounds


BIG = 1 << 200  # group orders are assumed to be primes above this


def bounds(p, depth=0):
    """Numeric (lo, hi) inclusive bounds of a polynomial; None if unbounded/unknown."""
    lo, hi = 0, 0
    for mono, c in p.m.items():
        l, h = 1, 1
        for a, e in mono:
            al, ah = abounds(by_id(a), depth)
            for _ in range(e):
                if l is None or al is None or l < 0 or al < 0:
                    # only track products of non-negative factors
                    if l == 1 and h == 1:
                        l, h = al, ah
                    else:
                        l, h = None, None
                else:
                    l = l * al
                    h = None if h is None or ah is None else h * ah
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    return lo, hi


def abounds(a, depth=0):
    if depth > 8:
        return None, None
    k = a.kind
    if k in ("var", "rnd"):
        lo, hi = a.args[1], a.args[2]
        l = None if lo is None else bounds(lo, depth + 1)[0]
        h = None
        if hi is not None:
            h = bounds(hi, depth + 1)[1]
            h = None if h is None else h - 1
        return l, h
    if k == "order":
        return BIG, None
    if k == "mod":
        m = a.args[1]
        h = bounds(m, depth + 1)[1]
        return 0, None if h is None else h - 1
    if k == "hash":
        return 0, (1 << 512) - 1
    if k == "hslice":
        return 0, (1 << (a.args[2] - a.args[1])) - 1
    if k in ("bit",):
        return 0, 1
    if k == "nbits":
        return 0, (1 << 31) - 1            # the size of a number of OpenSSL
    if k in ("inv", "pow2", "len"):
        return (1 if k == "pow2" else 0), None
    if k == "ite":
        l1, h1 = bounds(a.args[1], depth + 1)
        l2, h2 = bounds(a.args[2], depth + 1)
        return (None if l1 is None or l2 is None else min(l1, l2),
                None if h1 is None or h2 is None else max(h1, h2))
    return None, None


# ---------------------------------------------------------------------------
# arithmetic modulo m


def strip_mod(p, m):
    """A canonical representative of p modulo m (m: Poly, an atom or a constant)."""
    ma = m.single_atom()
    mc = m.const() if m.is_const() else None
    while True:
        r = ZERO
        changed = False
        for mono, c in p.m.items():
            if mc is not None:
                c %= mc
                if c == 0:
                    changed = True
                    continue
            factors = None
            drop = False
            for idx, (aid, e) in enumerate(mono):
                a = by_id(aid)
                if ma is not None and aid == ma.id:
                    drop = True
                    break
                if a.kind == "mod" and divides(m, a.args[1]):
                    factors = (idx, a.args[0], a, e)
                    break
                if a.kind == "sum":
                    b = strip_mod(a.args[1], m)
                    if b != a.args[1]:
                        factors = (idx, mk_sum(a.args[0], b), a, e)
                        break
            if drop:
                changed = True
                continue
            if factors is not None:
                idx, repl, a, e = factors
                rest = mono[:idx] + ((a.id, e - 1),) * (e > 1) + mono[idx + 1:]
                r = r + Poly({rest: c}) * repl
                changed = True
            else:
                r = r + Poly({mono: c})
        p = r
        p2 = reduce_inv(p, m)
        if p2 is not p:
            p = p2
            continue
        if not changed:
            return p


def divides(m, n):
    """m divides n (both moduli)."""
    if m == n:
        return True
    if m.is_const() and n.is_const() and m.const():
        return n.const() % m.const() == 0
    return False


def reduce_inv(p, m):
    """Rewrite inv(e, m) * lead(e) to 1 - inv(e, m) * (e - lead(e))."""
    for mono, c in p.m.items():
        for idx, (aid, e) in enumerate(mono):
            a = by_id(aid)
            if a.kind != "inv" or a.args[1] != m:
                continue
            d = a.args[0]
            lead = max(d.m)
            lc = d.m[lead]
            if lc not in (1, -1):
                continue
            q = div_mono(mono, mul_mono(((aid, 1),), lead))
            if q is None:
                continue
            rest = p - Poly({mono: c})
            tail = d - Poly({lead: lc})
            repl = (ONE - patom(a) * tail) * Poly({q: c * lc})
            return rest + repl
    return p


def div_mono(a, b):
    d = dict(a)
    for k, e in b:
        if d.get(k, 0) < e:
            return None
        d[k] -= e
        if not d[k]:
            del d[k]
    return tuple(sorted(d.items()))


def pmod(p, m):
    """p mod m as a Poly (value in [0, m))."""
    if m.is_const() and p.is_const():
        return const(p.const() % m.const())
    p = strip_mod(p, m)
    if p.is_const() and m.is_const():
        return const(p.const() % m.const())
    lo, hi = bounds(p)
    if lo is not None and lo >= 0:
        if hi is not None:
            ml = bounds(m)[0]
            if ml is not None and hi < ml:
                return p
        a = p.single_atom()
        if a is not None and a.kind in ("rnd", "var") and a.args[2] == m:
            return p
    return patom(atom("mod", p, m))


def pinv(p, m):
    p = strip_mod(p, m)
    if p == ONE:
        return ONE
    a = p.single_atom()
    if a is not None and a.kind == "inv" and a.args[1] == m:
        return pmod(a.args[0], m)
    return patom(atom("inv", p, m))


# ---------------------------------------------------------------------------
# linear combinations of group elements: {base atom id: Poly mod order}


class Lin:
    __slots__ = ("c", "q", "_h")

    def __init__(self, c, q):
        self.c = c
        self.q = q
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.c.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.q == o.q

    def is_zero(self):
        return not self.c

    def __add__(self, o):
        r = dict(self.c)
        for b, p in o.c.items():
            if b in r:
                v = strip_mod(r[b] + p, self.q)
                if v.is_zero():
                    del r[b]
                else:
                    r[b] = v
            else:
                r[b] = p
        return Lin(r, self.q)

    def scale(self, s):
        r = {}
        for b, p in self.c.items():
            v = strip_mod(p * s, self.q)
            if not v.is_zero():
                r[b] = v
        return Lin(r, self.q)

    def __neg__(self):
        return self.scale(const(-1))

    def __sub__(self, o):
        return self + (-o)

    def __repr__(self):
        if not self.c:
            return "O"
        return " + ".join("(%s)*%s" % (pstr(p), astr(by_id(b))) for b, p in sorted(self.c.items()))


def lin_base(a, q):
    return Lin({a.id: ONE}, q)


def lin_subst(l, aid, repl):
    """Replace the base aid by the Lin repl."""
    if aid not in l.c:
        return l
    p = l.c[aid]
    rest = Lin({b: v for b, v in l.c.items() if b != aid}, l.q)
    return rest + repl.scale(p)


# ---------------------------------------------------------------------------
# substitution, and sums over sequences of unknown length
#
#   sum(n, d)     the sum of d[J := j] for 0 <= j < n; d is a monomial that contains J
#   lsum(n, b)    a base of linear combinations: the sum of coef[J := j] * b[J := j], where coef is its
#                 coefficient (both may contain J)

BOUND = atom("var", "#J", None, None)
J = patom(BOUND)

_dep = {}


def depends(x, aid):
    """Whether the atom aid occurs in x (Poly, Lin, formula, tuple, string), at any depth."""
    if isinstance(x, Poly):
        return any(a == aid or atom_depends(by_id(a), aid) for a in x.atoms())
    if isinstance(x, Atom):
        return x.id == aid or atom_depends(x, aid)
    if isinstance(x, Lin):
        return any(atom_depends(by_id(b), aid) or depends(p, aid) for b, p in x.c.items())
    if isinstance(x, tuple):
        return any(depends(y, aid) for y in x)
    if isinstance(x, (str, bytes)):
        from . import tokens
        return tokens.depends(x, aid)
    return False


def atom_depends(a, aid):
    if a.kind == "order" or a.id == aid:
        return a.id == aid
    if a.kind in ("sum", "lsum") and aid == BOUND.id:
        return depends(a.args[0], aid)
    key = (a.id, aid)
    r = _dep.get(key)
    if r is None:
        r = _dep[key] = any(depends(x, aid) for x in a.args)
    return r


_bnd = {}


def depends_bound(x):
    """Whether a bound index occurs in x."""
    if isinstance(x, Poly):
        return any(depends_bound(by_id(a)) for a in x.atoms())
    if isinstance(x, Atom):
        r = _bnd.get(x.id)
        if r is None:
            r = _bnd[x.id] = x.id == BOUND.id or x.kind == "var" and isinstance(x.args[0], str) and \
                x.args[0].startswith(("#b", "#c", "#m", "#k", "#t", "#s")) and not x.args[0].startswith("#ch") or \
                any(depends_bound(y) for y in x.args)
        return r
    if isinstance(x, tuple):
        return any(depends_bound(y) for y in x)
    return False


_sub = {}


def subst_poly(p, aid, t):
    if not depends(p, aid):
        return p
    r = ZERO
    for mono, c in p.m.items():
        x = const(c)
        for a, e in mono:
            f = subst_atom(by_id(a), aid, t)
            for _ in range(e):
                x = x * f
        r = r + x
    return r


def subst_atom(a, aid, t):
    """The atom a (as a number) with the atom aid replaced by t."""
    if a.id == aid:
        return t
    if not atom_depends(a, aid):
        return patom(a)
    key = (a.id, aid, t)
    r = _sub.get(key)
    if r is None:
        if a.kind == "sum" and aid == BOUND.id:
            args = [subst_poly(a.args[0], aid, t), a.args[1]]
        else:
            args = [subst_any(x, aid, t) for x in a.args]
        if a.kind == "mod":
            r = pmod(*args)
        elif a.kind == "inv":
            r = pinv(*args)
        elif a.kind == "sum":
            r = mk_sum(*args)
        elif a.kind == "pow2":
            r = mk_pow2(args[0])
        elif a.kind == "ite" and args[0][0] in ("true", "false"):
            r = args[1] if args[0][0] == "true" else args[2]
        else:
            r = patom(atom(a.kind, *args))
        _sub[key] = r
    return r


def subst_any(x, aid, t):
    if isinstance(x, Poly):
        return subst_poly(x, aid, t)
    if isinstance(x, Lin):
        return subst_lin(x, aid, t)
    if isinstance(x, Atom):
        return subst_base(x, aid, t)
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in FORMS:
            return subst_form(x, aid, t)
        return tuple(subst_any(y, aid, t) for y in x)
    if isinstance(x, (str, bytes)):
        from . import tokens
        return tokens.subst(x, aid, t)
    return x


def subst_base(a, aid, t):
    """A base of linear combinations with the atom aid replaced."""
    if not atom_depends(a, aid):
        return a
    return atom(a.kind, *[subst_any(x, aid, t) for x in a.args])


def subst_lin(l, aid, t):
    if not depends(l, aid):
        return l
    r = Lin({}, l.q)
    for b, p in l.c.items():
        a = by_id(b)
        if a.kind == "lsum" and aid != BOUND.id:
            n = subst_poly(a.args[0], aid, t)
            d = Lin({subst_base(a.args[1], aid, t).id: strip_mod(subst_poly(p, aid, t), l.q)}, l.q)
            r = r + mk_lsum(n, d)
        elif a.kind == "lsum":
            # J is bound in there
            r = r + Lin({b: p}, l.q)
        else:
            v = strip_mod(subst_poly(p, aid, t), l.q)
            if not v.is_zero():
                r = r + Lin({subst_base(a, aid, t).id: v}, l.q)
    return r


def mk_pow2(e):
    c = e.const()
    rest = e - const(c)
    if rest.is_zero() and c >= 0:
        return const(2 ** c)
    if c >= 0:
        return patom(atom("pow2", rest)) * const(2 ** c)
    return patom(atom("pow2", e))


def times_pow2(p, e):
    """p * 2^e"""
    r = ZERO
    for mono, c in p.m.items():
        for a, n in mono:
            if n == 1 and by_id(a).kind == "pow2":
                rest = Poly({tuple(x for x in mono if x[0] != a): c})
                r = r + rest * mk_pow2(by_id(a).args[0] + e)
                break
        else:
            r = r + Poly({mono: c}) * mk_pow2(e)
    return r


def shift_of(x):
    """The c of the first index J + c in x, else None."""
    if isinstance(x, Poly):
        if x.m.get(((BOUND.id, 1),)) == 1:
            r = x - J
            return r if not depends(r, BOUND.id) else None
        for a in sorted((by_id(i) for i in x.atoms()), key=lambda a: (a.kind, str(a.args[0]), a.id)):
            if atom_depends(a, BOUND.id):
                r = shift_of(a)
                if r is not None:
                    return r
    elif isinstance(x, Atom):
        if x.kind in ("sum", "lsum"):
            return None
        for y in x.args:
            r = shift_of(y)
            if r is not None:
                return r
    elif isinstance(x, tuple):
        for y in x:
            r = shift_of(y)
            if r is not None:
                return r
    return None


def mk_sum(n, d):
    """The sum of d[J := j] for 0 <= j < n (for negative n: minus the sum over n <= j < 0)."""
    r = ZERO
    c = n.const()
    base = n - const(c)
    if abs(c) > 64:
        base, c = n, 0
    for i in range(c):
        r = r + subst_poly(d, BOUND.id, base + const(i))
    for i in range(1, -c + 1):
        r = r - subst_poly(d, BOUND.id, base - const(i))
    if base.is_zero():
        return r
    for mono, k in d.m.items():
        ins = tuple((a, e) for a, e in mono if a == BOUND.id or atom_depends(by_id(a), BOUND.id))
        out = Poly({tuple((a, e) for a, e in mono if (a, e) not in ins): k})
        if ins:
            if any(by_id(a).kind in ("sum",) for a, _ in ins):
                raise ValueError("nested sums")
            if ins == ((BOUND.id, 1),):
                raise ValueError("sum of indices")
            if len(ins) == 1 and ins[0][1] == 1 and by_id(ins[0][0]).kind == "pow2" and by_id(ins[0][0]).args[0] == J:
                r = r + out * (mk_pow2(base) - ONE)          # 1 + 2 + ... + 2^(n-1)
                continue
            e = Poly({ins: 1})
            v = binary(ins)
            if v is not None and base == patom(atom("nbits", v)):
                r = r + out * v                              # the binary representation
                continue
            s = shift_of(e)
            if s is not None and not s.is_zero():
                e = subst_poly(e, BOUND.id, J - s)
                r = r + out * (mk_sum(base + s, e) - mk_sum(s, e))
                continue
            r = r + out * patom(atom("sum", base, Poly({ins: 1})))
        else:
            r = r + out * base
    return r


def nonneg(p):
    lo = bounds(p)[0]
    return lo is not None and lo >= 0


def binary(ins, any_sign=False):
    """v for the monomial 2^J * (bit J of v), if v is not negative."""
    if len(ins) == 2 and all(e == 1 for _, e in ins):
        for x, y in (ins, ins[::-1]):
            a, b = by_id(x[0]), by_id(y[0])
            if a.kind == "pow2" and a.args[0] == J and b.kind == "bit" and b.args[1] == J and \
                    (any_sign or nonneg(b.args[0])):
                return b.args[0]
    return None


def mk_lsum(n, d):
    """The sum of the linear combinations d[J := j] for 0 <= j < n."""
    q = d.q
    r = Lin({}, q)
    c = n.const()
    base = n - const(c)
    if abs(c) > 64:
        base, c = n, 0
    for i in range(c):
        r = r + subst_lin(d, BOUND.id, base + const(i))
    for i in range(1, -c + 1):
        r = r - subst_lin(d, BOUND.id, base - const(i))
    if base.is_zero():
        return r
    for b, p in d.c.items():
        if by_id(b).kind == "lsum":
            raise ValueError("nested sums")
        if atom_depends(by_id(b), BOUND.id):
            s = shift_of(by_id(b))
            if s is not None and not s.is_zero():
                e = subst_lin(Lin({b: p}, q), BOUND.id, J - s)
                r = r + mk_lsum(base + s, e) - mk_lsum(s, e)
                continue
            r = r + Lin({atom("lsum", base, by_id(b)).id: strip_mod(p, q)}, q)
        else:
            v = strip_mod(mk_sum(base, p), q)
            if not v.is_zero():
                r = r + Lin({b: v}, q)
    return r


# ---------------------------------------------------------------------------
# formulas (nested tuples)
#
#   ("all", lo, hi, f, i)   f[i := b] for lo <= b < hi, where i is the id of the bound atom
#   ("true",) ("false",) ("eq0", Poly) ("lt0", Poly) ("peq0", Lin)
#   ("eqm", Poly, Poly)  the first is 0 modulo the second
#   ("not", f) ("and", (f, ...)) ("or", (f, ...)) ("opq", key)

TRUE = ("true",)
FALSE = ("false",)
FORMS = ("true", "false", "eq0", "lt0", "peq0", "eqm", "not", "and", "or", "opq", "all")


def all_depth(f):
    if f[0] == "all":
        return 1 + all_depth(f[3])
    if f[0] == "not":
        return all_depth(f[1])
    if f[0] in ("and", "or"):
        return max([all_depth(x) for x in f[1]])
    return 0


def f_all(lo, hi, aid, f):
    """f for all values of the atom aid in [lo, hi)."""
    if f[0] == "true":
        return TRUE
    d = hi - lo
    if d.is_const() and d.const() <= 0:
        return TRUE
    if d.is_const() and d.const() <= 4:
        return fand([subst_form(f, aid, lo + const(i)) for i in range(d.const())])
    if f[0] == "false":
        return fnot(f_lt0(lo - hi))
    if not depends(f, aid):
        return for_([fnot(f_lt0(lo - hi)), f])
    b = atom("var", "#b%d" % all_depth(f), lo, hi)
    return ("all", lo, hi, subst_form(f, aid, patom(b)), b.id)


class binder:
    """A bound index; nested ones have different names."""

    depth = 0

    def __init__(self, lo, hi, prefix="#s"):
        self.lo, self.hi, self.prefix = lo, hi, prefix

    def __enter__(self):
        a = atom("var", "%s%d" % (self.prefix, binder.depth), self.lo, self.hi)
        binder.depth += 1
        return a

    def __exit__(self, *x):
        binder.depth -= 1


def all_at(f, t):
    """The instance of a universal formula at the index t."""
    return subst_form(f[3], f[4], t)


def subst_form(f, aid, t):
    k = f[0]
    if k in ("true", "false"):
        return f
    if not depends(f, aid):
        return f
    if k == "not":
        return fnot(subst_form(f[1], aid, t))
    if k == "and":
        return fand([subst_form(x, aid, t) for x in f[1]])
    if k == "or":
        return for_([subst_form(x, aid, t) for x in f[1]])
    if k == "eq0":
        return f_eq0(subst_poly(f[1], aid, t))
    if k == "lt0":
        return f_lt0(subst_poly(f[1], aid, t))
    if k == "eqm":
        return f_eqm(subst_poly(f[1], aid, t), subst_poly(f[2], aid, t))
    if k == "peq0":
        return f_peq0(subst_lin(f[1], aid, t))
    if k == "all":
        old = f[4]
        if old == aid:
            return f
        lo, hi = subst_poly(f[1], aid, t), subst_poly(f[2], aid, t)
        tmp = atom("var", "#c", lo, hi)
        body = subst_form(subst_form(f[3], old, patom(tmp)), aid, t)
        return f_all(lo, hi, tmp.id, body)
    return (k,) + tuple(subst_any(x, aid, t) for x in f[1:])


def fnot(f):
    if f is TRUE or f[0] == "true":
        return FALSE
    if f[0] == "false":
        return TRUE
    if f[0] == "not":
        return f[1]
    return ("not", f)


def fand(fs):
    out = []
    for f in fs:
        if f[0] == "false":
            return FALSE
        if f[0] == "true":
            continue
        if f[0] == "and":
            out.extend(x for x in f[1] if x not in out)
        elif f not in out:
            out.append(f)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def for_(fs):
    return fnot(fand([fnot(f) for f in fs])) if any(f[0] == "true" for f in fs) else _for(fs)


def _for(fs):
    out = []
    for f in fs:
        if f[0] == "false":
            continue
        if f[0] == "or":
            out.extend(x for x in f[1] if x not in out)
        elif f not in out:
            out.append(f)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def sign_norm(p):
    """(canonical associate up to sign, flipped?)"""
    if not p.m:
        return p, False
    lead = max(p.m)
    if p.m[lead] < 0:
        return -p, True
    return p, False


def f_eq0(p):
    """The integer p is 0."""
    if p.is_const():
        return TRUE if p.is_zero() else FALSE
    p, _ = sign_norm(p)
    if len(p.m) == 2 and all(len(k) == 1 and k[0][1] == 1 and by_id(k[0][0]).kind == "order" for k in p.m) \
            and sum(p.m.values()) == 0:
        return FALSE      # different curves have different orders
    common = None
    for mono in p.m:
        d = dict(mono)
        common = d if common is None else {k: min(e, d[k]) for k, e in common.items() if k in d}
    if common and (len(p.m) > 1 or len(common) > 1 or max(common.values()) > 1 or list(p.m.values())[0] != 1):
        mono = tuple(sorted(common.items()))
        rest = Poly({div_mono(k, mono): c for k, c in p.m.items()})
        return _for([f_eq0(patom(by_id(k))) for k in sorted(common)] + [f_eq0(rest)])
    # a difference of two residues for the same modulus, or a residue on its own
    if len(p.m) <= 2:
        mods = []
        ok = True
        rng = ZERO
        modulus = None
        for mono, c in p.m.items():
            if len(mono) == 1 and mono[0][1] == 1 and c in (1, -1):
                a = by_id(mono[0][0])
                if a.kind == "mod":
                    mods.append(a)
                    if modulus is not None and modulus != a.args[1]:
                        ok = False
                    modulus = a.args[1]
                    rng = rng + (a.args[0] if c == 1 else -a.args[0])
                    continue
                if a.kind in ("rnd", "var") and a.args[2] is not None and a.args[1] is not None \
                        and a.args[1].is_zero():
                    if modulus is not None and modulus != a.args[2]:
                        ok = False
                    if modulus is None:
                        modulus = a.args[2]
                    rng = rng + (patom(a) if c == 1 else -patom(a))
                    continue
            elif mono == () and len(p.m) == 2:
                # residue == constant
                rng = rng + const(c)
                continue
            ok = False
        signs = sorted(c for mono, c in p.m.items() if mono != ())
        if ok and modulus is not None and (mods or is_order(modulus)) and (signs in ([-1, 1], [1]) or signs == [-1]):
            if () in p.m:
                c = p.m[()]
                cc = -c if signs == [1] else c
                lo = bounds(modulus)[0]
                if cc < 0:
                    return FALSE
                if lo is None or cc >= lo:
                    return ("eq0", p)
            return f_eqm(rng, modulus)
    lo, hi = bounds(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    return ("eq0", p)


def is_order(m):
    a = m.single_atom()
    return a is not None and a.kind == "order"


def f_eqm(p, m):
    """p is 0 modulo m."""
    if m.is_const():
        p = strip_mod(p, m)
        if p.is_const():
            return TRUE if p.const() % m.const() == 0 else FALSE
    else:
        p = strip_mod(p, m)
        if p.is_const():
            # group orders are large primes
            if p.is_zero():
                return TRUE
            return FALSE if abs(p.const()) < BIG and is_order(m) else ("eqm", p, m)
    if is_order(m):
        p, _ = sign_norm(p)
        g = 0
        from math import gcd
        for c in p.m.values():
            g = gcd(g, c)
        if 1 < g < BIG:
            p = Poly({k: c // g for k, c in p.m.items()})
        # the order is a prime: a product is 0 iff a factor is
        common = None
        for mono in p.m:
            d = dict(mono)
            common = d if common is None else {k: min(e, d[k]) for k, e in common.items() if k in d}
        if common and (len(p.m) > 1 or len(common) > 1 or max(common.values()) > 1):
            mono = tuple(sorted(common.items()))
            rest = Poly({div_mono(k, mono): c for k, c in p.m.items()})
            fs = [f_eqm(patom(by_id(k)), m) for k in sorted(common)]
            return _for(fs + [f_eqm(rest, m)])
        a = p.single_atom()
        if a is not None and a.kind == "inv":
            return FALSE
    # too small to be a proper multiple of the modulus
    if m.is_const():
        mc = m.const()
        pb = Poly({k: (c - mc if 2 * c > mc else c) for k, c in p.m.items()})
        pb, _ = sign_norm(pb)
        p = Poly({k: c % mc for k, c in pb.m.items()})
    else:
        pb = p
    lo, hi = bounds(pb)
    if lo is not None and hi is not None:
        lim = m.const() if m.is_const() else bounds(m)[0]
        if lim is not None and -lim < lo and hi < lim:
            return f_eq0(pb)
    return ("eqm", p, m)


def f_lt0(p):
    if p.is_const():
        return TRUE if p.const() < 0 else FALSE
    lo, hi = bounds(p)
    if hi is not None and hi < 0:
        return TRUE
    if lo is not None and lo >= 0:
        return FALSE
    # residue or random number compared with its own bound: a - m < 0
    for mono, c in p.m.items():
        if len(mono) == 1 and mono[0][1] == 1 and c in (1, -1):
            a = by_id(mono[0][0])
            hi = a.args[1] if a.kind == "mod" else a.args[2] if a.kind in ("rnd", "var") else None
            if hi is not None:
                if c == 1:
                    rest = p - patom(a) + hi      # p <= rest - 1
                    h = bounds(rest)[1]
                    if h is not None and h <= 0:
                        return TRUE
                else:
                    rest = p + patom(a) - hi      # p >= rest + 1
                    l = bounds(rest)[0]
                    if l is not None and l >= -1:
                        return FALSE
    return ("lt0", p)


PAIRED = {}             # name of a base e(x, g) of GT -> (g, name of x, other arguments of x), for a generator g


def unpaired(a):
    """(g, x) for the base e(x, g), else None."""
    if a.kind == "lsum":
        r = unpaired(a.args[1])
        return r and (r[0], atom("lsum", a.args[0], r[1]))
    r = PAIRED.get(a.args[0]) if a.kind == "base" else None
    return r and (r[0], atom("base", r[1], *[x for x in a.args[1:] if isinstance(x, tuple)], *r[2]))


def hashed_pairs(l):
    """Pairs of points that were hashed to, from symbolic values."""
    h = [by_id(b).args[0] for b in l.c if by_id(b).args[0].startswith("H") and "(" in by_id(b).args[0]]
    return [(x, y) for i, x in enumerate(h) for y in h[:i] if "{T" in x or "{T" in y]


def hashed_eq(x, y):
    (f, s), (g, t) = x.split("(", 1), y.split("(", 1)
    from . import tokens
    return tokens.bytes_eq(s[:-1], t[:-1]) if f == g else FALSE


def f_peq0(l):
    """The group element l is neutral."""
    if l.is_zero():
        return TRUE
    if len(l.c) == 1:
        (b, p), = l.c.items()
        a = by_id(b)
        if a.kind == "base" and a.args[-1] == "gen":
            # a generator: neutral iff the scalar is 0 modulo the order
            return f_eqm(p, l.q)
    if all(by_id(b).kind == "base" and by_id(b).args[-1] == "gen" for b in l.c):
        # independent generators: no relation between them is known (discrete logarithms)
        zero = fand([f_eqm(p, l.q) for _, p in sorted(l.c.items())])
        same = [hashed_eq(x, y) for x, y in hashed_pairs(l)]
        if all(f[0] == "false" for f in same):
            return zero
        if len(l.c) == 2:
            p, r = l.c.values()
            return for_([fand([same[0], f_eqm(p + r, l.q)]), fand([fnot(same[0]), zero])])
    un = {b: unpaired(by_id(b)) for b in l.c}
    if None not in un.values() and len({g for g, _ in un.values()}) == 1:
        # the pairing with a generator is injective
        return f_peq0(Lin({un[b][1].id: p for b, p in l.c.items()}, l.q))
    # canonical sign
    b0 = min(l.c)
    p0, flip = sign_norm(l.c[b0])
    if flip:
        l = -l
    # scalar content
    from math import gcd
    g = 0
    for p in l.c.values():
        for c in p.m.values():
            g = gcd(g, c)
    if 1 < g < BIG:
        l = Lin({b: Poly({k: c // g for k, c in p.m.items()}) for b, p in l.c.items()}, l.q)
    # common monomial factor s: s*R = O  iff  s = 0 or R = O
    common = None
    for p in l.c.values():
        for mono in p.m:
            d = dict(mono)
            if common is None:
                common = d
            else:
                common = {k: min(e, d[k]) for k, e in common.items() if k in d}
    if common:
        mono = tuple(sorted(common.items()))
        rest = Lin({b: Poly({div_mono(k, mono): c for k, c in p.m.items()}) for b, p in l.c.items()}, l.q)
        return _for([f_peq0(rest)] + [f_eqm(patom(by_id(k)), l.q) for k, _ in mono])
    return ("peq0", l)


def fstr(f):
    k = f[0]
    if k in ("true", "false"):
        return k
    if k == "not":
        return "not(%s)" % fstr(f[1])
    if k in ("and", "or"):
        return "(" + (" %s " % k).join(fstr(x) for x in f[1]) + ")"
    if k == "eq0":
        return "%s == 0" % pstr(f[1])
    if k == "lt0":
        return "%s < 0" % pstr(f[1])
    if k == "eqm":
        return "%s == 0 mod %s" % (pstr(f[1]), pstr(f[2]))
    if k == "peq0":
        return "%r == O" % (f[1],)
    if k == "all":
        return "for all %s <= #b < %s: %s" % (pstr(f[1]), pstr(f[2]), fstr(f[3]))
    return "%s%r" % (k, tuple(str(x)[:80] for x in f[1:]))
