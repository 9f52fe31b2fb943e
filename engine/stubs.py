"""Symbolic stand-ins for petlib, bplib, hashlib, secrets and random.

These are the assumed contracts of the dependencies: big numbers are the integers, elliptic curve
points form an abelian group of prime order, the pairing is bilinear, hash functions are injective,
random numbers are fresh.  Quirks of the real libraries that the code can observe are kept (see
DESIGN.md, "Assumed contracts").
"""
import types
import warnings as _warnings

from . import terms as T
from . import tokens
from .ctx import cur, mkbool, form, SBool, Unsupported
from .terms import Poly, Lin, const, atom, patom

LIMIT = (1 << 32) - 1      # what petlib converts from a Python integer


# ---------------------------------------------------------------------------
# integers


def poly_of(x):
    """Poly of a number of any kind, or None."""
    if isinstance(x, (Bn, SInt)):
        return x.p
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, int):
        return const(x)
    if isinstance(x, SBool):
        return const(int(bool(x)))
    return None


def tdiv(p, m):
    """Quotient truncated towards zero."""
    if m.is_const():
        if m.const() == 0:
            raise ZeroDivisionError("division by zero")
        if p.is_const():
            a, b = p.const(), m.const()
            q = abs(a) // abs(b)
            return const(q if (a < 0) == (b < 0) else -q)
        if m.const() == 1:
            return p
        # exact division of all coefficients
        if all(c % m.const() == 0 for c in p.m.values()):
            return Poly({k: c // m.const() for k, c in p.m.items()})
    return patom(atom("div", p, m))


def concretize(p, why):
    p = cur().deep_sub(p)
    if p.is_const():
        return p.const()
    lo, hi = T.bounds(p)
    if lo is None or hi is None or hi - lo > 40:
        raise Unsupported("a concrete integer is needed for %s (%s)" % (T.pstr(p), why))
    c = cur()
    for v in range(lo, hi):
        if c.decide(T.f_eq0(p - const(v))):
            return v
    c.add(T.f_eq0(p - const(hi)))
    return hi


class PetlibRecursion(RecursionError):
    """petlib recurses without end when a number is compared with something else."""


def num_bits_poly(p):
    p = cur().deep_sub(p)
    if p.is_const():
        return const(abs(p.const()).bit_length())
    return patom(atom("nbits", p))


def bit_poly(p, i):
    if p.is_const() and i.is_const():
        return const((abs(p.const()) >> i.const()) & 1)
    return patom(atom("bit", p, i))


class _Num:
    __slots__ = ("p",)

    def _cmp(self, o, mk):
        q = self._other(o)
        if q is None:
            return self._badcmp(o)
        return mkbool(mk(self.p - q))

    def __lt__(self, o):
        return self._cmp(o, T.f_lt0)

    def __ge__(self, o):
        return self._cmp(o, lambda d: T.fnot(T.f_lt0(d)))

    def __gt__(self, o):
        return self._cmp(o, lambda d: T.f_lt0(-d))

    def __le__(self, o):
        return self._cmp(o, lambda d: T.fnot(T.f_lt0(-d)))

    def __eq__(self, o):
        q = self._other(o)
        if q is None:
            return self._badeq(o)
        return mkbool(T.f_eq0(self.p - q))

    def __ne__(self, o):
        q = self._other(o)
        if q is None:
            return self._badne(o)
        return mkbool(T.fnot(T.f_eq0(self.p - q)))

    def __hash__(self):
        return hash(self.p) if not self.p.is_const() else hash(self.p.const())

    def __bool__(self):
        return not cur().decide(T.f_eq0(self.p))

    def __index__(self):
        return concretize(self.p, "index")

    def __int__(self):
        return concretize(self.p, "int")

    def __repr__(self):
        if self.p.is_const():
            return str(self.p.const())
        return tokens.token("dec", cur().deep_sub(self.p))

    __str__ = __repr__

    def __format__(self, spec):
        if self.p.is_const():
            return format(self.p.const(), spec)
        if spec in ("", "d"):
            return repr(self)
        return tokens.token("dec" + spec, self.p)


class SInt(_Num):
    """A symbolic Python integer."""

    def __init__(self, p):
        self.p = p

    def _other(self, o):
        if isinstance(o, Bn):
            return None
        return poly_of(o)

    def _badcmp(self, o):
        return NotImplemented

    _badeq = _badne = _badcmp

    def _bin(self, o, f):
        q = self._other(o)
        if q is None:
            return NotImplemented
        return mkint(f(self.p, q))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * concretize(self.p, "repetition")
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.p)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if bool(self < 0) else self

    def __mod__(self, o):
        return self._bin(o, T.pmod)

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return self._bin(o, lambda a, b: T.pmod(b, a))

    def __floordiv__(self, o):
        q = self._other(o)
        if q is None:
            return NotImplemented
        return mkint(tdiv(self.p - T.pmod(self.p, q), q))

    def __rfloordiv__(self, o):
        return SInt(poly_of(o)) // self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        q = poly_of(o)
        if q is not None and q.is_const() and 0 <= q.const() < 64:
            r = self.p.pow(q.const())
            return mkint(r if m is None else T.pmod(r, poly_of(m)))
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        q = poly_of(o)
        if self.p.is_const():
            return mkint(q.pow(self.p.const()))
        return mkint(power(q, self.p))

    def __lshift__(self, o):
        return self * (2 ** o)

    def __rlshift__(self, o):
        return o * (2 ** self)

    def __rshift__(self, o):
        return self // (2 ** o)

    def __and__(self, o):
        q = poly_of(o)
        if q is not None and q.is_const():
            n = q.const() + 1
            if n & (n - 1) == 0 and n > 0:
                return mkint(T.pmod(self.p, const(n)))
        raise Unsupported("symbolic &")

    __rand__ = __and__

    def __truediv__(self, o):
        raise Unsupported("float division")

    def __float__(self):
        raise Unsupported("float")

    def bit_length(self):
        return mkint(num_bits_poly(self.p))

    def to_bytes(self, *a, **k):
        return tokens.btoken("intbytes", (self.p,) + a)


def mkint(p):
    return p.const() if p.is_const() else SInt(p)


def power(b, e):
    if b.is_const() and b.const() == 2:
        # 2^(a + c) = 2^c * 2^a
        if e.const() >= 0:
            return T.mk_pow2(e)
    raise Unsupported("symbolic power")


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SInt)) and not False

    def __call__(cls, x=0, *base):
        if isinstance(x, SInt):
            return x
        if isinstance(x, Bn):
            return mkint(x.p)
        if isinstance(x, SBool):
            return int(bool(x))
        if isinstance(x, (str, bytes)) and not base or base == (10,):
            v = tokens.lookup(x) if isinstance(x, (str, bytes)) else None
            if v is not None and v[0] == "dec":
                return mkint(v[1])
        if isinstance(x, (str, bytes)) and base == (16,):
            v = tokens.lookup(x)
            if v is not None:
                return mkint(hex_value(v))
        return int(x, *base)

    def from_bytes(cls, b, order="big", **k):
        v = tokens.lookup(b)
        if v is not None and order == "big":
            return mkint(bin_value(v))
        if v is not None:
            raise Unsupported("little-endian")
        return int.from_bytes(b, order, **k)


class int_(metaclass=_IntMeta):
    pass


def hash_atom(content, lo=0, hi=None):
    n = 8 * DIGEST.get(content.split(b":")[0].decode(), 32)
    if hi is None:
        hi = n
    return patom(atom("hash", content) if (lo, hi) == (0, n) else
                 atom("hslice", content, lo, hi))


def hex_value(v):
    if v[0] == "hexdigest":
        return hash_atom(v[1])
    if v[0] == "hex":
        return v[1]
    if v[0] == "hexslice":
        return hash_atom(v[1][0], 4 * v[1][1], 4 * v[1][2])
    raise Unsupported("hex of %r" % (v[0],))


def bin_value(v):
    if v[0] == "digest":
        return hash_atom(v[1])
    if v[0] == "bin":
        return v[1]
    if v[0] == "binslice":
        return hash_atom(v[1][0], 8 * v[1][1], 8 * v[1][2])
    if v[0] == "rndbytes":
        return patom(v[1])
    raise Unsupported("integer from %r" % (v[0],))


class Bn(_Num):
    def __init__(self, num=0):
        if isinstance(num, Bn):
            if bool(num == 0):
                self.p = T.ZERO
                return
            raise TypeError("bad operand type for abs(): 'Bn'")
        if isinstance(num, SInt):
            if not (cur().decide(T.f_lt0(num.p - const(LIMIT + 1)))
                    and cur().decide(T.f_lt0(const(-LIMIT - 1) - num.p))):
                raise OverflowError("integer does not fit '32-bit unsigned int'")
            self.p = num.p
            return
        if isinstance(num, SBool):
            num = bool(num)
        if num == 0:
            self.p = T.ZERO
            return
        if not isinstance(num, int):
            raise TypeError("not an integer")
        if not abs(num) <= LIMIT:
            raise OverflowError("integer %d does not fit '32-bit unsigned int'" % num)
        self.p = const(num)

    @staticmethod
    def from_num(x):
        if isinstance(x, Bn):
            return x
        if isinstance(x, (int, SInt, SBool)):
            return Bn(x)
        return NotImplemented

    @staticmethod
    def from_decimal(s):
        v = tokens.lookup(s)
        if v is not None:
            if v[0] == "dec":
                return mkbn(v[1])
            raise Unsupported("decimal of %s" % v[0])
        return mkbn(const(int(s)))

    @staticmethod
    def from_hex(s):
        neg = s.startswith("-")
        v = tokens.lookup(s[1:] if neg else s)
        if v is not None:
            p = hex_value(v)
            return mkbn(-p if neg else p)
        if tokens.RX.search(s):
            raise Unsupported("from_hex of a part of a symbolic string")
        return mkbn(const(int(s, 16)))

    @staticmethod
    def from_binary(b):
        v = tokens.lookup(b)
        if v is not None:
            return mkbn(bin_value(v))
        if tokens.RX.search(bytes(b).decode("latin-1")):
            raise Unsupported("from_binary of a part of a symbolic string")
        return mkbn(const(int.from_bytes(b, "big")))

    def _other(self, o):
        if isinstance(o, Bn):
            return o.p
        if isinstance(o, (int, SInt, SBool)):
            return Bn(o).p
        return None

    def _badcmp(self, o):
        raise PetlibRecursion("maximum recursion depth exceeded")   # what petlib does

    _badeq = _badne = _badcmp

    def _bin(self, o, f):
        q = self._other(o)
        if q is None:
            if isinstance(o, (EcPt,)) or not hasattr(o, "__dict__") is None:
                return NotImplemented
            return NotImplemented
        return mkbn(f(self.p, q))

    def __add__(self, o):
        q = self._other(o)
        if q is None:
            raise PetlibRecursion("maximum recursion depth exceeded")
        return mkbn(self.p + q)

    __radd__ = __add__
    int_add = __add__

    def __sub__(self, o):
        q = self._other(o)
        if q is None:
            raise PetlibRecursion("maximum recursion depth exceeded")
        return mkbn(self.p - q)

    int_sub = __sub__

    def __rsub__(self, o):
        return Bn(o) - self

    def __mul__(self, o):
        q = self._other(o)
        if q is None:
            return NotImplemented
        return mkbn(self.p * q)

    __rmul__ = __mul__
    int_mul = __mul__

    def __neg__(self):
        return mkbn(-self.p)

    int_neg = __neg__

    def __mod__(self, o):
        if not isinstance(o, Bn):
            return None               # petlib drops the result
        if o.p.is_zero():
            raise Exception("BN exception")
        return mkbn(T.pmod(self.p, o.p))

    mod = __mod__

    def __rmod__(self, o):
        return Bn(o) % self

    def __truediv__(self, o):
        return mkbn(tdiv(self.p, self._other(o)))

    __floordiv__ = __truediv__
    int_div = __truediv__

    def __rtruediv__(self, o):
        return Bn(o) / self

    __rfloordiv__ = __rtruediv__

    def __divmod__(self, o):
        q = tdiv(self.p, self._other(o))
        return mkbn(q), mkbn(self.p - q * self._other(o))

    divmod = __divmod__

    def mod_add(self, o, m):
        return mkbn(T.pmod(self.p + Bn.from_num(o).p, Bn.from_num(m).p))

    def mod_sub(self, o, m):
        return mkbn(T.pmod(self.p - Bn.from_num(o).p, Bn.from_num(m).p))

    def mod_mul(self, o, m):
        return mkbn(T.pmod(self.p * Bn.from_num(o).p, Bn.from_num(m).p))

    def mod_inverse(self, m):
        m = Bn.from_num(m)
        if cur().decide(T.f_eqm(self.p, m.p)):
            raise Exception("No inverse")
        return mkbn(T.pinv(self.p, m.p))

    def mod_pow(self, o, m, ctx=None):
        return self.__pow__(o, m)

    def __pow__(self, o, modulo=None, ctx=None):
        e = Bn.from_num(o).p
        if self.p.is_const() and e.is_const() and modulo is None:
            if e.const() < 0 or e.const() > 5000:
                raise Unsupported("power")
            return mkbn(const(self.p.const() ** e.const()))
        if e.is_const() and 0 <= e.const() <= 16:
            r = self.p.pow(e.const())
        elif modulo is None:
            r = power(self.p, e)
        else:
            raise Unsupported("modular power")
        if modulo is not None:
            r = T.pmod(r, Bn.from_num(modulo).p)
        return mkbn(r)

    def __rpow__(self, o):
        return Bn(o) ** self

    def pow(self, o, modulo=None, ctx=None):
        return self.__pow__(o, modulo)

    def random(self):
        return mkbn(draw(self.p, "bn"))

    def copy(self):
        return mkbn(self.p)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return mkbn(self.p)

    def bool(self):
        return bool(self)

    def int(self):
        return mkint(self.p)

    def repr(self):
        return repr(self)

    def hex(self):
        if self.p.is_const():
            return "%X" % self.p.const()
        return tokens.token("hex", self.p)

    def binary(self):
        if bool(self < 0):
            raise Exception("Cannot represent negative numbers")
        if self.p.is_const():
            n = self.p.const()
            return n.to_bytes((n.bit_length() + 7) // 8, "big")
        return tokens.btoken("bin", cur().deep_sub(self.p))

    def is_odd(self):
        return bool(mkbn(T.pmod(self.p, const(2))) == 1)

    def is_prime(self):
        raise Unsupported("is_prime")

    def is_bit_set(self, n):
        return mkint(bit_poly(self.p, poly_of(n)))

    def num_bits(self):
        return mkint(num_bits_poly(self.p))


def mkbn(p):
    b = Bn.__new__(Bn)
    b.p = p
    return b


def draw(bound, how):
    c = cur()
    name = c.fresh("rnd")
    if bound.is_const() and bound.const() <= 0:
        raise Exception("BN exception")
    if bound.is_const() and bound.const() <= 4 and how != "bn":
        return const(c.choose(bound.const(), "small random"))
    if c.forced:
        p = c.forced.pop(0)
        c.draws.append({"poly": p, "bound": bound, "how": how})
        return p
    # in a generic iteration of a loop: one draw for each iteration
    a = atom("rnd", name, T.ZERO, bound, *[patom(f[0]) for f in c.frames])
    c.draws.append({"poly": patom(a), "atom": a, "bound": bound, "how": how})
    return patom(a)


# ---------------------------------------------------------------------------
# groups

ORDERS = {}


def order_poly(name):
    return patom(atom("order", name))


def seqsum(lo, hi, l):
    """The sum of l[J := j] for lo <= j < hi."""
    try:
        return T.mk_lsum(hi - lo, T.subst_lin(l, T.BOUND.id, T.J + lo))
    except ValueError as e:
        raise Unsupported(str(e))


class EcGroup:
    def __init__(self, nid=713, optimize_mult=True):
        self._nid = nid
        self.q = order_poly("q%s" % nid)

    def parameters(self):
        return {k: mkbn(T.var("%s%s" % (k, self._nid))) for k in "abp"}

    def generator(self):
        return mkpt(T.lin_base(atom("base", "G%s" % self._nid, "gen"), self.q), self)

    def infinite(self):
        return mkpt(Lin({}, self.q), self)

    def order(self):
        return mkbn(self.q)

    def segsum(self, al):
        from . import seq
        assert al is not None
        r = Lin({}, self.q)
        for p in al:
            if len(p) == 2:
                ws = [p]
            else:
                lo, hi, f, g, d = p
                ws = [(f.at(T.J), g.at(T.J + d))]
            w, e = ws[0]
            assert isinstance(w, Bn)
            assert isinstance(e, EcPt)
            if e.group._nid != self._nid:
                raise Exception("EC exception")
            l = e.l.scale(w.p)
            r = r + (l if len(p) == 2 else seqsum(lo, hi, l))
        return r

    def sum(self, elems):
        r = elems[0]
        for e in elems[1:]:
            r = r + e
        return r

    def wsum(self, weights, elems):
        from . import seq
        if seq.has_seg(weights) or seq.has_seg(elems):
            return mkpt(self.segsum(seq.align(seq.raw(weights), seq.raw(elems))), self)
        assert len(weights) == len(elems)
        assert all(isinstance(e, Bn) for e in weights)
        assert all(isinstance(e, EcPt) for e in elems)
        r = Lin({}, self.q)
        for w, e in zip(weights, elems):
            if e.group._nid != self._nid:
                raise Exception("EC exception")
            r = r + e.l.scale(w.p)
        return mkpt(r, self)

    def __eq__(self, o):
        if not isinstance(o, EcGroup):
            o.ecg
        return self._nid == o._nid

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return "EcGroup(%s)" % self._nid

    def nid(self):
        return self._nid

    def check_point(self, pt):
        return True

    def hash_to_point(self, s):
        s = bytes(s)
        return mkpt(T.lin_base(atom("base", "H%s(%s)" % (self._nid, s.decode("latin-1")), "gen"), self.q), self)


class EcPt:
    __slots__ = ["l", "group"]

    def __init__(self, group):
        raise Unsupported("EcPt()")

    @staticmethod
    def from_binary(b, group):
        v = tokens.lookup(b)
        if v is None or v[0] != "ptexp":
            raise Exception("EC exception")
        if v[1][0] != "ec%s" % group._nid:
            raise Exception("EC exception")
        return mkpt(v[1][1], group)

    def _chk(self, o):
        if not isinstance(o, EcPt) or o.group._nid != self.group._nid:
            raise Exception("EC exception")

    def __copy__(self):
        return mkpt(self.l, self.group)

    def __deepcopy__(self, memo):
        return mkpt(self.l, self.group)

    def __add__(self, o):
        self._chk(o)
        return mkpt(self.l + o.l, self.group)

    pt_add = __add__

    def pt_add_inplace(self, o):
        self._chk(o)
        self.l = self.l + o.l

    __add_inplace__ = pt_add_inplace

    def pt_double(self):
        return mkpt(self.l + self.l, self.group)

    def pt_double_inplace(self):
        self.l = self.l + self.l

    def __sub__(self, o):
        self._chk(o)
        return mkpt(self.l - o.l, self.group)

    def __neg__(self):
        return mkpt(-self.l, self.group)

    pt_neg = __neg__

    def pt_neg_inplace(self):
        self.l = -self.l

    __neg_inplace__ = pt_neg_inplace

    def __rmul__(self, s):
        if not isinstance(s, Bn):
            n = Bn.from_num(s)
            if n is NotImplemented:
                raise PetlibRecursion("maximum recursion depth exceeded")
            s = n
        return mkpt(self.l.scale(s.p), self.group)

    pt_mul = __rmul__

    def pt_mul_inplace(self, s):
        self.l = self.l.scale(Bn.from_num(s).p)

    __rmul_inplace__ = pt_mul_inplace

    def __eq__(self, o):
        self._chk(o)
        return mkbool(T.f_peq0(self.l - o.l))

    def __ne__(self, o):
        self._chk(o)
        return mkbool(T.fnot(T.f_peq0(self.l - o.l)))

    pt_eq = __eq__

    def __hash__(self):
        return hash(self.l)

    def export(self, form=0):
        if form not in (0, 2):
            return tokens.btoken("ptexp%s" % form, ("ec%s" % self.group._nid, self.norm()))
        return tokens.btoken("ptexp", ("ec%s" % self.group._nid, self.norm()), 29)

    def norm(self):
        return cur().sub_lin(self.l)

    def is_infinite(self):
        return self == self.group.infinite()

    def get_affine(self):
        raise Unsupported("get_affine")

    def __str__(self):
        return tokens.token("pt", width=58, value=("ec%s" % self.group._nid, self.norm()))

    def __repr__(self):
        return "EcPt(%s)" % self


def mkpt(l, group):
    p = EcPt.__new__(EcPt)
    p.l, p.group = l, group
    return p


# ---------------------------------------------------------------------------
# pairings


def paired(x, y):
    """The base of GT that is the pairing of a base of G1 and one of G2."""
    if x.kind == "lsum" and y.kind == "lsum":
        raise Unsupported("the pairing of two sums over sequences")
    if x.kind == "lsum":
        r = atom("lsum", x.args[0], paired(x.args[1], y))
    elif y.kind == "lsum":
        r = atom("lsum", y.args[0], paired(x, y.args[1]))
    else:
        kind = "gen" if x.args[-1] == "gen" and y.args[-1] == "gen" else "pt"
        name = "e(%s,%s)" % (x.args[0], y.args[0])
        r = atom("base", name, *[a for z in (x, y) for a in z.args[1:] if isinstance(a, tuple)], kind)
        if x.args[-1] != "gen" and y.args[-1] == "gen":
            T.PAIRED[name] = (y.id, x.args[0], [a for a in x.args[1:] if not isinstance(a, tuple)])
    return r


class BpGroup:
    def __init__(self, nid=1, optimize_mult=True):
        self.nid = nid
        self.optimize_mult = optimize_mult
        self.q = order_poly("qbp%s" % nid)
        self.g1 = mkel(G1Elem, T.lin_base(atom("base", "g1_%s" % nid, "gen"), self.q), self)
        self.g2 = mkel(G2Elem, T.lin_base(atom("base", "g2_%s" % nid, "gen"), self.q), self)

    def order(self):
        return mkbn(self.q)

    def gen1(self):
        return self.g1

    def gen2(self):
        return self.g2

    def hashG1(self, s):
        s = bytes(s)
        return mkel(G1Elem, T.lin_base(atom("base", "H1_%s(%s)" % (self.nid, s.decode("latin-1")), "gen"), self.q), self)

    def pair(self, a, b):
        if not isinstance(a, G1Elem) or not isinstance(b, G2Elem):
            raise TypeError("initializer for ctype: wrong kind of element")
        r = Lin({}, self.q)
        for x, p in a.l.c.items():
            for y, s in b.l.c.items():
                ax, ay = T.by_id(x), T.by_id(y)
                r = r + Lin({paired(ax, ay).id: T.strip_mod(p * s, self.q)}, self.q)
        return mkel(GTElem, r, self)

    def __copy__(self):
        return BpGroup(self.nid, self.optimize_mult)

    def __eq__(self, o):
        return o.nid == self.nid

    __hash__ = None


class Ops:
    __slots__ = ()

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.l)

    def __add__(self, o):
        return self.add(o)

    def __sub__(self, o):
        if hasattr(self, "sub"):
            return self.sub(o)
        return self.add(o.neg())

    def __mul__(self, o):
        return self.mul(o)

    def __rmul__(self, o):
        return self.mul(o)

    def __pow__(self, o, modulo=None):
        return self.exp(o)

    def __neg__(self):
        return self.neg()


class _El(Ops):
    __slots__ = ("l", "group")
    kind = None

    def __init__(self, group):
        raise Unsupported("%s()" % type(self).__name__)

    def _chk(self, o):
        if type(o) is not type(self):
            raise TypeError("initializer for ctype: wrong kind of element")

    def __copy__(self):
        return mkel(type(self), self.l, self.group)

    def __deepcopy__(self, memo):
        return mkel(type(self), self.l, self.group)

    def eq(self, o):
        self._chk(o)
        return mkbool(T.f_peq0(self.l - o.l))

    def export(self, form=None):
        return tokens.btoken("ptexp", (self.kind + str(self.group.nid), cur().sub_lin(self.l)),
                             {"G1": 33, "G2": 128}.get(self.kind, 384))

    @classmethod
    def _from(cls, b, group):
        v = tokens.lookup(b)
        if v is None or v[0] != "ptexp" or v[1][0] != cls.kind + str(group.nid):
            raise Exception("EC exception")
        return mkel(cls, v[1][1], group)


class _Add(_El):
    __slots__ = ()

    def add(self, o):
        self._chk(o)
        return mkel(type(self), self.l + o.l, self.group)

    def double(self):
        return mkel(type(self), self.l + self.l, self.group)

    def neg(self):
        return mkel(type(self), -self.l, self.group)

    def isinf(self):
        return bool(mkbool(T.f_peq0(self.l)))

    def mul(self, s):
        n = Bn.from_num(s)
        if n is NotImplemented:
            return NotImplemented
        return mkel(type(self), self.l.scale(n.p), self.group)


class G1Elem(_Add):
    __slots__ = ()
    kind = "g1"

    @staticmethod
    def inf(group):
        return mkel(G1Elem, Lin({}, group.q), group)

    @staticmethod
    def from_bytes(b, group):
        return G1Elem._from(b, group)


class G2Elem(_Add):
    __slots__ = ()
    kind = "g2"

    @staticmethod
    def inf(group):
        return mkel(G2Elem, Lin({}, group.q), group)

    @staticmethod
    def from_bytes(b, group):
        return G2Elem._from(b, group)


class GTElem(_El):
    """Multiplicative; the linear combination is the exponent."""
    __slots__ = ()
    kind = "gt"

    @staticmethod
    def one(group):
        return mkel(GTElem, Lin({}, group.q), group)

    @staticmethod
    def zero(group):
        raise Unsupported("GT zero")

    @staticmethod
    def from_bytes(b, group):
        return GTElem._from(b, group)

    def isone(self):
        return bool(mkbool(T.f_peq0(self.l)))

    def mul(self, o):
        self._chk(o)
        return mkel(GTElem, self.l + o.l, self.group)

    def add(self, o):
        raise Unsupported("GT field addition")

    sub = add

    def inv(self):
        return mkel(GTElem, -self.l, self.group)

    def sqr(self):
        return mkel(GTElem, self.l + self.l, self.group)

    def exp(self, s):
        n = Bn.from_num(s)
        if n is NotImplemented:
            return NotImplemented
        return mkel(GTElem, self.l.scale(n.p), self.group)


def mkel(cls, l, group):
    p = cls.__new__(cls)
    p.l, p.group = l, group
    return p


# ---------------------------------------------------------------------------
# hashes and randomness


DIGEST = {"sha256": 32, "sha512": 64, "sha1": 20, "md5": 16, "sha224": 28, "sha384": 48, "blake2b": 64}


class TBytes(bytes):
    """A digest: compared by what was hashed; slices are symbolic."""

    def __new__(cls, content, alg):
        n = DIGEST.get(alg, 32)
        o = bytes.__new__(cls, tokens.btoken("digest", content, n))
        o.content = content
        o.n = n
        return o

    def subst(self, aid, t):
        return TBytes(tokens.subst(self.content, aid, t), self.content.split(b":")[0].decode())

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            v = tokens.lookup(o)
            if v is not None and v[0] == "digest":
                return mkbool(tokens.bytes_eq(self.content, v[1]))
            return bytes(self) == bytes(o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(bytes(self))

    def __getitem__(self, k):
        if isinstance(k, slice):
            a, b, s = k.indices(self.n)
            if s == 1:
                if (a, b) == (0, self.n):
                    return self
                return tokens.btoken("binslice", (self.content, a, b))
        raise Unsupported("byte of a digest")

    def hex(self, *a):
        return TStr(self.content, self.n)


class TStr(str):
    def __new__(cls, content, n):
        o = str.__new__(cls, tokens.token("hexdigest", content, 2 * n))
        o.content, o.n = content, 2 * n
        return o

    def subst(self, aid, t):
        return TStr(tokens.subst(self.content, aid, t), self.n // 2)

    def __getitem__(self, k):
        if isinstance(k, slice):
            a, b, s = k.indices(self.n)
            if s == 1:
                if (a, b) == (0, self.n):
                    return self
                return tokens.token("hexslice", (self.content, a, b))
        raise Unsupported("character of a digest")


class _Hash:
    def __init__(self, alg, data=b""):
        self.alg = self.name = alg
        self.buf = b""
        self.digest_size = DIGEST.get(alg, 32)
        if data:
            self.update(data)

    def update(self, data):
        if isinstance(data, str):
            raise TypeError("Strings must be encoded before hashing")
        self.buf += bytes(data)

    def copy(self):
        h = _Hash(self.alg)
        h.buf = self.buf
        return h

    def _content(self):
        return self.alg.encode() + b":" + self.buf

    def _conc(self):
        import hashlib
        if tokens.RX.search(tokens.unhex_tokens(self.buf.decode("latin-1"))):
            return None
        return getattr(hashlib, self.alg)(self.buf)

    def digest(self):
        h = self._conc()
        return h.digest() if h else TBytes(self._content(), self.alg)

    def hexdigest(self):
        h = self._conc()
        return h.hexdigest() if h else TStr(self._content(), self.digest_size)


def _mk_hash(alg):
    def f(data=b"", **k):
        return _Hash(alg, data)
    f.__name__ = alg
    return f


REAL = {
    "Bn": "_Bn__C __div__ __hex__ __inner_cmp__ __nonzero__ __rdivmod__ _set_neg _upper_bound binary bn get_prime "
          "is_prime",
    "EcGroup": "get_points_from_x list_curves",
    "EcPt": "pt",
    "G1Elem": "_C elem", "G2Elem": "_C elem", "GTElem": "_C elem iszero", "BpGroup": "_C bpq",
    "petlib.bn": "BnCtx BnCtxNULL _C _FFI _check get_ctx get_errors",
    "petlib.ec": "POINT_CONVERSION_COMPRESSED POINT_CONVERSION_UNCOMPRESSED _C _FFI _check Const get_ctx",
    "bplib.bp": "NID_fp254bnb POINT_CONVERSION_COMPRESSED POINT_CONVERSION_UNCOMPRESSED _C _FFI _check",
    "SInt": " ".join(n for n in dir(int) if not n.startswith("__")),
}


def _missing(self, n):
    """An attribute that the real library has and the stand-in does not: undecided, not an error."""
    t = type(self).__name__
    if n in REAL.get(t, "").split():
        raise Unsupported("%s.%s" % (t, n))
    raise AttributeError("%r object has no attribute %r" % (t, n))


for _c in (Bn, SInt, EcGroup, EcPt, G1Elem, G2Elem, GTElem, BpGroup):
    _c.__getattr__ = _missing


class _Module(types.ModuleType):
    def __getattr__(self, n):
        name = self.__name__
        if n.startswith("__"):
            raise AttributeError(n)
        if name in ("hashlib", "secrets", "random"):
            import importlib
            if hasattr(importlib.import_module(name), n):
                raise Unsupported("%s.%s" % (name, n))
        elif n in REAL.get(name, "").split():
            raise Unsupported("%s.%s" % (name, n))
        raise AttributeError("module %r has no attribute %r" % (name, n))


def _mod(name, **kw):
    m = _Module(name)
    m.__dict__.update(kw)
    return m


def _token_bytes(n=32):
    c = cur()
    a = atom("rnd", c.fresh("rndbytes"), T.ZERO, const(1 << (8 * int(n))))
    c.draws.append({"poly": patom(a), "atom": a, "bound": const(1 << (8 * int(n))), "how": "secrets"})
    return tokens.btoken("rndbytes", a)


class _Sys:
    """random.SystemRandom()"""
    how = "secure"

    def choice(self, seq):
        from . import seq as sq
        if sq.has_seg(seq):
            n = sq.length(sq.raw(seq))
            if cur().decide(T.fnot(T.f_lt0(-n))):
                raise IndexError("Cannot choose from an empty sequence")
            i = patom(atom("var", cur().fresh("#ch"), T.ZERO, n))
            cur().events.append(("choice", self.how, n, -1))
            return seq[mkint(i)]
        seq = list(seq)
        k = cur().choose(len(seq), "choice")
        cur().events.append(("choice", self.how, len(seq), k))
        return seq[k]

    def randrange(self, a, b=None):
        if b is None:
            a, b = 0, a
        pa, pb = poly_of(a), poly_of(b)
        n = pb - pa
        if n.is_const() and n.const() <= 16:
            k = cur().choose(n.const(), "randrange")
            cur().events.append(("choice", self.how, n.const(), k))
            return mkint(pa + const(k))
        return mkint(pa + draw(n, self.how))

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def getrandbits(self, n):
        return mkint(draw(const(1 << int(n)), self.how))

    def shuffle(self, x):
        y = list(x)
        for i in range(len(x)):
            k = cur().choose(len(y), "shuffle")
            x[i] = y.pop(k)
        cur().events.append(("choice", self.how, len(x), -1))

    def sample(self, pop, k):
        pop = list(pop)
        self.shuffle(pop)
        return pop[:k]

    def choices(self, pop, k=1, **kw):
        return [self.choice(pop) for _ in range(k)]

    def random(self):
        raise Unsupported("random float")

    def seed(self, *a):
        pass


class _Insecure(_Sys):
    how = "insecure"

    def __init__(self, *a):
        pass


def make_modules():
    sysr = _Sys()
    ins = _Insecure()
    hashlib = _mod("hashlib", **{a: _mk_hash(a) for a in
                                 ("sha256", "sha512", "sha1", "sha224", "sha384", "md5", "sha3_256", "blake2b")})
    hashlib.new = lambda name, data=b"": _Hash(name, data)
    secrets = _mod("secrets", token_bytes=_token_bytes,
                   token_hex=lambda n=32: _token_bytes(n).decode(),
                   randbelow=lambda n: mkint(draw(poly_of(n), "secrets")),
                   randbits=lambda n: sysr.getrandbits(n), choice=sysr.choice,
                   SystemRandom=_Sys)
    rnd = _mod("random", SystemRandom=_Sys, Random=_Insecure)
    for n in ("choice", "randrange", "randint", "getrandbits", "shuffle", "sample", "choices", "random", "seed"):
        setattr(rnd, n, getattr(ins, n))
    bn = _mod("petlib.bn", Bn=Bn, force_Bn=lambda n: (lambda f: f))
    ec = _mod("petlib.ec", EcGroup=EcGroup, EcPt=EcPt, Bn=Bn)
    bp = _mod("bplib.bp", BpGroup=BpGroup, G1Elem=G1Elem, G2Elem=G2Elem, GTElem=GTElem, Bn=Bn)
    petlib = _mod("petlib", bn=bn, ec=ec)
    petlib.__path__ = []
    bplib = _mod("bplib", bp=bp)
    bplib.__path__ = []
    return {"hashlib": hashlib, "secrets": secrets, "random": rnd, "petlib": petlib, "petlib.bn": bn,
            "petlib.ec": ec, "bplib": bplib, "bplib.bp": bp}
