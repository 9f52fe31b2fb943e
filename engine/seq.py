"""Sequences and mappings of unknown length.

A list of the code under verification may contain segments: Seg(lo, hi, fn) stands for the elements
fn(lo), ..., fn(hi - 1) with symbolic bounds.  VList and VDict replace the built-in list and dict in the
obligations about loops (see loops.py); without segments they behave as the built-in types.
"""
import builtins

from . import terms as T
from . import stubs, tokens
from .ctx import cur, SBool, Unsupported, Prune, form, mkbool
from .terms import const, patom, ONE, ZERO

EMPTY = object()


class CondError(Unsupported):
    """A condition raises an error for some elements."""


class PoisonUsed(Unsupported):
    """A value that the engine does not know is used."""


class Poison:
    """A value that the engine does not know."""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _u(self, *a, **k):
        raise PoisonUsed("unknown value: " + object.__getattribute__(self, "_why"))

    __class__ = property(_u)                    # isinstance()


class Opaque:
    """No operations."""


_DUNDER = ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __mod__ __rmod__ __eq__ __ne__ __lt__ __le__ __gt__ "
           "__ge__ __hash__ __iter__ __len__ __getitem__ __setitem__ __call__ __bool__ __index__ __int__ __contains__ "
           "__neg__ __pow__ __rpow__ __enter__ __getattr__ __setattr__ __iadd__ __format__").split()
for _n in _DUNDER:
    setattr(Poison, _n, Poison._u)


class Seg:
    """The elements fn(t) for lo <= t < hi."""

    __slots__ = ("lo", "hi", "fn", "memo", "attrs", "base", "shift")

    def __init__(self, lo, hi, fn, base=None):
        o = object.__setattr__
        o(self, "lo", lo)
        o(self, "hi", hi)
        o(self, "fn", fn)
        o(self, "memo", {})
        o(self, "attrs", {})
        o(self, "base", base)

    def part(self, lo, hi):
        """The same elements, fewer of them."""
        return Seg(lo, hi, None, root(self))

    def at(self, t):
        if self.base is not None:
            return self.base.at(t)
        v = self.memo.get(t, EMPTY)
        if v is EMPTY:
            if self.attrs:
                v = self.known(t, False)
                if v is not EMPTY:
                    self.memo[t] = v
                    return v
            v = self.fn(t)
            self.memo[t] = v
            c = cur()
            if type(v) is VList or is_vdict(v):
                v.frozen = True      # what is changed here would not be seen at equal indices
            if is_code(v):
                own(c)[id(v)] = (self, t, v)
                for name, parts in self.attrs.items():
                    for x in parts:
                        self.put(name, x, t, v)
        return v

    def known(self, t, split):
        """The same element under another index; where wanted, decides which attributes it has."""
        c = cur()
        if split and not c.frames:
            for lo, hi in sorted({(lo, hi) for parts in self.attrs.values() for _, _, lo, hi in parts}, key=str):
                if not c.decide(T.f_lt0(t - lo)):
                    c.decide(T.f_lt0(t - hi))
        for u, v in self.memo.items():
            if c.entails(T.f_eq0(t - u)) is True:
                return v
        return EMPTY

    def put(self, name, part, t, v):
        aid, val, lo, hi = part
        c = cur()
        r = [c.entails(f) for f in (T.f_lt0(t - lo), T.f_lt0(t - hi))]
        if r == [False, True]:
            v.__dict__[name] = subst(val, aid, t)
        elif r[0] is not True and r[1] is not False:
            v.__dict__[name] = Poison("attribute of some elements")

    def set_attr(self, name, aid, val, lo, hi):
        """The elements in [lo, hi) get the attribute (a template in the index aid)."""
        self.attrs[name] = self.attrs.get(name, ()) + ((aid, val, lo, hi),)
        for t, v in self.memo.items():
            self.put(name, self.attrs[name][-1], t, v)

    def __repr__(self):
        with T.binder(self.lo, self.hi) as i:
            return tokens.token("seg", (self.lo, self.hi, i.id, repr(self.at(patom(i)))))

    def _u(self, *a, **k):
        raise Unsupported("a sequence of unknown length in a native operation")


def root(s):
    return s if s.base is None else s.base


for _n in _DUNDER:
    setattr(Seg, _n, Seg._u)
Seg.__str__ = Seg.__repr__


def own(c):
    d = getattr(c, "owner", None)
    if d is None:
        d = c.owner = {}
    return d


def is_code(v):
    """An object of a class of the package."""
    m = type(v).__module__
    return isinstance(m, str) and m.split(".")[0] == "zksk" and hasattr(v, "__dict__") and not isinstance(v, type)


def is_vdict(x):
    return type(x) in (VDict, VDefault)


def has_seg(x):
    t = type(x)
    if t is Seg:
        return True
    if t in (VDict, VDefault):
        return any(type(e) is DSeg for e in x.e)
    if isinstance(x, (builtins.list, builtins.tuple)):
        return any(type(i) is Seg for i in builtins.list.__iter__(x)) if isinstance(x, builtins.list) else \
            any(type(i) is Seg for i in x)
    if t is View:
        return any(type(e) is DSeg for e in x.d.e)
    return False


def deep_seg(x):
    t = type(x)
    if t is Seg:
        return True
    if t in (VDict, VDefault):
        return any(type(e) is DSeg or deep_seg(e[1]) for e in x.e)
    if isinstance(x, (builtins.list, builtins.tuple)):
        return any(deep_seg(i) for i in (builtins.list.__iter__(x) if isinstance(x, builtins.list) else x))
    if isinstance(x, builtins.dict):
        return any(deep_seg(v) for v in x.values())
    return False


def raw(x):
    """The items, segments among them."""
    if is_vdict(x):
        return x.key_items()
    if isinstance(x, builtins.list):
        return builtins.list(builtins.list.__iter__(x))
    if isinstance(x, builtins.tuple):
        return builtins.list(x)
    if type(x) is View:
        return x.items()
    return None


def norm(items):
    out = []
    for x in items:
        if type(x) is Seg:
            n = x.hi - x.lo
            if n.is_const() and n.const() <= 16:
                out.extend(x.at(x.lo + const(i)) for i in range(n.const()))
                continue
        out.append(x)
    return out


def length(items):
    n = ZERO
    for x in items:
        n = n + ((x.hi - x.lo) if type(x) is Seg else ONE)
    return n


def poly(i):
    p = stubs.poly_of(i)
    if p is None:
        raise TypeError("list indices must be integers or slices, not %s" % type(i).__name__)
    return cur().deep_sub(p)


def split_at(items, pos):
    """(items before the position, items from it on); the position is within the length."""
    c = cur()
    left, off = [], ZERO
    items = list_(items)
    while items:
        if T.f_eq0(pos - off)[0] == "true" or c.entails(T.f_eq0(pos - off)) is True:
            break
        x = items[0]
        if type(x) is not Seg:
            if c.decide(T.f_eq0(pos - off)):
                break
            left.append(x)
            off = off + ONE
            items.pop(0)
            continue
        n = x.hi - x.lo
        if c.decide(T.f_lt0(pos - off - n)):
            mid = x.lo + pos - off
            left.append(x.part(x.lo, mid))
            items[0] = x.part(mid, x.hi)
            break
        left.append(x)
        off = off + n
        items.pop(0)
    return norm(left), norm(items)


def item(items, i):
    c = cur()
    n = length(items)
    if c.decide(T.f_lt0(i)):
        i = i + n
        if c.decide(T.f_lt0(i)):
            raise IndexError("list index out of range")
    off = ZERO
    for x in items:
        if type(x) is Seg:
            m = x.hi - x.lo
            if c.decide(T.f_lt0(i - off - m)):
                return x.at(x.lo + i - off)
            off = off + m
        else:
            f = T.f_eq0(i - off)
            if c.decide(f):
                if not c.frames and f[0] != "true":
                    c.add(f)        # (known, but from now on used as an equation)
                return x
            off = off + ONE
    raise IndexError("list index out of range")


list_ = builtins.list


class _LM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.list)


def expand(xs):
    """The items, for native iteration."""
    out = []
    for x in raw(xs):
        if type(x) is not Seg:
            out.append(x)
            continue
        d = cur().deep_sub(x.hi - x.lo)
        if not d.is_const() or d.const() > 64:
            raise Unsupported("native iteration over a sequence of unknown length")
        out.extend(x.at(x.lo + const(i)) for i in builtins.range(d.const()))
    return out


def writes(cls):
    """The methods that change the object refuse to do so for a member of a sequence of unknown length."""
    def guard(f):
        def g(self, *a, **k):
            if self.frozen:
                raise Unsupported("change of a member of a sequence of unknown length")
            return f(self, *a, **k)
        return g
    cls.frozen = False
    for n in ("__setitem__", "__delitem__", "__iadd__", "append", "extend", "pop", "insert", "remove", "sort",
              "reverse", "clear", "update", "setdefault", "popitem"):
        if hasattr(cls, n):
            setattr(cls, n, guard(getattr(cls, n)))
    return cls


@writes
class VList(builtins.list, metaclass=_LM):
    def __init__(self, x=()):
        r = raw(x)
        if r is None:
            r = builtins.list(x)
        builtins.list.__init__(self, norm(r))

    def __bool__(self):
        return bool(mkbool(T.fnot(T.f_eq0(length(raw(self))))))

    def __iter__(self):
        return builtins.list.__iter__(self) if not has_seg(self) else iter(expand(self))

    def __getitem__(self, i):
        r = raw(self)
        if isinstance(i, slice):
            if i.step not in (None, 1):
                if has_seg(self):
                    raise Unsupported("slice with a step")
                return VList(r[i])
            if not has_seg(self) and not isinstance(i.start, stubs.SInt) and not isinstance(i.stop, stubs.SInt):
                return VList(r[i])
            return VList(vslice(r, i.start, i.stop))
        if not has_seg(self) and builtins.isinstance(i, builtins.int):
            return builtins.list.__getitem__(self, i)
        return item(r, poly(i))

    def __setitem__(self, i, v):
        if not has_seg(self) and not isinstance(i, stubs.SInt):
            return builtins.list.__setitem__(self, i, v)
        if isinstance(i, slice):
            raise Unsupported("slice assignment")
        r = raw(self)
        p = poly(i)
        c = cur()
        n = length(r)
        if c.decide(T.f_lt0(p)):
            p = p + n
        if c.decide(T.fnot(T.f_lt0(p - n))) or c.decide(T.f_lt0(p)):
            raise IndexError("list assignment index out of range")
        a, b = split_at(r, p)
        _, b = split_at(b, ONE)
        builtins.list.clear(self)
        builtins.list.extend(self, norm(a + [v] + b))

    def __delitem__(self, i):
        if has_seg(self):
            raise Unsupported("del of an item")
        builtins.list.__delitem__(self, i)

    def __add__(self, o):
        if not isinstance(o, builtins.list):
            return NotImplemented
        return VList(raw(self) + raw(o))

    def __radd__(self, o):
        if not isinstance(o, builtins.list):
            return NotImplemented
        return VList(raw(o) + raw(self))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, n):
        p = poly(n)
        if p.is_const():
            return VList(raw(self) * p.const())
        if len(raw(self)) != 1 or has_seg(self):
            raise Unsupported("repetition")
        x = raw(self)[0]
        if cur().decide(T.f_lt0(p)):
            return VList()
        return VList([Seg(ZERO, p, lambda t: x)])

    __rmul__ = __mul__

    def append(self, x):
        builtins.list.append(self, x)

    def extend(self, x):
        r = raw(x)
        if r is None:
            r = builtins.list(x)
        builtins.list.extend(self, norm(r))

    def copy(self):
        return VList(self)

    __copy__ = copy

    def pop(self, i=-1):
        if not has_seg(self):
            return builtins.list.pop(self, i)
        r = raw(self)
        if i == -1 and type(r[-1]) is not Seg:
            return builtins.list.pop(self, i)
        v = self[i]
        n = length(r)
        p = poly(i)
        if cur().decide(T.f_lt0(p)):
            p = p + n
        a, b = split_at(r, p)
        _, b = split_at(b, ONE)
        builtins.list.clear(self)
        builtins.list.extend(self, norm(a + b))
        return v

    def insert(self, i, v):
        if has_seg(self):
            a, b = split_at(raw(self), poly(i))
            builtins.list.clear(self)
            builtins.list.extend(self, norm(a + [v] + b))
            return
        builtins.list.insert(self, i, v)

    def remove(self, v):
        if has_seg(self):
            i = self.index(v)
            a, b = split_at(raw(self), poly(i))
            _, b = split_at(b, ONE)
            builtins.list.clear(self)
            builtins.list.extend(self, norm(a + b))
            return
        for i, x in enumerate(raw(self)):
            if x is v or bool(x == v):
                builtins.list.__delitem__(self, i)
                return
        raise ValueError("list.remove(x): x not in list")

    def index(self, v, *a):
        if not has_seg(self):
            for i, x in enumerate(raw(self)):
                if x is v or bool(x == v):
                    return i
            raise ValueError("not in list")
        # positions of integers in a range
        off = ZERO
        c = cur()
        q = stubs.poly_of(v)
        for x in raw(self):
            if type(x) is Seg:
                e = x.at(patom(T.atom("var", "#k", x.lo, x.hi)))
                if q is None or stubs.poly_of(e) != patom(T.atom("var", "#k", x.lo, x.hi)):
                    raise Unsupported("index in a sequence of unknown length")
                if c.decide(T.f_lt0(x.lo - q - ONE)) and c.decide(T.f_lt0(q - x.hi)):
                    return stubs.mkint(off + q - x.lo)
                off = off + x.hi - x.lo
            else:
                if bool(x == v):
                    return stubs.mkint(off)
                off = off + ONE
        raise ValueError("not in list")

    def count(self, v):
        if not has_seg(self):
            return sum(1 for x in raw(self) if x is v or bool(x == v))
        n, sk = 0, secret_key(v)
        for x in raw(self):
            if type(x) is not Seg:
                n += bool(x is v or bool(x == v))
                continue
            e = patom(T.atom("var", "#k", x.lo, x.hi))
            y = secret_key(x.at(e))
            if y is None or sk is None or len(y) != 2:
                raise Unsupported("count in a sequence of unknown length")
            if y[0] != sk[0]:
                continue
            if not (y[1] - e).is_const():
                raise Unsupported("count in a sequence of unknown length")
            c = cur()
            t = c.deep_sub(sk[1] - (y[1] - e))
            if c.decide(T.f_lt0(t - x.lo)) or c.decide(T.fnot(T.f_lt0(t - x.hi))):
                continue
            n += bool(x.at(t) == v)
        return n

    def __contains__(self, v):
        return bool(any_(VList([lazy_eq(x, v) for x in raw(self)])))

    def sort(self, *a, **k):
        if has_seg(self):
            raise Unsupported("sort")
        builtins.list.sort(self, *a, **k)

    def reverse(self):
        if has_seg(self):
            raise Unsupported("reverse")
        builtins.list.reverse(self)

    def __reversed__(self):
        if has_seg(self):
            raise Unsupported("reversed")
        return builtins.list.__reversed__(self)

    def __eq__(self, o):
        if not isinstance(o, builtins.list):
            return NotImplemented
        return seq_eq(raw(self), raw(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(T.fnot(form(r)))

    __hash__ = None

    def __repr__(self):
        return "[" + ", ".join(repr(x) for x in raw(self)) + "]"

    __str__ = __repr__


def lazy_eq(x, v):
    if type(x) is Seg:
        return Seg(x.lo, x.hi, lambda t: x.at(t) == v)
    return True if x is v else x == v


def vslice(r, start, stop):
    n = length(r)
    c = cur()

    def clamp(p, default):
        if p is None:
            return default
        p = poly(p)
        if c.decide(T.f_lt0(p)):
            p = p + n
            if c.decide(T.f_lt0(p)):
                return ZERO
            return p
        if c.decide(T.f_lt0(n - p)):
            return n
        return p
    a, b = clamp(start, ZERO), clamp(stop, n)
    if c.decide(T.fnot(T.f_lt0(a - b))):
        return []
    l, _ = split_at(r, b)
    _, l = split_at(l, a)
    return l


def align(xs, ys):
    """Pairs of corresponding items: (x, y) or (lo, hi, f, g) for segments; None if the lengths differ."""
    c = cur()
    d = length(xs) - length(ys)
    if not c.decide(T.f_eq0(d)):
        return None
    xs, ys, out = list_(xs), list_(ys), []

    def empty(l):
        while l and type(l[0]) is Seg and c.decide(T.fnot(T.f_lt0(l[0].lo - l[0].hi))):
            l.pop(0)
        return not l
    while not empty(xs) and not empty(ys):
        x, y = xs[0], ys[0]
        sx, sy = type(x) is Seg, type(y) is Seg
        if not sx and not sy:
            out.append((x, y))
            xs.pop(0)
            ys.pop(0)
        elif sx and sy:
            n = x.hi - x.lo
            m = y.hi - y.lo
            if c.entails(T.f_eq0(n - m)) is True or not c.decide(T.f_lt0(m - n)):
                k = n
                xs.pop(0)
                rest = ys
                if c.entails(T.f_eq0(n - m)) is True:
                    ys.pop(0)
                else:
                    ys[0] = y.part(y.lo + n, y.hi)
            else:
                k = m
                ys.pop(0)
                xs[0] = x.part(x.lo + m, x.hi)
            out.append((x.lo, x.lo + k, x, y, y.lo - x.lo))
        elif sx:
            out.append((x.at(x.lo), y))
            xs[0] = x.part(x.lo + ONE, x.hi)
            ys.pop(0)
        else:
            out.append((x, y.at(y.lo)))
            ys[0] = y.part(y.lo + ONE, y.hi)
            xs.pop(0)
    return out


def seq_eq(xs, ys):
    al = align(xs, ys)
    if al is None:
        return False
    fs = []
    for p in al:
        if len(p) == 2:
            fs.append(eq_form(*p))
        else:
            lo, hi, f, g, d = p
            fs.append(generic_form(lo, hi, lambda t: eq_form(f.at(t), g.at(t + d))))
    return mkbool(T.fand(fs))


def eq_form(x, y):
    """x == y as a formula."""
    if x is y:
        return T.TRUE
    if isinstance(x, builtins.tuple) and isinstance(y, builtins.tuple) and (deep_seg(x) or deep_seg(y) or True):
        return form(seq_eq(builtins.list(x), builtins.list(y)))
    if type(x) is type(y) and type(x) in (str, bytes):
        return tokens.bytes_eq(x, y)
    return form(x == y)


def generic_form(lo, hi, fn, roots=None):
    """For all lo <= t < hi: fn(t), where fn gives a formula (it may decide cases)."""
    from . import loops
    c = cur()
    lo, hi = c.deep_sub(lo), c.deep_sub(hi)
    d = hi - lo
    if d.is_const() and d.const() <= 4:
        return T.fand([loops.formula(lambda i=i: fn(lo + const(i)), None, roots(lo + const(i)) if roots else ()) for i in range(d.const())])
    e = c.eigen(lo, hi)
    fs = loops.formula(lambda: fn(patom(e)), e, roots(patom(e)) if roots else ())
    return T.f_all(lo, hi, e.id, fs)


def any_(x):
    r = raw(x)
    if r is None or not has_seg(x):
        return builtins.any(x if r is None else r)
    fs = []
    for i in r:
        if type(i) is Seg:
            fs.append(T.fnot(generic_form(i.lo, i.hi, lambda t, i=i: T.fnot(truth(i.at(t))))))
        else:
            fs.append(truth(i))
    return mkbool(T.for_(fs))


def all_(x):
    r = raw(x)
    if r is None or not has_seg(x):
        return builtins.all(x if r is None else r)
    fs = []
    for i in r:
        if type(i) is Seg:
            fs.append(generic_form(i.lo, i.hi, lambda t, i=i: truth(i.at(t))))
        else:
            fs.append(truth(i))
    return mkbool(T.fand(fs))


def truth(v):
    if isinstance(v, SBool):
        return v.f
    return T.TRUE if v else T.FALSE


def len_(x):
    if is_vdict(x):
        return stubs.mkint(length(x.key_items()))
    r = raw(x)
    if r is None or not has_seg(x):
        return builtins.len(x)
    return stubs.mkint(length(r))


def range_(*a):
    ps = [stubs.poly_of(x) for x in a]
    if any(isinstance(x, stubs.Bn) for x in a) or any(p is None for p in ps) or all(p.is_const() for p in ps):
        return builtins.range(*a)
    if len(a) == 3:
        if not (ps[2].is_const() and ps[2].const() == 1):
            raise Unsupported("range with a step")
    lo, hi = (ZERO, ps[0]) if len(a) == 1 else (ps[0], ps[1])
    c = cur()
    lo, hi = c.deep_sub(lo), c.deep_sub(hi)
    if c.decide(T.fnot(T.f_lt0(lo - hi))):
        return VList()
    return VList([Seg(lo, hi, lambda t: stubs.mkint(t))])


def enumerate_(x, start=0):
    if not has_seg(x):
        return builtins.enumerate(x if type(x) is not VDict else raw(x), start)
    off = poly(start)
    out = []
    for i in raw(x):
        if type(i) is Seg:
            out.append(Seg(i.lo, i.hi, lambda t, i=i, o=off - i.lo: (stubs.mkint(t + o), i.at(t))))
            off = off + i.hi - i.lo
        else:
            out.append((stubs.mkint(off), i))
            off = off + ONE
    return VList(out)


def zip_(*xs, strict=False):
    xs = [x if raw(x) is not None else builtins.list(x) for x in xs]
    if not any(has_seg(x) for x in xs):
        return builtins.zip(*[raw(x) for x in xs])
    if len(xs) != 2:
        raise Unsupported("zip of %d sequences" % len(xs))
    a, b = raw(xs[0]), raw(xs[1])
    c = cur()
    d = length(a) - length(b)
    if not c.decide(T.f_eq0(d)):
        if c.decide(T.f_lt0(d)):
            b, _ = split_at(b, length(a))
        else:
            a, _ = split_at(a, length(b))
    out = []
    for p in align(a, b):
        if len(p) == 2:
            out.append(p)
        else:
            lo, hi, f, g, sh = p
            out.append(Seg(lo, hi, lambda t, f=f, g=g, sh=sh: (f.at(t), g.at(t + sh))))
    return VList(out)


def tuple_(x=()):
    r = raw(x)
    return builtins.tuple(x if r is None else r)


def native(fn, name):
    def f(*a, **k):
        if any(has_seg(x) for x in a):
            raise Unsupported("%s of a sequence of unknown length" % name)
        return fn(*[raw(x) if is_vdict(x) else x for x in a], **k)
    return f


# ---------------------------------------------------------------------------
# mappings


def secret_key(k):
    """(family, index) of a member of a family of secrets, else None."""
    if isinstance(k, stubs.SInt) or type(k) is builtins.int:
        return ("#int", stubs.poly_of(k))
    n = k if isinstance(k, builtins.str) else getattr(k, "name", None)
    if type(n) is not str and not isinstance(n, str):
        return None
    v = tokens.lookup(n)
    if v is None or v[0] != "fsec":
        return None
    return v[1]


def keq(a, b):
    """Whether two keys are equal (a formula)."""
    if a is b:
        return T.TRUE
    for x in (a, b):
        if isinstance(x, (builtins.str, builtins.bytes)):
            if not isinstance(x, type(b if x is a else a)) and not isinstance(b if x is a else a, type(x)):
                return T.FALSE
    if isinstance(a, builtins.str):
        return tokens.bytes_eq(a, b)
    return form(a == b)


class DSeg:
    """Entries key(t): value(t) for lo <= t < hi."""

    __slots__ = ("lo", "hi", "kfn", "vfn", "fam", "idx", "R")

    def __init__(self, lo, hi, kfn, vfn, R=None):
        self.lo, self.hi, self.kfn, self.vfn = lo, hi, kfn, vfn
        x = T.atom("var", "#k", lo, hi)
        sk = secret_key(kfn(patom(x)))
        if sk is None:
            raise Unsupported("keys of a mapping of unknown size")
        self.fam, self.idx = sk[0], sk[1:]
        self.R = R

    def idx_at(self, t):
        return [T.subst_poly(p, T.atom("var", "#k", self.lo, self.hi).id, t) for p in self.idx]

    def injective(self):
        x = patom(T.atom("var", "#k", self.lo, self.hi))
        return len(self.idx) == 1 and (self.idx[0] - x).is_const()

    def find(self, k):
        """(found?, value); decides cases."""
        sk = secret_key(k)
        if sk is None or sk[0] != self.fam:
            return False, None
        c = cur()
        if self.injective():
            t = self.position(sk)
            return (False, None) if t is None else (True, self.vfn(t))
        if self.R is None:
            raise Unsupported("lookup in a mapping whose keys may coincide")
        e = T.atom("var", "#m", self.lo, self.hi)
        none = T.f_all(self.lo, self.hi, e.id, T.fnot(T.fand([
            T.f_eq0(p - q) for p, q in zip(self.idx_at(patom(e)), sk[1:])])))
        if c.decide(none):
            return False, None
        return True, stubs.mkbn(self.R_at(sk[1:]))

    def position(self, sk):
        """The index of a key of the family, None if there is none."""
        c = cur()
        x = patom(T.atom("var", "#k", self.lo, self.hi))
        t = c.deep_sub(sk[1] - (self.idx[0] - x))
        if c.decide(T.f_lt0(t - self.lo)) or c.decide(T.fnot(T.f_lt0(t - self.hi))):
            return None
        return t

    def R_at(self, idx):
        return cur().deep_sub(patom(T.atom("var", self.R, None, None, *idx)))


def same_poly(d):
    return d.is_zero() or cur().entails(T.f_eq0(d)) is True


def apart(e, f):
    """Whether two families of entries are known to have no key in common."""
    if not (e.injective() and f.injective()):
        return False
    x = patom(T.atom("var", "#k", e.lo, e.hi))
    y = patom(T.atom("var", "#k", f.lo, f.hi))
    a, b = e.idx[0] - x, f.idx[0] - y
    c = cur()
    # [lo + a, hi + a) and [lo' + b, hi' + b)
    return c.entails(T.f_lt0(e.hi + a - f.lo - b - ONE)) is True or c.entails(T.f_lt0(f.hi + b - e.lo - a - ONE)) is True


class View:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def items(self):
        out = []
        for e in self.d.merged():
            if type(e) is DSeg:
                if not e.injective():
                    raise Unsupported("iteration over a mapping whose keys may coincide")
                out.append(Seg(e.lo, e.hi, {"keys": e.kfn, "values": e.vfn,
                                            "items": lambda t, e=e: (e.kfn(t), e.vfn(t))}[self.kind]))
            else:
                out.append({"keys": e[0], "values": e[1], "items": e}[self.kind])
        return norm(out)

    def __iter__(self):
        return iter(self.items())

    def __contains__(self, k):
        if self.kind == "keys":
            return k in self.d
        return k in VList(self.items())

    def __len__(self):
        return len(self.items())


class _DM(type):
    def __instancecheck__(cls, x):
        return is_vdict(x) or isinstance(x, builtins.dict)


@writes
class VDict(metaclass=_DM):
    """Entries in order; later ones override earlier ones."""

    @staticmethod
    def fromkeys(xs, value=None):
        if type(xs).__name__ == "Gen":
            xs = xs.all()
        r = raw(xs)
        if r is not None and has_seg(xs):
            r = raw(vset(xs))
            xs = VList([Seg(i.lo, i.hi, lambda t, i=i: (i.at(t), value)) if type(i) is Seg else (i, value) for i in r])
            return VDict(xs)
        return VDict([(k, value) for k in (xs if r is None else r)])

    def __init__(self, x=(), **kw):
        self.e = []
        if is_vdict(x):
            self.e = builtins.list(x.e)
        elif isinstance(x, builtins.dict):
            for k in x:
                self[k] = x[k]
        else:
            for i in raw(x) if raw(x) is not None else builtins.list(x):
                if type(i) is Seg:
                    d = DSeg(i.lo, i.hi, lambda t, i=i: i.at(t)[0], lambda t, i=i: i.at(t)[1])
                    if not d.injective():
                        raise Unsupported("keys of a mapping of unknown size")
                    self.e.append(d)
                else:
                    self[i[0]] = i[1]
        for k, v in kw.items():
            self[k] = v

    def find(self, k):
        for e in reversed(self.e):
            if type(e) is DSeg:
                ok, v = e.find(k)
                if ok:
                    if type(v) is VList or is_vdict(v):
                        if self.frozen:
                            raise Unsupported("change of a member of a sequence of unknown length")
                        # an entry of its own, which the code can change
                        v = v.copy()
                        self.e.append((k, v))
                    return True, v
            elif cur().decide(keq(e[0], k)):
                return True, e[1]
        return False, None

    def __contains__(self, k):
        return self.find(k)[0]

    def __getitem__(self, k):
        ok, v = self.find(k)
        if not ok:
            raise KeyError(k)
        return v

    def get(self, k, default=None):
        ok, v = self.find(k)
        return v if ok else default

    def setdefault(self, k, v=None):
        ok, w = self.find(k)
        if ok:
            return w
        self[k] = v
        return v

    def __setitem__(self, k, v):
        for i, e in builtins.enumerate(self.e):
            if type(e) is not DSeg and e[0] is k:
                self.e[i] = (e[0], v)
                return
            if type(e) is not DSeg and not any(type(x) is DSeg for x in self.e) and cur().decide(keq(e[0], k)):
                self.e[i] = (e[0], v)
                return
        self.e.append((k, v))

    def __delitem__(self, k):
        if any(type(e) is DSeg for e in self.e):
            raise Unsupported("del in a mapping of unknown size")
        for i, e in builtins.enumerate(self.e):
            if cur().decide(keq(e[0], k)):
                del self.e[i]
                return
        raise KeyError(k)

    def pop(self, k, *d):
        ok, v = self.find(k)
        if ok:
            del self[k]
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def update(self, o=(), **kw):
        if is_vdict(o):
            for e in o.e:
                if type(e) is DSeg:
                    self._put(e)
                else:
                    self[e[0]] = e[1]
        else:
            for k, v in (o.items() if isinstance(o, builtins.dict) else o):
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def _put(self, d):
        """Add entries; in the place of those with the same keys."""
        for i, e in builtins.enumerate(self.e):
            if type(e) is DSeg and e.fam == d.fam and e.injective() and d.injective() and \
                    same_poly(e.idx[0] - d.idx[0]) and same_poly(e.lo - d.lo) and same_poly(e.hi - d.hi) and \
                    not any((f.fam if type(f) is DSeg else (secret_key(f[0]) or (None,))[0]) == d.fam
                            for f in self.e[i + 1:]):
                self.e[i] = DSeg(e.lo, e.hi, e.kfn, d.vfn)
                return
        self.e.append(d)

    def merged(self):
        """The entries without overridden ones."""
        if len(self.e) <= 1 or not any(type(e) is DSeg for e in self.e):
            return self.e
        # an entry in place of a member of a family
        es, i = builtins.list(self.e), 0
        while i < len(es):
            x = es[i]
            sk = secret_key(x[0]) if type(x) is not DSeg else None
            for j in builtins.range(i if sk is not None else 0):
                d = es[j]
                if type(d) is DSeg and d.fam == sk[0] and d.injective():
                    t = d.position(sk)
                    if t is None:
                        continue
                    es[j:i + 1] = [DSeg(d.lo, t, d.kfn, d.vfn), x, DSeg(t + ONE, d.hi, d.kfn, d.vfn)] + es[j + 1:i]
                    i += 1
                    break
            i += 1
        out = []
        for i, e in builtins.enumerate(es):
            later = es[i + 1:]
            for f in later:
                if type(e) is DSeg and type(f) is DSeg and e.fam == f.fam and not apart(e, f) or \
                        type(e) is not DSeg and type(f) is not DSeg and f[0] is not e[0] and \
                        cur().decide(keq(e[0], f[0])):
                    raise Unsupported("overridden entries of unknown number")
                if (type(e) is DSeg) != (type(f) is DSeg):
                    d, x = (e, f) if type(e) is DSeg else (f, e)
                    if d.find(x[0])[0]:
                        raise Unsupported("overridden entries of unknown number")
            out.append(e)
        return out

    def keys(self):
        return View(self, "keys")

    def values(self):
        return View(self, "values")

    def items(self):
        return View(self, "items")

    def key_items(self):
        return View(self, "keys").items()

    def __iter__(self):
        return iter(self.key_items())

    def __len__(self):
        return builtins.len(self.key_items()) if not any(type(e) is DSeg for e in self.e) else Seg._u(self)

    def __bool__(self):
        return bool(mkbool(T.fnot(T.f_eq0(length(self.key_items())))))

    def copy(self):
        return VDict(self)

    __copy__ = copy

    def __eq__(self, o):
        if not isinstance(o, VDict):
            return NotImplemented
        if not is_vdict(o):
            o = VDict(o)
        if not o.e or not self.e:
            return not bool(self) and not bool(o)
        if any(type(e) is DSeg for e in self.e + o.e):
            raise Unsupported("equality of mappings of unknown size")
        return len(self.e) == len(o.e) and builtins.all(k in o and bool(o[k] == v) for k, v in self.e)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join("%r: %r" % (k, v) for k, v in self.e) + "}"


class VDefault(VDict):
    """collections.defaultdict"""

    def __init__(self, factory=None, x=()):
        VDict.__init__(self, x)
        self.factory = factory

    def __getitem__(self, k):
        ok, v = self.find(k)
        if not ok:
            if self.factory is None:
                raise KeyError(k)
            v = self.factory()
            self[k] = v
        return v


def vset(x=()):
    """set(x): the different elements."""
    r = raw(x)
    if r is None:
        r = builtins.list(x)
    out = VList()
    seen = {}                    # family -> "inj", or [classes, position reached]
    c = cur()

    def pattern_of(sk):
        a = sk[1].single_atom() if sk is not None and len(sk) == 2 else None
        cl = getattr(c, "classes", {}).get(a.args[0]) if a is not None and a.kind == "var" else None
        return (None, None, None) if cl is None else (cl, a.args[3], a)

    def same(a, b):
        return (a - b).is_zero() or c.decide(T.f_eq0(a - b))

    def cover(fam, cl, lo, hi, x, a):
        """The elements lo..hi of a pattern are met: all its classes, once all its elements are."""
        s = seen.setdefault(fam, [cl, ZERO])
        if s == "inj" or s[0] is not cl or not same(s[1], lo):
            raise Unsupported("set of overlapping sequences")
        s[1] = hi
        if lo.is_zero():
            builtins.list.append(out, Seg(ZERO, cl[0], lambda t: subst_obj(x, a.id, t, top=True)))
    for i in r:
        if type(i) is Seg:
            e = T.atom("var", "#k", i.lo, i.hi)
            sk = secret_key(i.at(patom(e)))
            if sk is None or len(sk) != 2:
                raise Unsupported("set of a sequence of unknown length")
            if (sk[1] - patom(e)).is_const():
                if sk[0] in seen:
                    raise Unsupported("set of overlapping sequences")
                seen[sk[0]] = "inj"
                builtins.list.append(out, i)
                continue
            cl, at, a = pattern_of(sk)
            if cl is None or not (at - patom(e)).is_const():
                raise Unsupported("set of a sequence of unknown length")
            at = at - patom(e)
            if sk[0] in seen and seen[sk[0]] != "inj" and seen[sk[0]][0] is cl and same(seen[sk[0]][1], cl[1]):
                continue         # all the classes are there
            cover(sk[0], cl, i.lo + at, i.hi + at, i.at(patom(e)), a)
        else:
            if any(c.decide(keq(i, y)) for y in raw(out) if type(y) is not Seg):
                continue
            sk = secret_key(i)
            cl, at, a = pattern_of(sk)
            if cl is not None:
                if sk[0] in seen and seen[sk[0]] != "inj" and seen[sk[0]][0] is cl and same(seen[sk[0]][1], cl[1]):
                    continue
                cover(sk[0], cl, at, at + ONE, i, a)
                continue
            if sk is not None and sk[0] in seen:
                raise Unsupported("set of overlapping sequences")
            builtins.list.append(out, i)
    for s in seen.values():
        if s != "inj" and not same(s[1], s[0][1]):
            raise Unsupported("set of some of the elements of a pattern")
    return out


# ---------------------------------------------------------------------------
# substitution in values


def subst(v, aid, t):
    """The value with the atom aid replaced by t; the same object if nothing changes."""
    if type(v) is Poison:
        return v
    if v is None or isinstance(v, (builtins.bool, builtins.int, builtins.float, type)):
        return v
    if isinstance(v, (builtins.str, builtins.bytes)):
        return tokens.subst(v, aid, t)
    if isinstance(v, stubs.Bn):
        p = T.subst_poly(v.p, aid, t)
        return v if p is v.p else stubs.mkbn(p)
    if isinstance(v, stubs.SInt):
        p = T.subst_poly(v.p, aid, t)
        return v if p is v.p else stubs.mkint(p)
    if isinstance(v, SBool):
        return mkbool(T.subst_form(v.f, aid, t)) if T.depends(v.f, aid) else v
    if isinstance(v, stubs.EcPt):
        l = T.subst_lin(v.l, aid, t)
        return v if l is v.l else stubs.mkpt(l, v.group)
    if isinstance(v, stubs._El):
        l = T.subst_lin(v.l, aid, t)
        return v if l is v.l else stubs.mkel(type(v), l, v.group)
    ty = type(v)
    if ty is VList or ty is builtins.list:
        r = raw(v)
        n = [subst(x, aid, t) for x in r]
        return v if builtins.all(x is y for x, y in builtins.zip(r, n)) else VList(n)
    if ty is builtins.tuple:
        n = [subst(x, aid, t) for x in v]
        return v if builtins.all(x is y for x, y in builtins.zip(v, n)) else builtins.tuple(n)
    if ty is Seg:
        return subst_seg(v, aid, t)
    if ty is DSeg:
        return subst_dseg(v, aid, t)
    if ty in (VDict, VDefault):
        n = [e if type(e) is DSeg and not dseg_depends(e, aid) else subst(e, aid, t) for e in v.e]
        if builtins.all(x is y for x, y in builtins.zip(v.e, n)):
            return v
        d = VDict()
        if ty is VDefault:
            d = VDefault(v.factory)
        d.e = n
        return d
    if ty is builtins.dict:
        n = {k: subst(x, aid, t) for k, x in v.items()}
        return v if builtins.all(n[k] is v[k] for k in v) else n
    f = getattr(ty, "__zkv_subst__", None)
    if f is not None:
        return f(v, aid, t)
    if is_code(v):
        return subst_obj(v, aid, t)
    return v


def fresh_index(lo, hi):
    c = cur()
    n = c.counter.get("#x", 0)
    c.counter["#x"] = n + 1
    return T.atom("var", "#x%d" % n, lo, hi)


def subst_seg(s, aid, t):
    x = fresh_index(s.lo, s.hi)
    lo, hi = T.subst_poly(s.lo, aid, t), T.subst_poly(s.hi, aid, t)
    v = s.at(patom(x))
    w = subst(v, aid, t)
    if w is v and lo == s.lo and hi == s.hi:
        return s
    # the bounds of x may contain aid
    x2 = T.subst_atom(x, aid, t).single_atom()
    return Seg(lo, hi, lambda u: subst(w, x2.id, u))


def dseg_depends(e, aid):
    x = fresh_index(e.lo, e.hi)
    return (T.depends(e.lo, aid) or T.depends(e.hi, aid) or subst(e.vfn(patom(x)), aid, ZERO) is not e.vfn(patom(x))
            or subst(e.kfn(patom(x)), aid, ZERO) is not e.kfn(patom(x)))


def subst_dseg(e, aid, t):
    x = fresh_index(e.lo, e.hi)
    k, v = subst(e.kfn(patom(x)), aid, t), subst(e.vfn(patom(x)), aid, t)
    x2 = T.subst_atom(x, aid, t).single_atom()
    return DSeg(T.subst_poly(e.lo, aid, t), T.subst_poly(e.hi, aid, t), lambda u: subst(k, x2.id, u),
                lambda u: subst(v, x2.id, u), e.R)


_active = []


def subst_obj(v, aid, t, top=False):
    c = cur()
    o = own(c).get(id(v))
    if o is not None and not top:
        # a member of a family of objects: the member with the other index
        seg, u, _ = o
        w = T.subst_poly(u, aid, t)
        return v if w is u or w == u else seg.at(w)
    if _active:
        return _subst_obj(v, aid, t, _active[-1])
    _active.append({})
    try:
        return _subst_obj(v, aid, t, _active[-1])
    finally:
        _active.pop()


def _subst_obj(v, aid, t, memo):
    key = (id(v), aid, t)
    if key in memo:
        return memo[key][1]
    memo[key] = (v, v)           # cycles
    new = {n: subst(x, aid, t) for n, x in v.__dict__.items()}
    if builtins.all(new[n] is x for n, x in v.__dict__.items()):
        return v
    w = object.__new__(type(v))
    w.__dict__.update(new)
    memo[key] = (v, w)
    return w
