"""Scenario environments.

A scenario is a function scen(env, **params) that drives the real code of /repo and states
obligations with env.check.  SymEnv runs it in the verifier (all scalars, points and random numbers
symbolic, every path); ConEnv runs the same scenario on the real petlib and bplib (replay of
counterexamples, and a bounded battery).
"""
import random as _random


class Fail(Exception):
    """An obligation failed in a concrete run."""

    def __init__(self, label, detail=""):
        Exception.__init__(self, label)
        self.label, self.detail = label, detail


class Skip(BaseException):
    """The drawn values do not satisfy the assumptions (concrete runs)."""


class BaseEnv:
    symbolic = False

    def shared(self, name, make):
        d = self.__dict__.setdefault("_shared", {})
        if name not in d:
            d[name] = make()
        return d[name]

    # -- the code under verification
    @property
    def z(self):
        return self.load("zksk")

    def m(self, name):
        return self.load("zksk." + name if name else "zksk")

    def group(self, nid=None):
        if nid is None:
            return self.m("consts").DEFAULT_GROUP
        return self.load("petlib.ec").EcGroup(nid)

    def bn(self, n):
        """A number of any size as a big number."""
        n = int(n)
        B = self.Bn
        if abs(n) < 1 << 31:
            return B(n)
        if n < 0:
            return -B.from_decimal(str(-n))
        return B.from_decimal(str(n))

    @property
    def Bn(self):
        return self.load("petlib.bn").Bn

    def gens(self, n, group=None, tag="b"):
        return [self.gen(i, group, tag) for i in range(n)]

    def gen(self, i, group=None, tag="b"):
        group = group or self.group()
        if hasattr(group, "bp") and type(group).__name__ != "G1Group":
            return self.bn(7919 * (i + 2) + len(tag)) * group.generator()
        return group.hash_to_point(b"zkv/%s/%d" % (tag.encode(), i))

    def mod(self, a, m):
        return self.mkbn(a) % self.mkbn(m)

    def mkbn(self, a):
        return a if isinstance(a, self.Bn) else self.Bn(a)

    # -- outcomes
    def outcome(self, fn, *a, **k):
        """('ok', value) or ('raise', exception)."""
        try:
            return "ok", fn(*a, **k)
        except Exception as e:
            return "raise", e

    def accepts(self, fn, *a, **k):
        """Whether a verification accepts; a rejection may be an error or a false result."""
        try:
            r = fn(*a, **k)
        except RecursionError as e:
            if self.symbolic and type(e) is RecursionError:
                raise                        # of the verifier itself
            return False
        except Exception as e:
            self.note("rejected: %s: %s" % (type(e).__name__, str(e)[:80]))
            return False
        return self.truth(r)

    def check_raises(self, label, fn, *a, **k):
        how, v = self.outcome(fn, *a, **k)
        self.check(how == "raise", label, "expected an error, got %r" % (type(v).__name__,))
        return v

    def check_reject(self, label, fn, *a, **k):
        self.check(not self.accepts(fn, *a, **k), label, "accepted")

    def check_accept(self, label, fn, *a, **k):
        how, v = self.outcome(fn, *a, **k)
        if how == "raise":
            self.check(False, label, "error: %s: %s" % (type(v).__name__, str(v)[:200]))
        self.check(v is True or self.truth(v), label, "rejected (%r)" % (v,))
        self.check(v is True or v is False or isinstance(v, self.boolish), label + " (result is a boolean)")

    def all(self, conds):
        r = True
        for c in conds:
            if c is True:
                continue
            if c is False:
                return False
            r = c if r is True else r & c
        return r

    def any(self, conds):
        r = False
        for c in conds:
            if c is False:
                continue
            if c is True:
                return True
            r = c if r is False else r | c
        return r

    def same(self, a, b):
        """Deep equality of nested lists of numbers and points (tuples and lists alike)."""
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
                return False
            return self.all([self.same(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
                return False
            return self.all([self.same(a[k], b[k]) for k in a])
        if a is None or b is None:
            return a is b
        if isinstance(a, (str, bytes, bool)) or isinstance(b, (str, bytes, bool)):
            return a == b
        an, bn_ = self.isnum(a), self.isnum(b)
        if an != bn_:
            return False
        if an:
            return self.mkbn(a) == self.mkbn(b)
        if type(a) is not type(b):
            return False
        if hasattr(a, "group") and a.group != b.group:
            return False
        return a == b

    def form_of(self, x):
        """Types, nesting and order of a proof part."""
        if isinstance(x, (list, tuple)):
            return (type(x).__name__,) + tuple(self.form_of(y) for y in x)
        if isinstance(x, dict):
            return ("dict",) + tuple((k, self.form_of(x[k])) for k in x)
        return type(x).__name__

    def isnum(self, x):
        return isinstance(x, self.numtypes) and not isinstance(x, bool)

    def flat(self, x):
        if isinstance(x, (list, tuple)):
            out = []
            for y in x:
                out.extend(self.flat(y))
            return out
        if isinstance(x, dict):
            return self.flat([x[k] for k in sorted(x)])
        return [] if x is None else [x]

    def note(self, text):
        pass
