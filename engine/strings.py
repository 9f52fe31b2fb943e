"""Comparisons of strings that contain symbolic values.

`==`, `!=`, `in` and `not in` in the code of the package are evaluated here: strings, also inside lists, tuples, dicts
and attrs objects, are equal if their parts are (a formula), not only if their tokens are.  Everything else is compared
natively.
"""
import ast

from . import terms as T
from . import tokens
from .ctx import form, mkbool, Unsupported


def symbolic(x):
    if isinstance(x, str):
        return "{T" in x or "7b54" in x
    if isinstance(x, (bytes, bytearray)):
        return b"{T" in x or b"7b54" in x
    return False


def plain(x):
    if isinstance(x, str):
        return str(x) if type(x) is not str else x
    return bytes(x)


def holds(x, depth=0):
    """x contains symbolic text."""
    if isinstance(x, (str, bytes, bytearray)):
        return symbolic(x)
    if depth > 6:
        return False
    if type(x) in (list, tuple):
        return any(holds(y, depth + 1) for y in x)
    if type(x) is dict:
        return any(holds(y, depth + 1) for y in x.values())
    if attrs_fields(x):
        return any(holds(getattr(x, n, None), depth + 1) for n in attrs_fields(x))
    return False


def attrs_fields(x):
    t = type(x)
    if "__attrs_attrs__" not in t.__dict__ or getattr(t.__eq__, "__module__", None) == "builtins":
        return ()
    f = t.__dict__.get("__eq__")
    if f is None or "attrs generated" not in getattr(getattr(f, "__code__", None), "co_filename", ""):
        return ()
    return [a.name for a in t.__attrs_attrs__ if a.eq]


def text_eq(x, y):
    x, y = plain(x), plain(y)
    if x == y:
        return T.TRUE
    return tokens.bytes_eq(x, y)


def eq_form(x, y):
    if isinstance(x, str) and isinstance(y, str) or isinstance(x, (bytes, bytearray)) and isinstance(y, (bytes, bytearray)):
        if symbolic(x) or symbolic(y):
            return text_eq(x, y)
        return form(x == y)
    if type(x) is type(y) and (holds(x) or holds(y)):
        if type(x) in (list, tuple):
            if len(x) != len(y):
                return T.FALSE
            return T.fand([eq_form(a, b) for a, b in zip(x, y)])
        if type(x) is dict:
            if len(x) != len(y) or any(k not in y for k in x):
                if any(symbolic(k) for k in list(x) + list(y)):
                    raise Unsupported("dictionaries with symbolic keys")
                return T.FALSE
            return T.fand([eq_form(x[k], y[k]) for k in x])
        fs = attrs_fields(x)
        if fs:
            return T.fand([eq_form(getattr(x, n), getattr(y, n)) for n in fs])
    return form(x == y)


def special(x, y):
    return x is not y and (holds(x) or holds(y))


def eq(x, y):
    if special(x, y):
        return mkbool(eq_form(x, y))
    return x == y


def ne(x, y):
    if special(x, y):
        return mkbool(T.fnot(eq_form(x, y)))
    return x != y


def isin(x, c):
    if type(c) in (list, tuple, set, frozenset, dict) and type(x) in (str, bytes, tuple, list) and (
            holds(x) or type(x) in (str, bytes) and any(symbolic(y) for y in c)):
        return mkbool(T.for_([T.TRUE if x is y else eq_form(x, y) for y in c]))
    return x in c


def notin(x, c):
    r = isin(x, c)
    return mkbool(T.fnot(form(r)))


def length(x):
    if isinstance(x, (str, bytes)) and symbolic(x) and not hasattr(x, "content"):
        for p in tokens.parts(x):
            if not isinstance(p, str) and p[0] in ("bin", "hex", "dec", "intbytes", "seg", "enc", "str") or \
                    not isinstance(p, str) and p[0].startswith("dec"):
                raise Unsupported("the length of a text")
    return len(x)


FNS = {ast.Eq: "__zks_eq__", ast.NotEq: "__zks_ne__", ast.In: "__zks_in__", ast.NotIn: "__zks_notin__"}


class _Rewriter(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1 or type(n.ops[0]) not in FNS:
            return n
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name(FNS[type(n.ops[0])], ast.Load()), n),
                                          [n.left, n.comparators[0]], []), n)


def transform(tree):
    return ast.fix_missing_locations(_Rewriter().visit(tree))


def extra():
    return dict(__zks_eq__=eq, __zks_ne__=ne, __zks_in__=isin, __zks_notin__=notin, len=length)
