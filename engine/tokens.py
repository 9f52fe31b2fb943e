"""Symbolic values inside strings and byte strings.

A symbolic value that is printed or exported becomes a token of fixed width; equal terms have equal
tokens, so that native strings work.  Equality of strings with different tokens is decided part by
part (the rendering of numbers and points is injective).
"""
import re

from . import terms as T

WIDTH = 12
# renderings of unknown length are long, so that a part of one is recognised as such
LONG = {"dec": 60, "hex": 200, "bin": 200, "intbytes": 200}
_tok = {}
_vals = []


def token(kind, value, width=WIDTH):
    """kind: 'int' | 'pt' | 'hash' | ...; value: hashable."""
    key = (kind, value)
    i = _tok.get(key)
    if i is None:
        i = len(_vals)
        _tok[key] = i
        _vals.append(key)
    return "{T%08xT" % i + "." * (max(width, LONG.get(kind, 0)) - WIDTH) + "}"


def btoken(kind, value, width=WIDTH):
    return token(kind, value, width).encode()


RX = re.compile(r"\{T([0-9a-f]{8})T\.*\}")
HEXTOK = re.compile("7b54((?:3[0-9]|6[1-6]){8})54(?:2e)*7d")


def unhex_tokens(s):
    return HEXTOK.sub(lambda m: bytes.fromhex(m.group(0)).decode(), s)


def lookup(s):
    """The value of a string that is exactly one token, else None."""
    if isinstance(s, (bytes, bytearray)):
        try:
            s = bytes(s).decode("latin-1")
        except Exception:
            return None
    m = RX.fullmatch(s)
    if not m:
        m2 = HEXTOK.fullmatch(s)
        if not m2:
            return None
        m = RX.fullmatch(unhex_tokens(s))
    return _vals[int(m.group(1), 16)]


def parts(s):
    if isinstance(s, (bytes, bytearray)):
        s = bytes(s).decode("latin-1")
    s = unhex_tokens(s)
    out, pos = [], 0
    for m in RX.finditer(s):
        if m.start() > pos:
            out.append(whole(s[pos:m.start()]))
        out.append(_vals[int(m.group(1), 16)])
        pos = m.end()
    if pos < len(s):
        out.append(whole(s[pos:]))
    return out


def whole(s):
    """A piece of text that is no part of a token."""
    if "{T" in s and CUT.search(s) or "7b54" in s and HEXCUT.search(s) or TAIL.search(s):
        from .ctx import Unsupported
        raise Unsupported("a part of an encoding")
    return s


CUT = re.compile(r"\{T[0-9a-f]{4,8}(T|$)")
TAIL = re.compile(r"^[0-9a-f]{0,8}T?\.{2,}\}|\.{12}|(?:2e){12}")
HEXCUT = re.compile("7b54((?:3[0-9]|6[1-6]){4,8})(54|$)")


PLAIN = ("dec", "hex", "bin", "intbytes")


def val_eq(a, b, apart=False):
    """Formula: two token values are equal.

    apart: no sequence of another unknown length is in the same list."""
    if a == b:
        return T.TRUE
    ka, va = a
    kb, vb = b
    if ka != kb:
        if ka.startswith(PLAIN) and kb.startswith(PLAIN):
            return ("opq", "kinds", a, b)
        # other kinds of rendering never coincide
        return T.FALSE
    if ka in ("dec", "hex", "bin") or ka.startswith("dec"):
        return T.f_eq0(va - vb)
    if ka == "intbytes":
        f = T.f_eq0(va[0] - vb[0])
        return f if va[1:] == vb[1:] else ("opq", "intbytes", va, vb)
    if ka in ("binslice", "hexslice"):
        # hashes differ in each of their (long enough) parts
        f = bytes_eq(va[0], vb[0])
        short = not isinstance(va[1], int) or not isinstance(va[2], int) or va[2] - va[1] < 16
        return f if va[1:] == vb[1:] and not short else ("opq", ka, va, vb)
    if ka == "seg":
        # sequences of the same length, element by element
        (lo, hi, i, x), (lo2, hi2, i2, y) = va, vb
        if (hi - lo) != (hi2 - lo2):
            n = T.f_eq0((hi - lo) - (hi2 - lo2))
            if n[0] == "false":
                return n
            if n[0] != "true" and not apart:
                return ("opq", "seglen", va, vb)
        else:
            n = T.TRUE
        with T.binder(lo, hi, "#t") as e:
            k = T.patom(e)
            return T.fand([n, T.f_all(lo, hi, e.id, bytes_eq(subst(x, i, k), subst(y, i2, k - lo + lo2)))])
    if ka == "pt" or ka.startswith("ptexp"):
        if va[0] != vb[0]:
            return T.FALSE
        return T.f_peq0(va[1] - vb[1])
    if ka in ("digest", "hexdigest", "enc"):
        return bytes_eq(va, vb)
    if ka == "fsec":
        if va[0] != vb[0] or len(va) != len(vb):
            return T.FALSE
        return T.fand([T.f_eq0(x - y) for x, y in zip(va[1:], vb[1:])])
    if ka == "str":
        return T.FALSE          # arbitrary strings of different names are different
    return T.FALSE


def bytes_eq(a, b):
    if a == b:
        return T.TRUE
    pa, pb = parts(a), parts(b)
    if len(pa) != len(pb):
        return T.FALSE
    fs = []
    for j, (x, y) in enumerate(zip(pa, pb)):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return T.FALSE
        else:
            fs.append(val_eq(x, y, x[0] == "seg" and alone(pa, j) and alone(pb, j)))
    return T.fand(fs)


def alone(ps, j):
    """Whether the sequence ps[j] is the only one of unknown length in its list."""
    for k in (range(j + 1, len(ps)), range(j - 1, -1, -1)):
        for i in k:
            if isinstance(ps[i], str):
                if "]" in ps[i] or "[" in ps[i]:
                    break
            elif ps[i][0] == "seg":
                return False
    return True


def depends(s, aid):
    """Whether the symbolic values in a string contain the atom aid."""
    if isinstance(s, str) and "{T" not in s and "7b54" not in s:
        return False
    if isinstance(s, bytes) and b"{T" not in s and b"7b54" not in s:
        return False
    return any(not isinstance(x, str) and val_depends(x[0], x[1], aid) for x in parts(s))


def val_depends(k, v, aid):
    if k == "seg":
        lo, hi, i, x = v
        return T.depends(lo, aid) or T.depends(hi, aid) or i != aid and T.depends(x, aid)
    return T.depends(v, aid)


def val_subst(k, v, aid, t):
    if k == "seg":
        lo, hi, i, x = v
        lo, hi = T.subst_any(lo, aid, t), T.subst_any(hi, aid, t)
        if i != aid and T.depends(x, aid):
            if T.depends(t, i):
                # no capture: another name for the bound index
                n = 0
                while True:
                    e = T.atom("var", "#s%d'" % n, lo, hi)
                    if not T.depends(t, e.id) and not T.depends(x, e.id):
                        break
                    n += 1
                x = T.subst_any(x, i, T.patom(e))
                i = e.id
            x = T.subst_any(x, aid, t)
        return lo, hi, i, x
    return T.subst_any(v, aid, t)


def subst(s, aid, t):
    if not depends(s, aid):
        return s
    if hasattr(s, "content"):
        return s.subst(aid, t)
    raw = s.decode("latin-1") if isinstance(s, bytes) else s

    def one(m):
        k, v = _vals[int(m.group(1), 16)]
        if not val_depends(k, v, aid):
            return m.group(0)
        return token(k, val_subst(k, v, aid, t), len(m.group(0)))
    r = RX.sub(one, raw)
    r = HEXTOK.sub(lambda m: one(RX.fullmatch(unhex_tokens(m.group(0)))).encode().hex(), r)
    return r.encode("latin-1") if isinstance(s, bytes) else r
