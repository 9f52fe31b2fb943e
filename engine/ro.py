"""Hash functions as random oracles.

p = A h + B with a hash output h (or a residue of one): if A and B are determined by what was hashed
to get h, then p = 0 only with negligible probability unless A = B = 0.  If something in A or B was not
hashed (it may have been chosen afterwards), nothing is concluded.
"""
from . import terms as T
from . import tokens
from .terms import Poly, Lin, by_id, patom

_in = {}
_leaf = {}


def content_of(a):
    return a.args[0]


def big_hash(a):
    if a.kind == "hash":
        return True
    return a.kind == "hslice" and a.args[2] - a.args[1] >= 100


def input_atoms(content):
    """Atoms that determine (and, except for residues, are determined by) hashed bytes."""
    r = _in.get(content)
    if r is None:
        r = set()
        for x in tokens.parts(content):
            if isinstance(x, str):
                continue
            k, v = x
            r |= val_atoms(k, v)
        _in[content] = r = frozenset(r)
    return r


def val_atoms(k, v):
    r = set()
    if isinstance(v, Poly):
        r |= leaves(v)
    elif isinstance(v, Lin):
        for b, p in v.c.items():
            r |= leaves(p)
    elif isinstance(v, (bytes, str)) and k in ("digest", "hexdigest"):
        r |= input_atoms(v)
    elif isinstance(v, tuple):
        for y in v:
            r |= val_atoms(k, y)
    return r


def leaves(p):
    r = _leaf.get(p)
    if r is None:
        r = set()
        for i in p.atoms():
            a = by_id(i)
            if a.kind in ("var", "rnd"):
                r.add(i)
            elif a.kind in ("hash", "hslice"):
                r |= input_atoms(a.args[0])
            elif a.kind == "order":
                pass
            else:
                n = 0
                for x in a.args:
                    if isinstance(x, Poly):
                        r |= leaves(x)
                        n += 1
                if not n:
                    r.add(i)
        _leaf[p] = r = frozenset(r)
    return r


def carriers(p):
    """Atoms of p through which a hash output enters: {atom id: hash atom}."""
    out = {}
    for i in p.atoms():
        a = by_id(i)
        if big_hash(a):
            out.setdefault(i, []).append(a)
        elif a.kind == "mod":
            b = T.bounds(a.args[1])[0]
            if b is None or b < 1 << 100:
                continue
            q = a.args[0]
            for j in q.atoms():
                h = by_id(j)
                if big_hash(h) and q.m.get(((j, 1),)) in (1, -1) \
                        and sum(1 for mono in q.m for x, _ in mono if x == j) == 1:
                    out.setdefault(i, []).append(h)
    return out


def split(p, i):
    """p = A x + B for the atom x with id i (None unless linear)."""
    A, B = {}, {}
    for mono, c in p.m.items():
        d = dict(mono)
        e = d.pop(i, 0)
        if e > 1:
            return None
        (A if e else B)[tuple(sorted(d.items()))] = c
    return Poly(A), Poly(B)


def mentions(p, h):
    """h occurs in p, also inside residues (but not inside what other hashes hash)."""
    for i in p.atoms():
        a = by_id(i)
        if a is h:
            return True
        if a.kind not in ("hash", "hslice", "var", "rnd"):
            for x in a.args:
                if isinstance(x, Poly) and mentions(x, h):
                    return True
    return False


def try_split(parts, done=None):
    """parts: polynomials that vanish together.  Returns [(A, B), ...] or None."""
    for i in {j for p in parts for j in p.atoms()}:
        x = by_id(i)
        hs = []
        for p in parts:
            hs = carriers(p).get(i, hs) or hs
        for h in hs:
            inp = input_atoms(h.args[0])
            out = []
            ok = True
            for p in parts:
                s = split(p, i)
                if s is None or mentions(s[0], h) or mentions(s[1], h) or not (leaves(s[0]) | leaves(s[1])) <= inp:
                    ok = False
                    break
                out.append(s)
            if ok and x.kind == "mod" and x.args[0] != patom(h):
                # the residue is uniform whatever is added to the hash, if that was fixed before
                rest = split(x.args[0], h.id)
                if rest is None or not leaves(rest[1]) <= inp:
                    ok = False
            if ok and any(not a.is_zero() for a, _ in out):
                return out
    return None


def eqm(p, m):
    s = try_split([p])
    if s is None:
        return None
    a, b = s[0]
    if a.is_const() and (m.is_const() and m.const() % 2 == 0 and a.const() % 2 == 1 or abs(a.const()) < T.BIG):
        if m.is_const() and a.const() % 2 == 0:
            return None
        return T.FALSE
    if m.is_const():
        return None
    return T.fand([T.f_eqm(a, m), T.f_eqm(b, m)])


def eq0(p):
    s = try_split([p])
    if s is None:
        return None
    a, b = s[0]
    if a.is_const():
        return T.FALSE
    return T.fand([T.f_eq0(a), T.f_eq0(b)])


def peq0(l):
    bs = sorted(l.c)
    s = try_split([l.c[b] for b in bs])
    if s is None:
        return None
    mk = lambda k: Lin({b: T.strip_mod(x[k], l.q) for b, x in zip(bs, s) if not T.strip_mod(x[k], l.q).is_zero()}, l.q)
    return T.fand([T.f_peq0(mk(0)), T.f_peq0(mk(1))])
