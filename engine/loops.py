"""Loops over sequences of unknown length.

rewrite() changes the syntax tree of functions: every loop body becomes a local function, and every
comprehension a loop that appends; list, dict and set displays make VList, VDict and vset.  A loop over
a sequence without segments then runs as written.  For a loop over a segment the body is executed for
one iteration with an unknown index k; from its effect an inductive invariant is built (S(k), the state
before the iteration k), the body is executed again from S(k), and S(k + 1) has to be the result: that
is the obligation "the invariant is preserved".  After the loop S(hi) holds.  What fits no template is
Unsupported (undecided), never assumed.
"""
import ast
import builtins
import functools
import re
import types

from . import terms as T
from . import stubs, seq
from .ctx import cur, SBool, Unsupported, Prune, form, mkbool
from .seq import Seg, VList, VDict, DSeg, View, raw, has_seg, norm, Poison, is_code
from .terms import const, patom, ONE, ZERO, Poly, Lin, by_id

EMPTY = seq.EMPTY


# ---------------------------------------------------------------------------
# rewriting


class Ret:
    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value


class _Brk:
    pass


BRK = _Brk()


def _assigned(nodes):
    """Names bound by statements (not in nested functions)."""
    names, bad = [], []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                names.append(n.id)

        def visit_FunctionDef(self, n):
            names.append(n.name)

        visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                names.append(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                names.append((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_Global(self, n):
            bad.append(n)

        visit_Nonlocal = visit_Global

    v = V()
    for n in nodes:
        v.visit(n)
    return sorted(set(names)), bool(bad)


def _has(nodes, kinds, name=None):
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, kinds) or name and isinstance(x, ast.Name) and x.id == name:
                return True
    return False


class _Rewriter:
    def __init__(self):
        self.n = 0

    def fresh(self, s):
        self.n += 1
        return "__zkv_%s_%d__" % (s, self.n)

    # -- statements
    def block(self, stmts, mode):
        out = []
        for s in stmts:
            r = self.stmt(s, mode)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def stmt(self, s, mode):
        """mode: None outside of functions, "f" in a function, ("b", loop?) in the body of a rewritten loop,
        where loop? says whether break and continue belong to the rewritten loop."""
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            s.args = self.exprs(s.args, mode)
            s.decorator_list = [self.expr(d, mode) for d in s.decorator_list]
            s.body = self.block(s.body, "f" if not self.skip(s) else "n")
            return s
        if isinstance(s, ast.ClassDef):
            s.body = self.block(s.body, None)
            return s
        if isinstance(s, ast.Return) and isinstance(mode, tuple):
            v = self.expr(s.value, mode) if s.value else ast.Constant(None)
            return self.loc(ast.Return(ast.Call(ast.Name("__zkv_Ret__", ast.Load()), [v], [])), s)
        if isinstance(s, (ast.Break, ast.Continue)) and isinstance(mode, tuple) and mode[1]:
            v = ast.Name("__zkv_BRK__", ast.Load()) if isinstance(s, ast.Break) else ast.Constant(None)
            return self.loc(ast.Return(v), s)
        if isinstance(s, ast.For):
            return self.for_(s, mode)
        if isinstance(s, ast.While):
            s.test = self.expr(s.test, mode)
            inner = ("b", False) if isinstance(mode, tuple) else mode
            s.body, s.orelse = self.block(s.body, inner), self.block(s.orelse, mode)
            return s
        if isinstance(s, (ast.If, ast.With, ast.Try, ast.Match)):
            for f in ("body", "orelse", "finalbody"):
                if hasattr(s, f):
                    setattr(s, f, self.block(getattr(s, f), mode))
            if isinstance(s, ast.If):
                s.test = self.expr(s.test, mode)
            if isinstance(s, ast.With):
                s.items = [self.exprs(i, mode) for i in s.items]
            if isinstance(s, ast.Match):
                s.subject = self.expr(s.subject, mode)
                for c in s.cases:
                    c.body = self.block(c.body, mode)
                    if c.guard:
                        c.guard = self.expr(c.guard, mode)
            if isinstance(s, ast.Try):
                for h in s.handlers:
                    h.body = self.block(h.body, mode)
            return s
        return self.exprs(s, mode)

    def skip(self, f):
        """Functions whose loops stay as they are."""
        own = [x for st in f.body for x in self.own_walk(st)]
        return any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in own)

    def own_walk(self, n):
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                yield from self.own_walk(c)

    def loc(self, n, at):
        ast.copy_location(n, at)
        for c in ast.walk(n):
            if not hasattr(c, "lineno") and isinstance(c, (ast.expr, ast.stmt, ast.arg, ast.keyword)):
                ast.copy_location(c, at)
        return ast.fix_missing_locations(n)

    def for_(self, s, mode):
        import copy
        inner = ("b", False) if isinstance(mode, tuple) else mode
        names, bad = _assigned([s])
        plain = (mode is None or mode == "n" or s.orelse or bad or
                 _has(s.body, (ast.Yield, ast.YieldFrom, ast.Await, ast.ClassDef), "super") or
                 _has([s.target], (ast.Attribute, ast.Subscript)))
        if plain:
            s.iter = self.expr(s.iter, mode)
            s.body, s.orelse = self.block(s.body, inner), self.block(s.orelse, mode)
            return s
        it, body, res = self.fresh("it"), self.fresh("body"), self.fresh("r")
        src = copy.deepcopy(s)
        st = [ast.Assign([ast.Name(it, ast.Store())], self.expr(s.iter, mode))]
        x = self.fresh("x")
        b = []
        if names:
            b.append(ast.Nonlocal(list(names)))
        b.append(ast.Assign([src.target], ast.Name(x, ast.Load())))
        b.extend(self.block(src.body, ("b", True)))
        b.append(ast.Return(ast.Constant(None)))
        fn = ast.FunctionDef(body, ast.arguments([], [ast.arg(x)], None, [], [], None, []), b, [], None)
        fn.type_params = []
        call = ast.Assign([ast.Name(res, ast.Store())], ast.Call(ast.Name("__zkv_loop__", ast.Load()), [
            ast.Name(it, ast.Load()), ast.Name(body, ast.Load())], []))
        rv = ast.Name(res, ast.Load())
        if not isinstance(mode, tuple):
            rv = ast.Attribute(rv, "value", ast.Load())
        ret = ast.If(ast.Compare(ast.Name(res, ast.Load()), [ast.IsNot()], [ast.Constant(None)]), [ast.Return(rv)], [])
        nat = copy.deepcopy(s)
        nat.iter = ast.Name(it, ast.Load())
        nat.body = self.block(nat.body, inner)
        st.append(ast.If(ast.Call(ast.Name("__zkv_sym__", ast.Load()), [ast.Name(it, ast.Load())], []),
                         [fn, call, ret], [nat]))
        if names:
            # make them local to this function
            st.insert(0, ast.If(ast.Constant(False), [
                ast.Assign([ast.Name(n, ast.Store())], ast.Constant(None)) for n in names], []))
        return [self.loc(n, s) for n in st]

    # -- expressions
    def exprs(self, n, mode):
        return _Ex(self, mode).visit(n)

    def expr(self, n, mode):
        return _Ex(self, mode).visit(n)


class _Ex(ast.NodeTransformer):
    def __init__(self, rw, mode):
        self.rw, self.mode = rw, mode

    def visit_FunctionDef(self, n):
        return self.rw.stmt(n, self.mode)

    def visit_ClassDef(self, n):
        return self.rw.stmt(n, self.mode)

    def name(self, n):
        return ast.Name(n, ast.Load())

    def visit_List(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load) or self.mode is None:
            return n
        return self.rw.loc(ast.Call(self.name("__zkv_list__"), [ast.Tuple(n.elts, ast.Load())], []), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        if self.mode is None:
            return n
        return self.rw.loc(ast.Call(self.name("__zkv_set__"), [ast.Tuple(n.elts, ast.Load())], []), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        if self.mode is None:
            return n
        if any(k is None for k in n.keys):
            return n
        return self.rw.loc(ast.Call(self.name("__zkv_dict__"), [ast.Tuple([
            ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load())], []), n)

    def visit_Starred(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load) or self.mode is None:
            return n
        return self.rw.loc(ast.Starred(ast.Call(self.name("__zkv_star__"), [n.value], []), ast.Load()), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if self.mode is None or len(n.ops) != 1 or not isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            return n
        f = {ast.Eq: "__zkv_eq__", ast.NotEq: "__zkv_ne__", ast.Is: "__zkv_is__", ast.IsNot: "__zkv_isnot__"}[type(n.ops[0])]
        return self.rw.loc(ast.Call(self.name(f), [n.left, n.comparators[0]], []), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if self.mode is None or not isinstance(n.op, ast.Mod) or not isinstance(n.left, ast.Constant) or \
                not isinstance(n.left.value, (str, bytes)):
            return n
        return self.rw.loc(ast.Call(self.name("__zkv_fmt__"), [n.left, n.right], []), n)

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.mode is None or not all(isinstance(x, ast.Constant) and type(x.value) is int for x in (n.body, n.orelse)):
            return n
        return self.rw.loc(ast.Call(self.name("__zkv_ite__"), [n.test, n.body, n.orelse], []), n)

    def lam(self, target, e):
        """A function of one item."""
        if isinstance(target, ast.Name):
            return ast.Lambda(ast.arguments([], [ast.arg(target.id)], None, [], [], None, []), e)
        if isinstance(target, ast.Tuple) and all(isinstance(t, ast.Name) for t in target.elts):
            inner = ast.Lambda(ast.arguments([], [ast.arg(t.id) for t in target.elts], None, [], [], None, []), e)
            x = self.rw.fresh("x")
            return ast.Lambda(ast.arguments([], [ast.arg(x)], None, [], [], None, []),
                              ast.Call(inner, [ast.Starred(self.name(x), ast.Load())], []))
        return None

    def comp(self, n, kind, elt):
        self.generic_visit(n)
        if self.mode is None or any(g.is_async for g in n.generators) or \
                _has([n], (ast.NamedExpr, ast.Await, ast.Yield), "super"):
            return n
        if len(n.generators) > 1 and kind == "gen" and n in self.lazy:
            return n
        e = elt(n)
        for no in range(len(n.generators))[::-1]:
            g = n.generators[no]
            f = self.lam(g.target, e)
            if f is None:
                return n
            cond = ast.Constant(None)
            if g.ifs:
                cond = self.lam(g.target, g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs))
            k = kind if len(n.generators) == 1 else "listcomp" if no == len(n.generators) - 1 else "flat"
            e = ast.Call(self.name("__zkv_%s__" % k), [f, cond, g.iter], [])
        if len(n.generators) > 1 and kind != "listcomp":
            e = ast.Call(self.name("__zkv_to_%s__" % kind), [e], [])
        return self.rw.loc(e, n)

    lazy = ()

    def visit_Call(self, n):
        """any and all stop early; int of an integer."""
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "next", "iter"):
            self.lazy = tuple(self.lazy) + tuple(a for a in n.args if isinstance(a, ast.GeneratorExp))
        self.generic_visit(n)
        if self.mode is not None and isinstance(n.func, ast.Name) and n.func.id == "int" and len(n.args) == 1 and \
                not n.keywords and not isinstance(n.args[0], ast.Starred):
            return self.rw.loc(ast.Call(self.name("__zkv_int__"), [n.func, n.args[0]], []), n)
        return n

    def visit_Assign(self, n):
        """first, *rest = ..."""
        self.generic_visit(n)
        t = n.targets[0]
        if self.mode is None or len(n.targets) != 1 or not isinstance(t, (ast.Tuple, ast.List)):
            return n
        st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        if len(st) == 1:
            n.value = self.rw.loc(ast.Call(self.name("__zkv_unpack__"), [n.value, ast.Constant(st[0]), ast.Constant(
                len(t.elts) - st[0] - 1)], []), n.value)
            t.elts[st[0]] = t.elts[st[0]].value
        return n

    def visit_ListComp(self, n):
        return self.comp(n, "listcomp", lambda n: n.elt)

    def visit_SetComp(self, n):
        return self.comp(n, "setcomp", lambda n: n.elt)

    def visit_GeneratorExp(self, n):
        return self.comp(n, "gen", lambda n: n.elt)

    def visit_DictComp(self, n):
        return self.comp(n, "dictcomp", lambda n: ast.Tuple([n.key, n.value], ast.Load()))


def rewrite(tree):
    rw = _Rewriter()
    tree.body = rw.block(tree.body, None)
    return ast.fix_missing_locations(tree)


# ---------------------------------------------------------------------------
# local exploration


class Split(BaseException):
    """The iterations differ at the index t."""

    def __init__(self, t):
        self.t = t


class Hoist(BaseException):
    """A decision that does not depend on the iteration."""

    def __init__(self, f):
        self.f = f


class Heap:
    """The mutable state reachable from some values."""

    def __init__(self, roots):
        self.objs = {}
        self.cells = {}
        self.walk(roots)

    def walk(self, todo):
        todo = builtins.list(todo)
        c = cur()
        while todo:
            v = todo.pop()
            if type(v) is Poison:
                continue
            if v is None or isinstance(v, (builtins.int, builtins.str, builtins.bytes, builtins.float, type,
                                           types.ModuleType, stubs._Num, stubs.EcPt, stubs._El, Poly, Lin, SBool)):
                continue
            if id(v) in self.objs:
                continue
            t = type(v)
            if t is types.CellType:
                if id(v) in self.cells:
                    continue
                try:
                    x = v.cell_contents
                except ValueError:
                    x = EMPTY
                self.cells[id(v)] = (v, x)
                if x is not EMPTY:
                    todo.append(x)
            elif t is types.FunctionType:
                if v.__closure__:
                    todo.extend(v.__closure__)
            elif t is types.MethodType:
                todo.append(v.__self__)
                todo.append(v.__func__)
            elif isinstance(v, builtins.list):
                s = builtins.list(builtins.list.__iter__(v))
                self.objs[id(v)] = ("list", v, s)
                todo.extend(s)
            elif t is builtins.tuple:
                todo.extend(v)
            elif seq.is_vdict(v):
                s = builtins.list(v.e)
                self.objs[id(v)] = ("vdict", v, s)
                todo.extend(s)
            elif isinstance(v, builtins.dict):
                self.objs[id(v)] = ("dict", v, builtins.dict(v))
                todo.extend(v.values())
            elif t is Seg:
                b = seq.root(v)
                if id(b) not in self.objs:
                    self.objs[id(b)] = ("seg", b, builtins.dict(b.attrs))
                    todo.extend(b.memo.values())
            elif t is DSeg:
                pass
            elif t is stubs._Hash:
                self.objs[id(v)] = ("hash", v, v.buf)
            elif t is View:
                todo.append(v.d)
            elif is_code(v):
                s = builtins.dict(v.__dict__)
                self.objs[id(v)] = ("obj", v, s)
                todo.extend(s.values())

    def restore(self):
        for v, x in self.cells.values():
            if x is EMPTY:
                try:
                    del v.cell_contents
                except ValueError:
                    pass
            else:
                v.cell_contents = x
        for k, v, s in self.objs.values():
            if k == "list":
                builtins.list.clear(v)
                builtins.list.extend(v, s)
            elif k == "vdict":
                v.e = builtins.list(s)
            elif k == "dict":
                v.clear()
                v.update(s)
            elif k == "obj":
                v.__dict__.clear()
                v.__dict__.update(s)
            elif k == "hash":
                v.buf = s
            elif k == "seg":
                v.attrs.clear()
                v.attrs.update(s)

    def diff(self):
        """Changed slots: [(slot, old, new)]."""
        out = []
        for v, x in self.cells.values():
            try:
                y = v.cell_contents
            except ValueError:
                y = EMPTY
            if y is not x:
                out.append((("cell", id(v)), x, y))
        for k, v, s in self.objs.values():
            if k == "list":
                n = builtins.list(builtins.list.__iter__(v))
                if len(n) != len(s) or any(a is not b for a, b in zip(n, s)):
                    out.append((("list", id(v)), s, n))
            elif k == "vdict":
                if len(v.e) != len(s) or any(not entry_is(a, b) for a, b in zip(v.e, s)):
                    out.append((("vdict", id(v)), s, builtins.list(v.e)))
            elif k == "dict":
                if v.keys() != s.keys() or any(v[n] is not s[n] for n in s):
                    raise Unsupported("a loop changes a native mapping")
            elif k == "hash":
                if v.buf != s:
                    raise Unsupported("a loop updates a hash")
            elif k == "seg":
                if v.attrs.keys() != s.keys() or any(v.attrs[n] is not s[n] for n in s):
                    raise Unsupported("a loop changes a family of objects")
            elif k == "obj":
                for n in v.__dict__.keys() | s.keys():
                    a, b = s.get(n, EMPTY), v.__dict__.get(n, EMPTY)
                    if a is not b:
                        out.append((("attr", id(v), n), a, b))
        return out

    def set(self, slot, val):
        k = slot[0]
        if k == "cell":
            v = self.cells[slot[1]][0]
            v.cell_contents = val
        elif k == "list":
            v = self.objs[slot[1]][1]
            builtins.list.clear(v)
            builtins.list.extend(v, norm(val))
        elif k == "vdict":
            self.objs[slot[1]][1].e = builtins.list(val)
        else:
            v = self.objs[slot[1]][1]
            if val is EMPTY:
                v.__dict__.pop(slot[2], None)
            else:
                v.__dict__[slot[2]] = val


def entry_is(a, b):
    return a is b or type(a) is tuple and type(b) is tuple and a[0] is b[0] and a[1] is b[1]


class Path:
    __slots__ = ("lits", "out", "diff", "exc", "draws", "events")


def local(run, heap, on_undecided, max_paths=64):
    """All paths of run() from the present state: [Path]; the state is left as it was."""
    c = cur()
    outer = c.prefix, c.taken
    st = c.save()
    n0 = len(c.path)
    top = builtins.dict(c.counter)
    prefix, out = [], []
    c.explorers.append(on_undecided)
    try:
        while True:
            c.prefix, c.taken = prefix, []
            p = Path()
            try:
                p.out, p.exc = run(), None
            except Prune:
                p = None
            except Exception as e:
                if isinstance(e, RecursionError) and type(e) is RecursionError:
                    raise
                p.out, p.exc = None, e
            if p is not None:
                p.lits = builtins.list(c.path[n0:])
                p.diff = heap.diff() if heap is not None else []
                p.draws, p.events = c.draws[st[5]:], c.events[st[6]:]
                out.append(p)
            for k, v in c.counter.items():
                top[k] = max(top.get(k, 0), v)
            taken = c.taken
            while taken and taken[-1][0] + 1 >= taken[-1][1]:
                taken.pop()
            if heap is not None:
                heap.restore()
            c.restore(st, True)
            if not taken:
                break
            prefix = [x for x, _ in taken[:-1]] + [taken[-1][0] + 1]
            if len(out) > max_paths:
                raise Unsupported("too many paths in one iteration")
    finally:
        c.explorers.pop()
        c.prefix, c.taken = outer
        if heap is not None:
            heap.restore()
        c.restore(st, True)
    return out, top


def bump(c, top):
    for k, v in top.items():
        c.counter[k] = max(c.counter.get(k, 0), v)


def formula(fn, e, roots=()):
    """The formula given by fn() (which may decide cases) for the index e."""
    paths, top = local(fn, Heap(roots), None)
    fs = []
    for p in paths:
        if p.diff or p.draws or p.events:
            raise seq.CondError("a condition with effects")
        if p.exc is not None:
            raise seq.CondError("an error in a condition: %r" % (p.exc,))
        fs.append((p.lits, p.out))
    bump(cur(), top)
    if len({f for _, f in fs}) == 1:
        return fs[0][1]
    r = []
    for lits, f in fs:
        r.append(T.fand(builtins.list(lits) + [f]))
    return T.for_(r)


# ---------------------------------------------------------------------------
# invariants


class Bad(Exception):
    """No invariant was found."""


class Last:
    """The value of the previous iteration."""


def is_num(v):
    return type(v) is not Poison and (isinstance(v, (stubs.Bn, stubs.SInt)) or
                                      isinstance(v, builtins.int) and not isinstance(v, builtins.bool))


def is_pt(v):
    return type(v) is not Poison and isinstance(v, (stubs.EcPt, stubs._El))


def mk_like(v, p):
    return stubs.mkbn(p) if isinstance(v, stubs.Bn) else stubs.mkint(p)


def pt_like(v, l):
    return stubs.mkpt(l, v.group) if isinstance(v, stubs.EcPt) else stubs.mkel(type(v), l, v.group)


def havoc(old, new, names):
    """The old value with numbers and points that change replaced by unknown ones."""
    if is_num(old) and is_num(new):
        a = T.var("#A%d" % len(names))
        names.append(a)
        return mk_like(new, a)
    if is_pt(old) and type(old) is type(new):
        b = T.atom("base", "#P%d" % len(names), "pt", type(old).__name__)
        names.append(b)
        return pt_like(old, T.lin_base(b, old.l.q))
    if is_code(old) and type(old) is type(new) and old is not new and owner_of(new) is None:
        w = object.__new__(type(old))
        for n, x in old.__dict__.items():
            y = new.__dict__.get(n, EMPTY)
            w.__dict__[n] = x if y is EMPTY or y is x else havoc(x, y, names)
        return w
    return old


def owner_of(v):
    o = seq.own(cur()).get(id(v))
    return o if o is not None and o[2] is v else None


class Tmpl:
    """S(t): the value before the iteration t."""

    def __init__(self, at, step=None):
        self.at, self.step = at, step


def template(old, hav, new, k, lo, hi):
    """From the values before (as found, and as unknown) and after the iteration k; None: last value."""
    if new is hav:
        return Tmpl(lambda t: old)
    kid = k.id
    kp = patom(k)
    if is_num(old) and is_num(new) and isinstance(hav, (stubs.Bn, stubs.SInt)) and hav is not old:
        A = hav.p.single_atom()
        p = new.p if not isinstance(new, builtins.int) else const(new)
        if not T.depends(p, A.id):
            return None
        q0 = stubs.poly_of(old)
        m = None
        at = p.single_atom()
        if at is not None and at.kind == "mod":
            p, m = at.args
            if T.depends(m, kid) or T.depends(m, A.id):
                raise Bad("modulus")
        if m is None and p == hav.p * const(2):
            return Tmpl(lambda t: mk_like(new, T.times_pow2(q0, t - lo)))
        if p.m.get(((A.id, 1),)) != 1:
            raise Bad("accumulator %s" % T.pstr(p))
        d = p - hav.p
        if T.depends(d, A.id):
            raise Bad("accumulator %s" % T.pstr(p))
        dj = T.subst_poly(d, kid, T.J + lo)

        def at_(t, m=m):
            s = q0 + sums(T.mk_sum, t - lo, dj)
            return mk_like(new, s if m is None else T.pmod(s, m))
        return Tmpl(at_)
    if is_pt(old) and type(old) is type(new) and type(hav) is type(old) and hav is not old:
        b = builtins.list(hav.l.c)[0]
        rest = new.l - hav.l
        if b not in new.l.c and not any(T.depends(by_id(x), b) for x in new.l.c):
            return None
        if b in rest.c or T.depends(rest, b):
            raise Bad("accumulator")
        dj = T.subst_lin(rest, kid, T.J + lo)
        return Tmpl(lambda t: pt_like(old, old.l + sums(T.mk_lsum, t - lo, dj)))
    if isinstance(old, builtins.list) and isinstance(new, builtins.list) and not T_same_obj(old, new):
        try:
            f = list_template(raw(old), raw(new), k, lo, hi)
        except Bad:
            if not raw(old) or any(x is y for x in raw(old) for y in raw(new)):
                raise
            return None                     # a variable for another list in each iteration
        return None if f is None else Tmpl(lambda t: VList(f(t)))
    if type(old) is VDict and type(new) is VDict:
        f = dict_template(old.e, new.e, k, lo, hi)

        def mk(t):
            d = VDict()
            d.e = f(t)
            return d
        return Tmpl(mk)
    if is_code(old) and type(old) is type(new) and owner_of(new) is None and owner_of(old) is None:
        ts = {}
        for n in old.__dict__.keys() | new.__dict__.keys():
            x, h, y = old.__dict__.get(n, EMPTY), hav.__dict__.get(n, EMPTY), new.__dict__.get(n, EMPTY)
            if y is x or y is h:
                ts[n] = Tmpl(lambda t, x=x: x)
                continue
            if x is EMPTY or y is EMPTY:
                return None
            ts[n] = template(x, h, y, k, lo, hi)
            if ts[n] is None:
                return None

        def mk_obj(t):
            w = object.__new__(type(old))
            for n, s in ts.items():
                w.__dict__[n] = s.at(t)
            return w
        return Tmpl(mk_obj)
    return None


def T_same_obj(a, b):
    return a is b


def sums(f, n, d):
    try:
        return f(n, d)
    except ValueError as e:
        raise Bad(str(e))


def list_template(old, new, k, lo, hi):
    """t -> items; appended items become a segment, replaced ones too."""
    kid, kp = k.id, patom(k)
    n = len(old)
    if len(new) >= n and all(a is b for a, b in zip(old, new)):
        tail = new[n:]
        if not tail:
            return lambda t: old
        if len(tail) != 1 or type(tail[0]) is Seg:
            raise Bad("more than one item appended")
        v = tail[0]
        s = family(lo, hi, v, kid, kp)
        return lambda t: old + [s.part(lo, t)]
    # one item replaced, at a position that moves with k
    i = 0
    while i < len(old) and i < len(new) and old[i] is new[i]:
        i += 1
    if i < len(old) and type(old[i]) is Seg:
        x = old[i]
        rest = new[i:]
        tail = old[i + 1:]
        mid = rest[:len(rest) - len(tail)]
        if all(a is b for a, b in zip(rest[len(mid):], tail)):
            b = seq.root(x)
            pos = [j for j, y in enumerate(mid) if type(y) is not Seg or seq.root(y) is not b]
            if len(pos) == 1 and type(mid[pos[0]]) is not Seg:
                before = seq.length(mid[:pos[0]])
                at = x.lo + before - kp           # the item replaced has the index k + at
                if not T.depends(at, kid):
                    v = mid[pos[0]]
                    s = family(lo, hi, v, kid, kp)
                    return lambda t: (old[:i] + [x.part(x.lo, lo + at), s.part(lo, t), x.part(t + at, x.hi)] + tail)
    raise Bad("list")


def family(lo, hi, v, kid, kp):
    """The values v[k := t]."""
    o = seq.own(cur())
    if is_code(v) and (id(v) not in o or o[id(v)][2] is not v):
        s = Seg(lo, hi, lambda u: seq.subst_obj(v, kid, u, True))
        o[id(v)] = (s, kp, v)
    else:
        s = Seg(lo, hi, lambda u: seq.subst(v, kid, u))
    s.memo[kp] = v
    return s


def dict_template(old, new, k, lo, hi):
    kid, kp = k.id, patom(k)
    n = len(old)
    if len(new) < n or not all(entry_is(a, b) for a, b in zip(old, new)):
        raise Bad("mapping")
    tail = new[n:]
    if not tail:
        return lambda t: old
    if len(tail) != 1 or type(tail[0]) is DSeg:
        raise Bad("more than one entry added")
    key, val = tail[0]
    if seq.secret_key(key) is None:
        raise Bad("keys")
    R = None
    probe = DSeg(lo, hi, lambda u: seq.subst(key, kid, u), None)
    if not probe.injective():
        if not is_num(val):
            raise Bad("entries")
        c = cur()
        R = "#R%d" % len(c.Rs)
        c.Rs[R] = (val, probe, kid, old)
    return lambda t: old + [DSeg(lo, t, lambda u: seq.subst(key, kid, u), lambda u: seq.subst(val, kid, u), R)]


def same_state(x, y, what=""):
    """x and y are the same (decided without new cases)."""
    if x is y:
        return
    if type(x) is Poison or type(y) is Poison:
        raise Bad("unknown values " + what)
    c = cur()
    if is_num(x) and is_num(y):
        if type(x) is not type(y) and not (isinstance(x, (builtins.int, stubs.SInt)) and
                                           isinstance(y, (builtins.int, stubs.SInt))):
            raise Bad("types " + what)
        f = T.f_eq0(stubs.poly_of(x) - stubs.poly_of(y))
        if c.entails(f) is not True and not (c.facts and c.refute(T.fnot(f))):
            raise Bad("numbers %s: %s %s" % (what, stubs.poly_of(x), stubs.poly_of(y)))
        return
    if is_pt(x) and type(x) is type(y):
        if c.entails(T.f_peq0(x.l - y.l)) is not True:
            raise Bad("points " + what)
        return
    if isinstance(x, builtins.bool) and isinstance(y, builtins.bool) and x == y:
        return
    if isinstance(x, (builtins.str, builtins.bytes)) and isinstance(y, (builtins.str, builtins.bytes)):
        from . import tokens
        if type(x) is type(y) and c.entails(tokens.bytes_eq(x, y)) is True:
            return
        raise Bad("strings " + what)
    if isinstance(x, (builtins.list, builtins.tuple)) and isinstance(y, (builtins.list, builtins.tuple)):
        same_items(norm(raw(x)), norm(raw(y)), what)
        return
    if type(x) is VDict and type(y) is VDict:
        same_entries(x.e, y.e, what)
        return
    if is_code(x) and type(x) is type(y):
        ox, oy = owner_of(x), owner_of(y)
        if ox is not None and oy is not None and seq.root(ox[0]) is seq.root(oy[0]):
            if c.entails(T.f_eq0(ox[1] - oy[1])) is True:
                return
            raise Bad("objects " + what)
        if x.__dict__.keys() != y.__dict__.keys():
            raise Bad("attributes " + what)
        for n in x.__dict__:
            same_state(x.__dict__[n], y.__dict__[n], what + "." + n)
        return
    if type(x) in (builtins.float, type(None)) and x == y:
        return
    raise Bad("values %s: %r %r" % (what, type(x), type(y)))


def same_items(xs, ys, what):
    c = cur()

    def yes(f):
        return f[0] == "true" or c.entails(f) is True
    if not yes(T.f_eq0(seq.length(xs) - seq.length(ys))):
        raise Bad("lengths " + what)
    xs, ys = builtins.list(xs), builtins.list(ys)

    def drop(l):
        while l and type(l[0]) is Seg and yes(T.f_eq0(l[0].hi - l[0].lo)):
            l.pop(0)
    while True:
        drop(xs)
        drop(ys)
        if not xs or not ys:
            if xs or ys:
                raise Bad("items " + what)
            return
        x, y = xs[0], ys[0]
        sx, sy = type(x) is Seg, type(y) is Seg
        if not sx and not sy:
            same_state(x, y, what)
            xs.pop(0)
            ys.pop(0)
            continue
        if sx and sy:
            n, m = x.hi - x.lo, y.hi - y.lo
            if yes(T.f_eq0(n - m)):
                ln = n
            elif yes(T.fnot(T.f_lt0(m - n))):
                ln = n
            elif yes(T.fnot(T.f_lt0(n - m))):
                ln = m
            else:
                raise Bad("parts " + what)
            if seq.root(x) is not seq.root(y) or x.lo != y.lo:
                e = patom(c.eigen(x.lo, x.lo + ln))
                same_state(x.at(e), y.at(e - x.lo + y.lo), what)
            for l, z in ((xs, x), (ys, y)):
                if yes(T.f_eq0(z.hi - z.lo - ln)):
                    l.pop(0)
                else:
                    l[0] = z.part(z.lo + ln, z.hi)
            continue
        z, l, o, lo_ = (x, xs, y, ys) if sx else (y, ys, x, xs)
        if not yes(T.f_lt0(z.lo - z.hi)):
            raise Bad("items " + what)
        same_state(z.at(z.lo), o, what)
        lo_.pop(0)
        l[0] = z.part(z.lo + ONE, z.hi)


def same_entries(xs, ys, what):
    """Old entries, and a part that grew by one entry."""
    c = cur()
    i = 0
    while i < len(xs) and i < len(ys) and entry_is(xs[i], ys[i]):
        i += 1
    before, xs, ys = xs[:i], xs[i:], ys[i:]
    if not xs and not ys:
        return
    if len(ys) == 1 and type(ys[0]) is DSeg and xs and type(xs[0]) is DSeg:
        a, b = xs[0], ys[0]
        t = a.hi
        if a.lo == b.lo and b.hi == t + ONE and a.fam == b.fam and a.R == b.R:
            if len(xs) == 2 and type(xs[1]) is tuple:
                same_state(xs[1][0], b.kfn(t), what)
                same_state(xs[1][1], b.vfn(t), what)
                return
            if len(xs) == 1 and a.R is not None:
                # nothing was added: the key has to be there with this value
                want = b.vfn(t)
                idx = seq.secret_key(b.kfn(t))[1:]
                have = a.R_at(idx)
                same_state(want, stubs.mkbn(have), what)
                for x in [a] + before:
                    if type(x) is DSeg:
                        if x.fam != a.fam:
                            continue
                        e = T.atom("var", "#m", x.lo, x.hi)
                        none = T.f_all(x.lo, x.hi, e.id, T.fnot(T.fand([
                            T.f_eq0(p - q) for p, q in zip(x.idx_at(patom(e)), idx)])))
                        there = T.fnot(none)
                    else:
                        sk = seq.secret_key(x[0])
                        if sk is None or sk[0] != a.fam:
                            continue
                        there = T.fand([T.f_eq0(p - q) for p, q in zip(sk[1:], idx)])
                    if c.entails(there) is True or there in c.path:
                        return
    raise Bad("entries " + what)


# ---------------------------------------------------------------------------
# loops


def sym(it):
    if type(it) is Gen:
        return has_seg(it.it)
    return has_seg(it) or type(it) is View and any(type(e) is DSeg for e in it.d.e)


def items_of(it):
    if type(it) is Gen:
        return raw(it.all())
    r = raw(it)
    return builtins.list(it) if r is None else r


def loop(it, body):
    todo = norm(items_of(it))
    while todo:
        x = todo.pop(0)
        if type(x) is not Seg:
            r = body(x)
        else:
            r = Generic(x, body).run()
        if r is BRK:
            return None
        if r is not None:
            return r
    return None


class Generic:
    """A loop over the elements of a segment."""

    def __init__(self, seg, body):
        self.seg, self.body = seg, body
        self.lo, self.hi = seg.lo, seg.hi

    def run(self):
        c = cur()
        lo, hi = self.lo, self.hi
        if c.decide(T.fnot(T.f_lt0(lo - hi))):
            return None
        for _ in range(12):
            try:
                return self.attempt()
            except Hoist as h:
                c.decide(h.f)
            except Split as s:
                t = s.t
                if c.decide(T.f_lt0(t - lo)) or c.decide(T.fnot(T.f_lt0(t - hi))):
                    continue
                c.assumed.discard(None)
                mid = [self.seg.at(t)] if s.point else []
                parts = [self.seg.part(lo, t)] + mid + [self.seg.part(t + const(len(mid)), hi)]
                return self.rest(parts)
            except Bad as b:
                if getattr(self, "peeled", False):
                    raise Unsupported("no loop invariant: %s" % b)
                r = self.body(self.seg.at(lo))
                if r is not None:
                    return r
                if c.decide(T.fnot(T.f_lt0(lo + ONE - hi))):
                    return None
                g = Generic(self.seg.part(lo + ONE, hi), self.body)
                g.peeled = True
                return g.run()
        raise Unsupported("loop: too many cases")

    def rest(self, parts):
        for x in norm(parts):
            if type(x) is Seg:
                g = Generic(x, self.body)
                r = g.run()
            else:
                r = self.body(x)
            if r is not None:
                return r
        return None

    def undecided(self, f):
        """What to do about an undecided condition in an iteration."""
        k = self.k
        ids = _names(f)
        if any(n.startswith(("#A", "#P")) for n in ids):
            return
        if not T.depends(f, k.id):
            if any(n.startswith(("#s", "#k", "#t", "#x", "#m", "#c", "#b")) for n in ids):
                return
            raise Hoist(f)
        if f[0] in ("eq0", "lt0"):
            p = f[1]
            co = p.m.get(((k.id, 1),))
            if co in (1, -1):
                rest = p - patom(k) * const(co)
                if not T.depends(rest, k.id) and not any(n.startswith("#") and not n.startswith(("#e", "#ch"))
                                                         for n in _names(rest)):
                    if f[0] == "eq0":
                        s = Split(-rest if co == 1 else rest)
                        s.point = True
                    elif co == 1:                 # k + rest < 0
                        s = Split(-rest)
                        s.point = False
                    else:                          # rest < k
                        s = Split(rest + ONE)
                        s.point = False
                    raise s

    def paths(self, state=None, facts=()):
        """The paths of the iteration k from the given state."""
        c = cur()
        x = self.seg.at(patom(self.k))

        def one():
            for f in facts:
                c.add(f)
            if state is not None:
                for slot, v in state:
                    self.heap.set(slot, v)
            return self.body(x)
        c.frames.append((self.k, None))
        try:
            return local(one, self.heap, self.undecided)
        finally:
            c.frames.pop()

    def attempt(self):
        c = cur()
        lo, hi = self.lo, self.hi
        self.k = k = c.eigen(lo, hi)
        kp = patom(k)
        first = c.save()
        self.heap = Heap(builtins.list(self.body.__closure__ or ()) + [self.seg.at(kp)])
        heap = self.heap
        nR = len(c.Rs)
        ps, top = self.paths()
        normal = [p for p in ps if p.exc is None and p.out is None]
        if not normal:
            bump(c, top)
            r = self.body(self.seg.at(lo))
            if r is None:
                raise Unsupported("loop: the first iteration")
            return r
        # what changes
        chg = {}
        for p in normal:
            for slot, a, b in p.diff:
                chg.setdefault(slot, (a, b))
        # run again with unknown numbers and points
        names, hav = [], {}
        for slot, (a, b) in chg.items():
            if self.fam_attr(slot, kp):
                continue
            h = havoc(a, b, names) if slot[0] in ("cell", "attr") and a is not EMPTY and b is not EMPTY else a
            hav[slot] = h
        if names:
            ps, top2 = self.paths([(s, h) for s, h in hav.items() if h is not chg[s][0]])
            for n, v in top2.items():
                top[n] = max(top.get(n, 0), v)
            normal = [p for p in ps if p.exc is None and p.out is None]
            new = {}
            for p in normal:
                for slot, a, b in p.diff:
                    if b is not hav.get(slot, EMPTY):
                        new.setdefault(slot, b)
        else:
            new = {s: b for s, (a, b) in chg.items()}
        acc = []
        for slot, h in hav.items():
            if isinstance(h, (stubs.Bn, stubs.SInt)) and h is not chg[slot][0]:
                t = template(chg[slot][0], h, new.get(slot, chg[slot][1]), k, lo, hi)
                v = stubs.poly_of(t.at(kp)) if t is not None else None
                if v is not None and not any(n.startswith("#A") for n in _names(v)):
                    acc.append((h.p.single_atom().id, v))

        def resolve(v, own=None):
            for aid, p in acc:
                if aid != own:
                    v = seq.subst(v, aid, p)
            return v

        def templates():
            for slot, (a, b) in chg.items():
                b = new.get(slot, b)
                if slot[0] in ("list", "vdict"):
                    b = [resolve(x) for x in b]
                elif is_num(b) or is_pt(b):
                    h = hav.get(slot)
                    own = h.p.single_atom().id if isinstance(h, (stubs.Bn, stubs.SInt)) and h.p.single_atom() else None
                    b = resolve(b, own)
                else:
                    b = resolve(b)
                if self.fam_attr(slot, kp):
                    fam[slot] = b
                    continue
                if slot[0] == "list":
                    tm[slot] = Tmpl(list_template(a, b, k, lo, hi))
                elif slot[0] == "vdict":
                    tm[slot] = Tmpl(dict_template(a, b, k, lo, hi))
                else:
                    t = None if a is EMPTY or b is EMPTY else template(a, hav[slot], b, k, lo, hi)
                    if t is None:
                        last[slot] = b
                    else:
                        tm[slot] = t

        for again in (2, 1, 0):
            tm, last, fam, values = {}, {}, {}, {}
            templates()
            # the iteration k from the state before it
            facts = self.r_facts(nR, lo, kp)
            state = [(s, t.at(kp)) for s, t in tm.items()] + [(s, Poison("value of an earlier iteration")) for s in last]
            try:
                ps, top3 = self.paths(state, facts)
            except seq.PoisonUsed as e:
                raise Bad(str(e))
            for n, v in top3.items():
                top[n] = max(top.get(n, 0), v)
            normal = [p for p in ps if p.exc is None and p.out is None]
            exits = [p for p in ps if p.exc is not None or p.out is not None]
            if not normal:
                raise Bad("no path")
            try:
                self.preserved(tm, last, fam, values, state, facts, normal)
                break
            except Bad:
                # entries that depend on the entries before them: what the iteration k adds to S(k)
                if not again or len(normal) != 1 or not self.refine(chg, new, dict(state), normal[0]):
                    raise
                for R in builtins.list(c.Rs)[nR:]:
                    c.Rs[R] = None
        bump(c, top)
        c.counter["#e"] = max(c.counter.get("#e", 0), top.get("#e", 0))
        C = T.for_([T.fand([f for f in p.lits if f not in facts]) for p in normal])
        known = set(c.path)
        C = drop_known(C, known)
        if any(f in (T.TRUE,) for f in (C,)) and exits:
            exits = [p for p in exits if p.exc is None or True]
        if not exits:
            C = T.TRUE
        leaves = 0
        if exits:
            leaves = c.choose(2, "loop")
        if not leaves:
            if C[0] != "true":
                c.add(T.f_all(lo, hi, k.id, C))
            for f in self.r_facts(nR, lo, hi):
                c.add(f)
            for s, t in tm.items():
                heap.set(s, t.at(hi))
            for s in last:
                heap.set(s, seq.subst(values[s], k.id, hi - ONE))
            for s in fam:
                v = heap.objs[s[1]][1]
                o = owner_of(v)
                seq.root(o[0]).set_attr(s[2], k.id, values[s], lo, hi)
            for p in normal[:1]:
                c.draws.extend(p.draws)
                c.events.extend(p.events)
            return None
        ks = c.eigen(lo, hi)
        kq = patom(ks)
        if C[0] != "true":
            c.add(T.f_all(lo, kq, k.id, C))
        for f in self.r_facts(nR, lo, kq):
            c.add(f)
        for s, t in tm.items():
            heap.set(s, t.at(kq))
        for s in last:
            heap.set(s, Poison("value of an earlier iteration"))
        for s in fam:
            v = heap.objs[s[1]][1]
            o = owner_of(v)
            seq.root(o[0]).set_attr(s[2], k.id, values[s], lo, kq)
        r = self.body(self.seg.at(kq))
        if r is None:
            raise Prune()
        return r

    def preserved(self, tm, last, fam, values, state, facts, normal):
        """S(k + 1) is the result of the iteration k from S(k), on every path; fills values."""
        c = cur()
        nextS = {s: t.at(patom(self.k) + ONE) for s, t in tm.items()}
        for p in normal:
            d = {s: b for s, a, b in p.diff}
            for s in d:
                if s not in tm and s not in last and s not in fam:
                    raise Bad("another variable changes")
            st = c.save()
            try:
                for f in facts:
                    c.add(f)
                for f in p.lits:
                    c._add(f)
                for s, t in tm.items():
                    got = d.get(s, EMPTY)
                    if got is EMPTY:
                        got = {x: v for x, v in state}[s]
                    self.same(s, got, nextS[s], p)
            finally:
                c.restore(st)
            for s in builtins.list(last) + builtins.list(fam):
                if s in fam:
                    if s not in d:
                        raise Bad("attribute set in some iterations only")
                    if s in values:
                        same_state(values[s], d[s], "attribute")
                    else:
                        values[s] = d[s]
                    continue
                # unknown after the loop (its use is undecided) unless all the paths agree
                try:
                    if s not in d:
                        raise Bad("set in some iterations only")
                    if s in values:
                        same_state(values[s], d[s], "last")
                    else:
                        values[s] = d[s]
                except Bad:
                    values[s] = Poison("variable set in some iterations only")

    def refine(self, chg, new, state, p):
        """Another guess for lists and mappings: their new items in the iteration k from S(k)."""
        some = False
        for s, a, b in p.diff:
            if s[0] not in ("list", "vdict") or s not in chg:
                continue
            x = state[s]
            n = len(x)
            if len(b) == n + 1 and builtins.all(entry_is(u, v) for u, v in zip(x, b)):
                new[s] = builtins.list(chg[s][0]) + [b[n]]
                some = True
        return some

    def r_facts(self, nR, lo, hi):
        c = cur()
        out = []
        for R in builtins.list(c.Rs)[nR:]:
            if c.Rs[R] is None:
                continue
            val, probe, kid, old = c.Rs[R]

            def r(idx):
                return patom(T.atom("var", R, None, None, *idx))
            e = T.atom("var", "#m", lo, hi)
            v = seq.subst(val, kid, patom(e))
            out.append(T.f_all(lo, hi, e.id, T.f_eq0(v.p - r(probe.idx_at(patom(e))))))
            # the entries from before the loop
            for x in old:
                if type(x) is DSeg:
                    e = T.atom("var", "#m", x.lo, x.hi)
                    if x.fam == probe.fam and is_num(x.vfn(patom(e))):
                        out.append(T.f_all(x.lo, x.hi, e.id, T.f_eq0(
                            stubs.poly_of(x.vfn(patom(e))) - r(x.idx_at(patom(e))))))
                    continue
                sk = seq.secret_key(x[0])
                if sk is not None and sk[0] == probe.fam and is_num(x[1]):
                    out.append(T.f_eq0(stubs.poly_of(x[1]) - r(sk[1:])))
        return out

    def same(self, slot, got, want, p):
        if slot[0] == "list":
            same_items(norm(got), norm(want), "list")
        elif slot[0] == "vdict":
            same_entries(got, want, "mapping")
        else:
            same_state(got, want, "variable")

    def fam_attr(self, slot, kp):
        """An attribute of the element of a family with the index k."""
        if slot[0] != "attr":
            return False
        v = self.heap.objs[slot[1]][1]
        o = owner_of(v)
        if o is None:
            return False
        if T.depends(o[1], self.k.id) and o[1] != kp:
            raise Unsupported("an attribute of another element")
        return o[1] == kp


def drop_known(f, known):
    if f in known:
        return T.TRUE
    if f[0] == "and":
        return T.fand([drop_known(x, known) for x in f[1]])
    if f[0] == "or":
        return T.for_([drop_known(x, known) for x in f[1]])
    return f


def _names(x, out=None):
    """Names of the atoms in x, at any depth."""
    out = set() if out is None else out
    if isinstance(x, T.Poly):
        for a in x.atoms():
            _names(by_id(a), out)
    elif isinstance(x, T.Atom):
        if x.args and isinstance(x.args[0], str):
            out.add(x.args[0])
        for y in x.args:
            _names(y, out)
    elif isinstance(x, T.Lin):
        for b, p in x.c.items():
            _names(by_id(b), out)
            _names(p, out)
    elif isinstance(x, tuple):
        for y in x:
            _names(y, out)
    return out


# ---------------------------------------------------------------------------
# comprehensions


class Gen:
    """A generator expression."""

    def __init__(self, f, cond, it):
        self.f, self.cond, self.it = f, cond, it
        self.started = None

    def native(self):
        for x in items_of(self.it) if not isinstance(self.it, types.GeneratorType) else self.it:
            if self.cond is None or self.cond(x):
                yield self.f(x)

    def __iter__(self):
        if has_seg(self.it):
            raise Unsupported("a generator of unknown length in a native operation")
        if self.started is None:
            self.started = self.native()
        return self.started

    def __next__(self):
        return next(iter(self))

    def all(self):
        if self.started is None:
            self.started = listcomp(self.f, self.cond, self.it)
        return self.started

    def lazy(self):
        """The elements without executing them (their conditions are executed when they are looked at)."""
        out = []
        for x in norm(items_of(self.it)):
            if type(x) is Seg:
                if self.cond is not None:
                    raise Unsupported("condition in a generator of unknown length")
                out.append(Seg(x.lo, x.hi, lambda t, x=x: self.f(x.at(t))))
            elif self.cond is None or self.cond(x):
                out.append(Call(self.f, x))
        return out


class Call:
    def __init__(self, f, x):
        self.f, self.x = f, x


def gen(f, cond, it):
    return Gen(f, cond, iter(it) if raw(it) is None and not isinstance(it, (Gen, VDict, View)) else it)


def listcomp(f, cond, it):
    if type(it) is Gen:
        it = it.all() if sym(it) else it
    if not sym(it):
        return VList([f(x) for x in items_or(it) if cond is None or cond(x)])
    r = VList()

    def body(x):
        if cond is None or cond(x):
            r.append(f(x))
    loop(it, body)
    return r


def flat(f, cond, it):
    """The lists f(x) after each other."""
    if type(it) is Gen:
        it = it.all() if sym(it) else it
    r = VList()

    def body(x):
        if cond is None or cond(x):
            r.extend(f(x))
    if sym(it):
        loop(it, body)
    else:
        for x in items_or(it):
            body(x)
    return r


def to_gen(r):
    return Gen(lambda x: x, None, r)


def to_dictcomp(r):
    return dictcomp(lambda kv: kv, None, r)


def int_(kind, x):
    if kind is builtins.int and isinstance(x, (stubs.SInt, stubs.Bn)) and not x.p.is_const():
        return stubs.mkint(x.p)
    return kind(x)


def unpack(x, before, after):
    """For first, *rest = x."""
    if not sym(x):
        r = items_or(x)
        r = builtins.list(r)
        if len(r) < before + after:
            raise ValueError("not enough values to unpack (expected at least %d, got %d)" % (before + after, len(r)))
        return tuple(r[:before]) + (VList(r[before:len(r) - after]),) + tuple(r[len(r) - after:])
    x = VList(norm(items_of(x)))
    if bool(seq.len_(x) < before + after):
        raise ValueError("not enough values to unpack")
    return tuple(x[i] for i in range(before)) + (x[before:seq.len_(x) - after if after else None],) + tuple(
        x[seq.len_(x) - after + i] for i in range(after))


def reduce_(f, it, *start):
    if not sym(it):
        return functools.reduce(f, items_or(it), *start)
    if start:
        acc, rest = start[0], it
    else:
        acc, rest = unpack(it, 1, 0)

    def body(x):
        nonlocal acc
        acc = f(acc, x)
    loop(rest, body)
    return acc


def items_or(it):
    r = raw(it)
    return it if r is None else r


def dictcomp(f, cond, it):
    d = VDict()

    def body(x):
        if cond is None or cond(x):
            k, v = f(x)
            d[k] = v
    if sym(it):
        loop(it, body)
    else:
        for x in items_or(it):
            body(x)
    return d


def setcomp(f, cond, it):
    return seq.vset(listcomp(f, cond, it))


def quant(x, want):
    """any (want = True) and all."""
    if type(x) is Gen and x.started is None:
        if not has_seg(x.it):
            for v in x:
                if bool(v) == want:
                    return want
            return not want
        roots = [r for r in (x.f, x.cond) if r is not None]

        def one(y):
            """What it takes to go on after y."""
            if x.cond is not None and not bool(x.cond(y)):
                return T.TRUE
            v = seq.truth(x.f(y))
            return T.fnot(v) if want else v
        fs = []
        try:
            for i in norm(items_of(x.it)):
                if type(i) is Seg:
                    f = seq.generic_form(i.lo, i.hi, lambda t, i=i: one(i.at(t)), lambda t, i=i: roots + [i.at(t)])
                else:
                    f = formula(lambda: one(i), None, roots + [i])
                fs.append(f)
                if f == T.FALSE:
                    break
        except seq.CondError:
            return quant_loop(x, want)
        r = T.fand(fs)
        return mkbool(T.fnot(r) if want else r)
    if type(x) is Gen:
        return quant(builtins.list(x), want)
    return seq.any_(x) if want else seq.all_(x)


def quant_loop(x, want):
    """any and all as the loop that they are."""
    for i in norm(items_of(x.it)):
        r = loop(VList([i]), lambda y: Ret(want) if (x.cond is None or x.cond(y)) and bool(x.f(y)) == want else None)
        if r is not None:
            return want
    return not want


def sum_(xs, start=0):
    if not sym(xs):
        return builtins.sum(items_or(xs), start)
    acc = start

    def body(x):
        nonlocal acc
        acc = acc + x
    loop(xs, body)
    return acc


class SymHash:
    """hash() of something symbolic: equal exactly if the arguments are (no collisions)."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        if isinstance(o, SymHash):
            return mkbool(seq.eq_form(self.v, o.v))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(T.fnot(form(r)))

    def __hash__(self):
        return hash(repr(self.v))

    def __index__(self):
        raise Unsupported("the value of a hash")

    __int__ = __index__


def sym_text(x):
    from . import tokens
    if isinstance(x, builtins.str):
        return tokens.RX.search(x) is not None
    if isinstance(x, builtins.tuple):
        return any(sym_text(y) for y in x)
    return isinstance(x, (stubs.Bn, stubs.SInt)) and not x.p.is_const()


def hash_(x):
    if isinstance(x, builtins.tuple):
        return SymHash(x)
    if is_code(x):
        for k in type(x).__mro__:
            h = k.__dict__.get("__hash__")
            if isinstance(h, types.FunctionType):
                return h(x)
            if h is not None:
                break
    return builtins.hash(x)


def map_(f, *its):
    if len(its) == 1:
        return listcomp(f, None, its[0])
    return listcomp(lambda x: f(*x), None, seq.zip_(*its))


def filter_(f, it):
    return listcomp(lambda x: x, f or (lambda x: x), it)


def conv(f):
    def g(x=()):
        return f(x.all() if type(x) is Gen else x)
    return g


class _ListMeta(type):
    """What `list` is in the code: makes VLists, and all lists are its instances."""

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.list)

    def __subclasscheck__(cls, x):
        return issubclass(x, builtins.list)

    def __call__(cls, x=()):
        return VList(x.all() if type(x) is Gen else x)


def eq_(x, y):
    if isinstance(x, (builtins.str, builtins.bytes)) and type(x) is type(y) or \
            isinstance(x, builtins.tuple) and isinstance(y, builtins.tuple) and (seq.deep_seg(x) or seq.deep_seg(y)):
        return mkbool(seq.eq_form(x, y))
    return x == y


def ne_(x, y):
    if isinstance(x, (builtins.str, builtins.bytes, builtins.tuple)) and type(x) is type(y):
        return mkbool(T.fnot(form(eq_(x, y))))
    return x != y


def fmt_(f, x):
    """f % x"""
    xs = x if isinstance(x, builtins.tuple) else (x,)
    num = [isinstance(i, (stubs.SInt, stubs.Bn)) for i in xs]
    if not builtins.any(num):
        return f % x
    isb = isinstance(f, builtins.bytes)
    s = f.decode("latin-1") if isb else f
    specs = re.findall(r"%(.)", s)
    if "%" in specs or len(specs) != len(xs):
        raise Unsupported("format %r" % f)
    for c, n in zip(specs, num):
        if n and c not in ("i", "d", "s"):
            raise Unsupported("format %r" % f)
    if isb:
        if "s" in specs:
            raise Unsupported("format %r" % f)
        return (re.sub("%[id]", "%s", s) % builtins.tuple(str(i) for i in xs)).encode("latin-1")
    return re.sub("%[id]", "%s", s) % builtins.tuple(str(i) if n else i for i, n in zip(xs, num))


def star_(x):
    """*x, with its sequences of unknown length as they are (the callee gets them in a tuple)."""
    if type(x) is Gen:
        x = x.all() if sym(x) else x
    if type(x) is View:
        return x.items()
    r = raw(x)
    return x if r is None else builtins.list(r)


def is_(x, y):
    if type(x) is Poison or type(y) is Poison:
        (x if type(x) is Poison else y)._u()
    return x is y


def isnot_(x, y):
    return not is_(x, y)


def ite_(cond, x, y):
    """x if cond else y, for integers; a bit makes no new case in a loop."""
    if isinstance(cond, (stubs.Bn, stubs.SInt)) and cur().frames:
        p = cur().deep_sub(cond.p)
        if not p.is_const() and T.bounds(p) == (0, 1):
            return stubs.mkint(const(y) + p * const(x - y))
    return x if cond else y


def extra():
    """Built-in functions for the rewritten code."""
    def wrap(f):
        def g(*a, **k):
            return f(*[x.all() if type(x) is Gen and sym(x) else x for x in a], **k)
        return g
    d = dict(
        __zkv_Ret__=Ret, __zkv_BRK__=BRK, __zkv_loop__=loop, __zkv_sym__=sym, __zkv_list__=VList,
        __zkv_dict__=VDict, __zkv_set__=seq.vset, __zkv_listcomp__=listcomp, __zkv_flat__=flat, __zkv_to_gen__=to_gen, __zkv_to_dictcomp__=to_dictcomp, __zkv_to_setcomp__=seq.vset, __zkv_int__=int_, __zkv_unpack__=unpack, __zkv_gen__=gen, __zkv_eq__=eq_, __zkv_ne__=ne_, __zkv_is__=is_, __zkv_isnot__=isnot_, __zkv_ite__=ite_, __zkv_star__=star_, __zkv_fmt__=fmt_,
        __zkv_dictcomp__=dictcomp, __zkv_setcomp__=setcomp,
        list=_LIST, dict=VDict, set=conv(seq.vset), frozenset=conv(seq.vset), len=seq.len_, range=seq.range_,
        enumerate=wrap(seq.enumerate_), zip=wrap(seq.zip_), any=lambda x: quant(x, True),
        all=lambda x: quant(x, False), sum=sum_, tuple=_TUPLE, hash=hash_, map=map_, filter=filter_)
    for n in ("sorted", "reversed", "iter", "min", "max"):
        d[n] = wrap(seq.native(getattr(builtins, n), n))
    return d


class _LIST(metaclass=_ListMeta):
    pass


class _TupleMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.tuple)

    def __subclasscheck__(cls, x):
        return issubclass(x, builtins.tuple)

    def __call__(cls, x=()):
        return seq.tuple_(x.all() if type(x) is Gen else x)


class _TUPLE(metaclass=_TupleMeta):
    pass
