"""The environment of obligations about sequences of unknown length."""
from . import ctx as C
from . import terms as T
from . import loops, seq, stubs, tokens
from .ctx import cur, Prune
from .symenv import SymEnv
from .terms import ZERO, ONE, const, patom


def plain(d):
    """The entries of a mapping of known size."""
    if any(type(e) is seq.DSeg for e in d.e):
        raise C.Unsupported("serialisation of a mapping of unknown size")
    return d.e


def native(x):
    """Lists and mappings of known size as the native ones."""
    if seq.is_vdict(x):
        return {k: native(v) for k, v in plain(x)}
    if type(x) in (list, seq.VList):
        return [native(y) for y in list.__iter__(x)]
    if type(x) is tuple:
        return tuple(native(y) for y in x)
    return x


def render(x):
    """A text that determines the serialisation of x."""
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(render(y) for y in seq.raw(x)) + "]"
    if seq.is_vdict(x):
        return "{%s}" % ",".join("%s:%s" % (render(e[0]), render(e[1])) for e in plain(x))
    if type(x) is seq.Seg:
        with T.binder(x.lo, x.hi) as i:
            return tokens.token("seg", (x.lo, x.hi, i.id, render(x.at(patom(i)))))
    if isinstance(x, str):
        return "S(%s)" % x
    if isinstance(x, bytes):
        return "Y(%s)" % x.decode("latin-1")
    if x is None or isinstance(x, (bool, int, stubs.SInt, stubs.Bn)):
        return "%s(%s)" % ("Bn" if isinstance(x, stubs.Bn) else "", x)
    if isinstance(x, stubs.EcPt):
        return "P(%s)" % (x,)
    if isinstance(x, stubs._El):
        return "E(%s)" % x.export().decode("latin-1")
    if seq.is_code(x) and hasattr(x, "pt"):
        return "%s(%s)" % (type(x).__name__, render(x.pt))
    raise C.Unsupported("serialisation of %s" % type(x).__name__)


class UnboundEnv(SymEnv):
    def __init__(self, c, bodies=False):
        SymEnv.__init__(self, c, loops.rewrite, loops.extra(), bodies)
        c.lengths = True
        import collections
        import types
        cm = types.ModuleType("collections")
        cm.__dict__.update(collections.__dict__)
        cm.defaultdict = seq.VDefault
        cm.OrderedDict = seq.VDict
        self.w.mods["collections"] = cm
        import functools
        fm = types.ModuleType("functools")
        fm.__dict__.update(functools.__dict__)
        fm.reduce = loops.reduce_
        self.w.mods["functools"] = fm
        pack = self.w.load("petlib.pack")
        orig = pack.encode

        def encode(x, *a, **k):
            if seq.deep_seg(x):
                r = render(x)
                encoded[r] = x
                return tokens.btoken("enc", r)
            return orig(native(x), *a, **k)
        encoded = {}
        dec = pack.decode

        def again(x):
            """Lists element by element."""
            if isinstance(x, (list, tuple)):
                return seq.VList([seq.Seg(i.lo, i.hi, lambda t, i=i: again(i.at(t))) if type(i) is seq.Seg else again(i)
                                  for i in (seq.raw(x) if seq.raw(x) is not None else x)])
            return dec(orig(native(x)))

        def wrapped(x):
            return seq.VList([wrapped(i) for i in x]) if isinstance(x, (list, tuple)) else x

        def decode(x, *a, **k):
            v = tokens.lookup(x) if isinstance(x, bytes) else None
            if v is not None and v[0] == "enc" and v[1] in encoded:
                return again(encoded[v[1]])
            return wrapped(dec(x, *a, **k))
        pack.encode, pack.decode = encode, decode
        ex = self.w.load("zksk.expr")
        gen = ex.Secret._generate_unique_name

        def unique(s):
            # contract: the names of different secrets without a name differ
            if c.frames:
                return tokens.token("fsec", ("auto" + c.fresh("sec"), *[patom(f[0]) for f in c.frames]))
            return gen(s)
        ex.Secret._generate_unique_name = unique

    # -- sequences
    def length(self, name, lo=1):
        p = T.var(name, const(lo), None)
        self._input(name, "int", p.single_atom())
        return stubs.mkint(p)

    def seq(self, n, fn):
        return seq.VList([seq.Seg(ZERO, stubs.poly_of(n), lambda t: fn(stubs.mkint(t)))])

    def len(self, x):
        return stubs.mkint(seq.length(seq.raw(x)))

    def at(self, xs, i):
        for x in seq.raw(xs):
            if type(x) is seq.Seg and len(seq.raw(xs)) == 1 and seq.root(x).attrs:
                seq.root(x).known(stubs.poly_of(i), True)
        return seq.item(seq.raw(xs), stubs.poly_of(i))

    def items(self, x):
        """For *: a sequence of unknown length is one argument."""
        return list(seq.raw(x))

    def concat(self, *xs):
        return seq.VList([y for x in xs for y in (seq.raw(x) if isinstance(x, list) else [x])])

    def index(self, n):
        """An arbitrary index below n."""
        if cur().entails(T.f_lt0(-stubs.poly_of(n))) is False:
            raise Prune()
        return stubs.mkint(patom(cur().eigen(ZERO, stubs.poly_of(n))))

    def fsc(self, name, i, q):
        return stubs.mkbn(patom(T.atom("var", name, ZERO, q.p, stubs.poly_of(i))))

    def fnum(self, name, i, lo=None, hi=None):
        b = [None if x is None else const(x) for x in (lo, hi)]
        return stubs.mkbn(patom(T.atom("var", name, b[0], b[1], stubs.poly_of(i))))

    def fnear(self, name, i, value, other=None):
        return self.fnum(name, i)

    def fpt(self, name, i, group=None):
        group = group or self.group()
        kind = type(group).__name__
        a = T.atom("base", name, (stubs.poly_of(i),), "pt", kind)
        if hasattr(group, "bp"):
            pr = self.m("pairings")
            cls, wr = {"G1Group": (stubs.G1Elem, pr.G1Point), "G2Group": (stubs.G2Elem, pr.G2Point),
                       "GTGroup": (stubs.GTElem, pr.AdditivePoint)}[kind]
            return wr(stubs.mkel(cls, T.lin_base(a, group.order().p), group.bp.bpgp), group.bp)
        return stubs.mkpt(T.lin_base(a, group.q), group)

    def fsecret(self, name, i, value=None):
        return self.z.Secret(name=tokens.token("fsec", (name, stubs.poly_of(i))), value=value)

    def pattern(self, name, n, m):
        """A function from the indices below n onto those below m."""
        M = stubs.poly_of(m)
        cl = self.c.__dict__.setdefault("classes", {})
        cl[name] = (M, stubs.poly_of(n))
        return lambda i: stubs.mkint(patom(T.atom("var", name, ZERO, M, stubs.poly_of(i))))

    # -- formulas
    def same(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (seq.deep_seg(a) or seq.deep_seg(b)):
            al = seq.align(list(seq.raw(a) if seq.raw(a) is not None else a), list(seq.raw(b) if seq.raw(b) is not None else b))
            if al is None:
                return False
            return self.all([self.same(*p) if len(p) == 2 else C.mkbool(seq.generic_form(
                p[0], p[1], lambda t, p=p: stubs.form(self.same(p[2].at(t), p[3].at(t + p[4]))))) for p in al])
        return SymEnv.same(self, a, b)

    def forall(self, n, fn):
        lo, hi = (n if isinstance(n, tuple) else (0, n))
        return C.mkbool(seq.generic_form(stubs.poly_of(lo), stubs.poly_of(hi),
                                         lambda t: C.form(fn(stubs.mkint(t)))))

    def sum(self, xs):
        return loops.sum_(xs, self.bn(0))

    def total(self, n, fn):
        """The sum of the numbers fn(i) for i < n."""
        a, back = self._generic(n)
        return stubs.mkbn(T.mk_sum(stubs.poly_of(n), back(T.subst_poly, stubs.poly_of(fn(stubs.mkint(a))))))

    def _generic(self, n):
        """An index below n for the terms of a sum, and what makes it the bound variable."""
        p = stubs.poly_of(n)
        if not cur().entails(T.f_lt0(-p)):
            return T.J, lambda subst, x: x
        e = cur().eigen(ZERO, p)
        return patom(e), lambda subst, x: subst(x, e.id, T.J)

    def weighted(self, xs, fn):
        """The sum of the numbers fn(i, x) for the i-th element x of xs."""
        r, off = ZERO, ZERO
        for x in seq.raw(xs):
            if type(x) is seq.Seg:
                d = stubs.poly_of(fn(stubs.mkint(T.J + off), x.at(T.J + x.lo)))
                r = r + T.mk_sum(x.hi - x.lo, d)
                off = off + x.hi - x.lo
            else:
                r = r + stubs.poly_of(fn(stubs.mkint(off), x))
                off = off + ONE
        return stubs.mkbn(r)

    def pow2(self, i):
        return stubs.mkbn(T.mk_pow2(stubs.poly_of(i)))

    def ptotal(self, n, fn):
        """The sum of the points fn(i) for i < n."""
        a, back = self._generic(n)
        x = fn(stubs.mkint(a))
        core = x if hasattr(x, "l") else x.pt
        l = T.mk_lsum(stubs.poly_of(n), back(T.subst_lin, core.l))
        if core is x:
            return stubs.mkpt(l, x.group)
        return type(x)(stubs.mkel(type(core), l, core.group), x.bp)

    def poly(self, x):
        return stubs.poly_of(x)

    def mapping(self, n, fn):
        """{k: v for k, v in fn(i)}"""
        return seq.VDict(self.seq(n, fn))

    # -- randomness
    def fresh(self, x, q):
        """The draw that x is (uniform over [0, q), secure), or None."""
        p = stubs.poly_of(x)
        a = None if p is None else cur().deep_sub(p).single_atom()
        if a is None or a.kind != "rnd":
            return None
        for d in cur().draws:
            b = d.get("atom")
            if b is not None and b.args[0] == a.args[0] and d["how"] != "insecure" and cur().entails(
                    T.f_eq0(a.args[2] - stubs.poly_of(q))) is True:
                return a
        return None

    def masked_by(self, r, x, q):
        """The draw k with r = (k + x) mod q."""
        x, q = cur().deep_sub(stubs.poly_of(x)), stubs.poly_of(q)
        for a in list(dict.fromkeys(d["atom"] for d in cur().draws if d.get("atom") is not None)):
            for t in self.instances(a, r):
                k = self.fresh(stubs.mkbn(patom(t)), stubs.mkbn(q))
                if k is not None and cur().entails(C.form(r == self.mod(stubs.mkbn(patom(t) + x), stubs.mkbn(q)))) is True:
                    return k
        return None

    def instances(self, a, x):
        """The instances of a draw in a number."""
        out = []

        def go(y):
            if isinstance(y, T.Poly):
                for k in y.atoms():
                    go(T.by_id(k))
            elif isinstance(y, T.Atom):
                if y.kind == "rnd" and y.args[0] == a.args[0] and y not in out:
                    out.append(y)
                for z in y.args:
                    go(z)
        go(cur().deep_sub(stubs.poly_of(x)))
        return out

    def same_draw(self, a, b):
        """Whether two draws are, or may be, one."""
        return a.args[0] == b.args[0] and all(cur().entails(T.f_eq0(x - y)) is not False for x, y in zip(a.args[3:], b.args[3:]))

    def kid_blinder(self, i, r, c):
        """The randomizer with which the i-th child has answered r to c."""
        a = cur().deep_sub(stubs.poly_of(r)).single_atom()
        if a is None or a.kind != "var" or not str(a.args[0]).startswith("kr:"):
            return None
        return stubs.mkbn(a.args[-2])

    # -- children of a node of the tree, known by their contract only
    def kid_response(self, name, i):
        """An arbitrary response to one of them."""
        return self.fnum(name, i)

    def kid(self, name, i, secret, base, precommit=False, known=True):
        """An arbitrary statement: a sigma protocol that

        - answers the challenge c with the response r(secret, k, c), where k is its randomizer;
        - recomputes the commitment K(i, k) from c and this response, and F(i, c, r) from another one;
        - is simulated for a challenge c and a response r by the commitment F(i, c, r).
        """
        cls = self.shared("kidcls", lambda: kid_class(self))
        return cls(name, i, secret, base, precommit, known)


def kid_class(env):
    comp, base, utils = env.m("composition"), env.m("base"), env.m("utils")
    dl = env.m("primitives.dlrep")
    group = env.group()
    # the contract of a part stands for methods of these names
    for cls, names in ((comp.AndProofStmt, "get_secret_vars get_bases get_proof_id get_prover get_verifier recompute_commitment simulate_proof update_randomizers get_randomizers"),
                       (dl.DLRep, "recompute_commitment simulate_proof update_randomizers get_randomizers"),
                       (dl.DLRepProver, "internal_commit precommit compute_response"), (comp.AndProver, "internal_commit precommit compute_response"),
                       (dl.DLRepVerifier, "check_responses_consistency process_precommitment"), (comp.AndVerifier, "check_responses_consistency process_precommitment")):
        for n in names.split():
            if not hasattr(cls, n):
                raise C.Unsupported("parts have another interface: no %s.%s" % (cls.__name__, n))

    def pt(kind, name, *idx):
        return stubs.mkpt(T.lin_base(T.atom("base", kind + name, tuple(idx), "pt", "EcGroup"), group.q), group)

    def sid(s):
        k = seq.secret_key(s)
        return k[1:] if k is not None else ()

    class Kid(comp.ComposableProofStmt):
        def __init__(self, name, i, secret, base_, precommit, known):
            self.kname, self.i, self.secret, self.base_ = name, i, secret, base_
            self.wants, self.known = precommit, known
            self.got = None

        def get_secret_vars(self):
            return seq.VList([self.secret])

        def get_bases(self):
            return seq.VList([self.base_])

        def get_proof_id(self, secret_id_map=None):
            m = secret_id_map if secret_id_map is not None else seq.VDict([(self.secret.name, 0)])
            return seq.VList(["Kid" + self.kname, self.base_, m[self.secret.name]])

        def get_randomizers(self):
            return seq.VDict([(self.secret, group.order().random())])

        def get_prover(self, secrets_dict=None):
            if self.simulated or not self.known:
                return None
            return KidProver(self)

        def get_verifier(self):
            return KidVerifier(self)

        def recompute_commitment(self, challenge, response):
            c = stubs.poly_of(challenge)
            r = stubs.poly_of(response)
            a = cur().deep_sub(r).single_atom()
            s = sid(self.secret)
            if a is not None and a.kind == "var" and a.args[0] == "kr:" + self.kname and len(a.args) == 3 + len(s) + 2:
                if all(cur().entails(T.f_eq0(x - y)) is True for x, y in
                       zip(a.args[3:], tuple(s) + (c,)[:0])) and cur().entails(T.f_eq0(a.args[-1] - c)) is True:
                    return pt("kidK", self.kname, stubs.poly_of(self.i), a.args[-2])
            return pt("kidF", self.kname, stubs.poly_of(self.i), c, r)

        def simulate_proof(self, responses_dict=None, challenge=None):
            responses_dict = self.update_randomizers(responses_dict)
            if challenge is None:
                challenge = utils.get_random_num(128)
            r = responses_dict[self.secret]
            pre = None
            if self.wants:
                pre = pt("kidS", self.kname, stubs.poly_of(self.i), *[patom(f[0]) for f in cur().frames])
            return base.SimulationTranscript(commitment=self.recompute_commitment(challenge, r), challenge=challenge,
                                             responses=r, precommitment=pre)

    class KidProver(base.Prover):
        def __init__(self, stmt):
            self.stmt = stmt

        def precommit(self):
            if not self.stmt.wants:
                return None
            return pt("kidP", self.stmt.kname, stubs.poly_of(self.stmt.i))

        def internal_commit(self, randomizers_dict=None):
            d = self.stmt.update_randomizers(randomizers_dict)
            self.k = d[self.stmt.secret]
            return pt("kidK", self.stmt.kname, stubs.poly_of(self.stmt.i), stubs.poly_of(self.k))

        def compute_response(self, challenge):
            s = sid(self.stmt.secret)
            return stubs.mkbn(patom(T.atom("var", "kr:" + self.stmt.kname, None, None, *s, stubs.poly_of(self.k),
                                           stubs.poly_of(challenge))))

    class KidVerifier(base.Verifier):
        def check_responses_consistency(self, response, responses_dict=None):
            if responses_dict is None:
                responses_dict = seq.VDict()
            s = self.stmt.secret
            if s in responses_dict:
                return response == responses_dict[s]
            responses_dict[s] = response
            return True

        def process_precommitment(self, precommitment):
            self.stmt.got = precommitment
    for k in (Kid, KidProver, KidVerifier):
        k.__module__ = "zksk._kid"
    return Kid
