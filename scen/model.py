"""Specification side: statement trees, what they mean, what a transcript of them must look like.

A spec is a nested tuple:
    ("dl", "x y x")            Y = x B0 + y B1 + x B2      options: "dl!" false, "dl@415" other curve,
                                                            "dl#g1"/"dl#gt" pairing groups
    ("and", t, ...)  ("or", t, ...)
    ("ne", "x", bind)          H0 = x h0, H1 != x h1        "ne!": H1 = x h1 (false)
    ("p2", n, "x", value)      C = x G + r H, 0 <= x < 2^n
    ("range", a, b, "x", value)
    ("bbs", n, bind)           possession of a signature on n messages
    ("ext", t)  ("ext2", t)    a user's extended statement around t, with a precommitment of its own
    ("ext0", t)                one that uses the default precommitment, which is empty
Nothing here uses the code under verification except its public constructors.
"""


class Leaf:
    """One linear relation lhs = sum of secrets times bases, as it occurs in a transcript."""

    def __init__(self, lhs, bases, labels, group):
        self.lhs, self.bases, self.labels, self.group = lhs, list(bases), list(labels), group


class Node:
    """Normalised tree: kind 'dl' (with leaf), 'and', 'or'."""

    def __init__(self, kind, kids=(), leaf=None, pre=None, inst=None):
        self.kind, self.kids, self.leaf, self.inst = kind, list(kids), leaf, inst
        self.true = 0            # a disjunct that can be proven (None: none)


class Inst:
    """The public values (and the witness) of a spec."""

    def __init__(self, env, spec, vals=None, path="t", gens=None, own=None):
        self.env, self.spec, self.path = env, spec, path
        self.vals = {} if vals is None else vals
        self.fixed = own
        head = spec[0]
        self.false = head.endswith("!")
        head = head.rstrip("!")
        self.kind, _, opt = head.partition("@")
        self.kind, _, pg = self.kind.partition("#")
        self.form = self.kind
        self.kind = "ext" if self.kind in ("ext2", "ext0") else self.kind
        if pg:
            bp = env.shared("bp", lambda: env.m("pairings").BilinearGroupPair())
            self.group = {"g1": bp.G1, "g2": bp.G2, "gt": bp.GT}[pg]
        else:
            self.group = env.group(int(opt)) if opt else env.group()
        self.q = self.group.order()
        self.kids = []
        getattr(self, "_i_" + self.kind)(*spec[1:])

    @staticmethod
    def labels_of(spec):
        """Labels of the plain secrets of a spec."""
        k = spec[0].split("!")[0].split("@")[0].split("#")[0]
        if k == "dl":
            return spec[1].split()
        if k == "ne":
            return [spec[1]]
        if k == "p2":
            return [spec[2], "r_" + spec[2]]
        if k == "range":
            return [spec[3], "r_" + spec[3]]
        if k == "bbs":
            return ["t_m%d" % i for i in range(spec[1])] + ["t_s"]
        return [l for s in spec[1:] for l in Inst.labels_of(s)]

    @staticmethod
    def has_pre(spec):
        """Whether proofs of a spec have a precommitment."""
        k = spec[0].split("!")[0]
        return any(Inst.has_pre(s) for s in spec[1:]) if k in ("and", "or") else k in ("ne", "p2", "range", "bbs", "ext", "ext2", "ext0")

    def val(self, label, q=None):
        if label not in self.vals:
            self.vals[label] = self.env.sc("v_" + label, q or self.q)
        return self.vals[label]

    def lin(self, vals, bases):
        r = self.group.infinite()
        for v, b in zip(vals, bases):
            r = r + v * b
        return r

    # -- kinds
    def _i_dl(self, labels):
        self.labels = labels.split()
        self.bases = self.env.gens(len(self.labels), self.group, self.path)
        self.lhs = self.lin([self.val(l) for l in self.labels], self.bases)
        if self.false:
            d = self.env.sc("wrong_" + self.path, self.q)
            self.env.assume(d != 0)
            self.lhs = self.lhs + d * self.env.gens(1, self.group, "wrong")[0]

    def _i_and(self, *kids):
        self.kids = [Inst(self.env, k, self.vals, "%s.%d" % (self.path, i)) for i, k in enumerate(kids)]

    _i_or = _i_and

    def _i_ne(self, label, bind):
        self.label, self.bind = label, bind
        self.h0, self.h1 = self.env.gens(2, self.group, self.path)
        x = self.val(label)
        self.H0 = x * self.h0
        if self.false:
            self.H1 = x * self.h1
        else:
            d = self.env.sc("diff_" + self.path, self.q)
            self.env.assume(d != 0)
            self.H1 = x * self.h1 + d * self.env.gens(1, self.group, "diff")[0]

    def _i_p2(self, n, label, value):
        env = self.env
        self.n, self.label = n, label
        self.g, self.h = env.gens(2, self.group, self.path)
        self.vals.setdefault(label, env.bn(value))
        self.value = env.bn(value)
        self.com = self.val(label) * self.g + self.val("r_" + label) * self.h

    def _i_range(self, a, b, label, value):
        env = self.env
        self.a, self.b, self.label = a, b, label
        self.g, self.h = env.gens(2, self.group, self.path)
        self.vals.setdefault(label, env.bn(value))
        self.com = self.vals[label] * self.g + self.val("r_" + label) * self.h
        # 2^k with k >= 1 the smallest such that 2^k >= b - a
        k = 1
        while (1 << k) < b - a:
            k += 1
        self.nbits = k

    def _i_bbs(self, n, bind):
        env = self.env
        self.n, self.bind = n, bind
        bp = env.shared("bp", lambda: env.m("pairings").BilinearGroupPair())
        self.group = bp.G1
        self.q = bp.G1.order()
        self.gens = env.gens(n + (4 if n % 2 else 2), bp.G1, "bbs")
        # not every h0 is the generator that the library calls so
        self.h0 = (env.num("eta", 1, 1 << 100) if n > 2 else env.bn(1)) * bp.G2.generator()
        gamma = env.shared("gamma", lambda: env.sc("gamma", self.q))
        env.assume(gamma != 0)
        self.w = gamma * self.h0
        self.msgs = ["%s_m%d" % (self.path, i) for i in range(n)]
        self.le, self.ls = self.path + "_e", self.path + "_s"
        e, s = self.val(self.le), self.val(self.ls)
        env.assume(env.mod(gamma + e, self.q) != 0)
        prod = self.gens[0] + s * self.gens[1]
        for l, g in zip(self.msgs, self.gens[2:]):
            prod = prod + self.val(l) * g
        self.A = (gamma + e).mod_inverse(self.q) * prod

    def _i_ext(self, kid):
        self.kids = [Inst(self.env, kid, self.vals, self.path + ".e")]
        self.prepoint = self.env.gens(1, self.group, self.path + "pre")[0]

    # -- truth of the parts (which disjuncts an honest prover can prove)
    def provable(self):
        if self.kind == "or":
            return any(k.provable() for k in self.kids)
        if self.kind in ("and", "ext"):
            return all(k.provable() for k in self.kids)
        return not self.false

    def has_ext(self):
        return self.kind in ("ne", "p2", "range", "bbs", "ext") or any(k.has_ext() for k in self.kids)

    # -- a precommitment of our own, with the internal witness (labels as in expand)
    def model_pre(self, rnd):
        """rnd(q): an arbitrary scalar.  Sets self.internal."""
        env, q = self.env, self.q
        I = lambda s: "%s:%s" % (self.path, s)
        self.internal = {}
        if self.kind in ("and", "or"):
            ps = [k.model_pre(rnd) for k in self.kids]
            return None if all(p is None for p in ps) else ps
        if self.kind == "ext":
            self.kids[0].model_pre(rnd)
            return [] if self.form == "ext0" else rnd(q) * self.prepoint
        if self.kind == "ne":
            b = rnd(q)
            x = self.val(self.label)
            if self.false:
                return b * env.gens(1, self.group, "diff")[0]
            env.assume(b != 0)
            self.internal = {I("a"): (x * b) % q, I("b"): (-b) % q}
            return b * (x * self.h1 - self.H1)
        if self.kind == "p2":
            return self._p2_pre(self.value, self.n, self.com, "", rnd)
        if self.kind == "range":
            v = self.vals[self.label]
            off = (1 << self.nbits) - (self.b - self.a)
            lo = self._p2_pre(v - env.bn(self.a), self.nbits, None, "lo", rnd)
            hi = self._p2_pre(v - env.bn(self.a) + env.bn(off), self.nbits, None, "hi", rnd)
            return [None, lo, hi]
        if self.kind == "bbs":
            r1, r2 = rnd(q), rnd(q)
            e = self.vals[self.le]
            self.internal = {I("r1"): r1, I("r2"): r2, I("d1"): (r1 * e) % q, I("d2"): (r2 * e) % q,
                             I("e"): e, I("s"): self.vals[self.ls]}
            g = self.gens
            return {"A1": r1 * g[1] + r2 * g[2], "A2": r1 * g[2] + self.A}
        return None

    def _p2_pre(self, value, n, com, tag, rnd):
        env, q = self.env, self.q
        v = int(env.plain(value))
        Cs, tot = [], env.Bn(0)
        for i in range(n):
            r, b = rnd(q), (v >> i) & 1
            self.internal["%s:%sr%d" % (self.path, tag, i)] = r
            self.internal["%s:%sb%d" % (self.path, tag, i)] = b
            Cs.append(b * self.g + r * self.h)
            tot = tot + env.bn(1 << i) * r
        return {"Cs": Cs, "rand": (tot - self.val("r_" + self.label)) % q}

    def witness(self):
        w = dict(self.vals)
        for k in self.kids:
            w.update(k.witness())
        w.update(getattr(self, "internal", {}))
        return w

    def pre_valid(self, pre):
        """What the verifier has to check about a precommitment itself."""
        env = self.env
        if self.kind in ("and", "or"):
            pres = [None] * len(self.kids) if pre is None else pre
            return env.all([k.pre_valid(p) for k, p in zip(self.kids, pres)])
        if self.kind == "ne":
            return env.not_(pre == self.group.infinite())
        if self.kind == "p2":
            return self._p2_valid(pre, self.n, self.com)
        if self.kind == "range":
            lo = self.com - env.bn(self.a) * self.g
            off = (1 << self.nbits) - (self.b - self.a)
            return env.all([self._p2_valid(pre[1], self.nbits, lo),
                            self._p2_valid(pre[2], self.nbits, lo + env.bn(off) * self.g)])
        return True

    def _p2_valid(self, pre, n, com):
        env = self.env
        if len(pre["Cs"]) != n:
            return False
        tot = self.group.infinite()
        for i, c in enumerate(pre["Cs"]):
            tot = tot + env.bn(1 << i) * c
        return tot == com + pre["rand"] * self.h

    # -- the statement of the library
    def secret_labels(self):
        if self.kind == "dl":
            return list(self.labels)
        if self.kind == "ne":
            return [self.label]
        if self.kind in ("p2", "range"):
            return [self.label, "r_" + self.label]
        if self.kind == "bbs":
            return [self.le, self.ls] + self.msgs
        out = []
        for k in self.kids:
            out.extend(k.secret_labels())
        return out

    def stmt(self, secrets, prover=False, known=True):
        """Build the statement; secrets maps labels to Secret objects."""
        env, z = self.env, self.env.z
        S = secrets
        if self.kind == "dl":
            e = None
            for l, b in zip(self.labels, self.bases):
                t = S[l] * b
                e = t if e is None else e + t
            return z.DLRep(self.lhs, e)
        if self.kind == "and":
            return env.m("composition").AndProofStmt(*[k.stmt(S, prover) for k in self.kids])
        if self.kind == "or":
            ks = [k.stmt(S, prover) for k in self.kids]
            if prover:
                for k, s in zip(self.kids, ks):
                    if not k.provable():
                        s.set_simulated()
            return env.m("composition").OrProofStmt(*ks)
        if self.kind == "ne":
            return env.m("primitives.dl_notequal").DLNotEqual(
                (self.H0, self.h0), (self.H1, self.h1), S[self.label], bind=self.bind)
        if self.kind == "p2":
            return env.m("primitives.rangeproof").PowerTwoRangeStmt(
                com=self.com, g=self.g, h=self.h, num_bits=self.n, x=S[self.label],
                randomizer=S["r_" + self.label])
        if self.kind == "range":
            return env.m("primitives.rangeproof").RangeStmt(
                self.com, self.g, self.h, self.a, self.b, S[self.label], S["r_" + self.label])
        if self.kind == "bbs":
            bb = env.m("primitives.bbsplus")
            pk = bb.BBSPlusPublicKey(w=self.w, h0=self.h0, generators=self.gens)
            sig = bb.BBSPlusSignature(A=self.A, e=self.vals[self.le], s=self.vals[self.ls]) if prover else None
            if self.bind:
                sv = [S[self.le], S[self.ls]] + [S[m] for m in self.msgs]
            else:
                sv = [S[m] for m in self.msgs]
            return bb.BBSPlusSignatureStmt(sv, pk, sig, binding=self.bind)
        if self.kind == "ext":
            return user_ext(env, self.form)(self.prepoint, self.kids[0], S, prover)
        raise KeyError(self.kind)

    # -- the expected expansion, given the precommitment
    def expand(self, pre, names="", top=None):
        """Normalised tree; internal secrets get labels of their own (unique by path)."""
        I = lambda s: "%s:%s" % (self.path, s)
        if self.kind == "dl":
            return Node("dl", leaf=Leaf(self.lhs, self.bases, self.labels, self.group), inst=self)
        if self.kind in ("and", "or"):
            pres = [None] * len(self.kids) if pre is None else pre
            n = Node(self.kind, [k.expand(p) for k, p in zip(self.kids, pres)], inst=self)
            n.true = [i for i, k in enumerate(self.kids) if k.provable()][:1]
            n.true = n.true[0] if n.true else None
            return n
        if self.kind == "ne":
            O = self.group.infinite()
            kids = [Leaf(O, [self.h0, self.H0], [I("a"), I("b")], self.group),
                    Leaf(pre, [self.h1, self.H1], [I("a"), I("b")], self.group)]
            if self.bind:
                kids.append(Leaf(self.H0, [self.h0], [self.label], self.group))
            return Node("and", [Node("dl", leaf=l, inst=self) for l in kids], inst=self)
        if self.kind == "p2":
            return self._bits(pre, self.n, I, self)
        if self.kind == "range":
            pres = [None] * 3 if pre is None else pre
            top_ = Leaf(self.com, [self.g, self.h], [self.label, "r_" + self.label], self.group)
            return Node("and", [Node("dl", leaf=top_, inst=self),
                                self._bits(pres[1], self.nbits, lambda s: I("lo" + s), self),
                                self._bits(pres[2], self.nbits, lambda s: I("hi" + s), self)], inst=self)
        if self.kind == "bbs":
            bp = self.env.shared("bp", None)
            A1, A2 = pre["A1"], pre["A2"]
            g = self.gens
            O = self.group.infinite()
            d1 = Leaf(A1, [g[1], g[2]], [I("r1"), I("r2")], self.group)
            e = self.le if self.bind else I("e")
            s = self.ls if self.bind else I("s")
            d2 = Leaf(O, [g[1], g[2], -1 * A1], [I("d1"), I("d2"), e], self.group)
            lhs = A2.pair(self.w) + (-1) * g[0].pair(self.h0)
            bases = [-1 * A2.pair(self.h0), g[2].pair(self.w), g[2].pair(self.h0), g[1].pair(self.h0)]
            bases += [x.pair(self.h0) for x in g[2:2 + self.n]]
            d3 = Leaf(lhs, bases, [e, I("r1"), I("d1"), s] + self.msgs, bp.GT)
            return Node("and", [Node("dl", leaf=l, inst=self) for l in (d1, d2, d3)], inst=self)
        if self.kind == "ext":
            return self.kids[0].expand(None)

    def _bits(self, pre, n, I, inst):
        Cs = pre["Cs"]
        kids = []
        for i in range(n):
            l0 = Leaf(Cs[i], [self.h], [I("r%d" % i)], self.group)
            l1 = Leaf(Cs[i] - self.g, [self.h], [I("r%d" % i)], self.group)
            kids.append(Node("or", [Node("dl", leaf=l0, inst=inst), Node("dl", leaf=l1, inst=inst)], inst=inst))
            kids[-1].true = getattr(inst, "internal", {}).get(I("b%d" % i), 0)
        return kids[0] if n == 1 else Node("and", kids, inst=inst)


def user_ext(env, kind="ext"):
    """A small extended statement as a user of the library writes it."""
    ext = env.m("extended")

    class UserExt(ext.ExtendedProofStmt):
        def __init__(self, point, inner, S, prover):
            self.point, self.inner, self.S, self.prover_ = point, inner, S, prover

        def precommit(self):
            return self.point.group.order().random() * self.point

        def simulate_precommit(self):
            return self.point.group.order().random() * self.point

        def construct_stmt(self, precommitment):
            return self.inner.stmt(self.S, self.prover_)

        def is_provable(self):
            return all(self.S[l].value is not None for l in self.inner.secret_labels())

    class OtherExt(UserExt):
        """The same with another meaning."""

    class PlainExt(ext.ExtendedProofStmt):
        """One without a precommitment."""
        __init__, construct_stmt, is_provable = UserExt.__init__, UserExt.construct_stmt, UserExt.is_provable

    return {"ext": UserExt, "ext2": OtherExt, "ext0": PlainExt}[kind]


def make_secrets(env, inst, valued, how="secret", names=None):
    """Secret objects for all labels.  Returns (secrets, dict for prove())."""
    z = env.z
    S, d = {}, {}
    for l in inst.secret_labels():
        if l in S:
            continue
        nm = {"name": names(l)} if names else {}
        if valued and how == "secret":
            S[l] = z.Secret(value=inst.vals[l], **nm)
        else:
            S[l] = z.Secret(**nm)
            if valued and how == "dict":
                d[S[l]] = inst.vals[l]
    return S, d


# ---------------------------------------------------------------------------
# transcripts


class At:
    """A leaf of a transcript: its relation, challenge, responses and the conjunctive scope."""

    def __init__(self, leaf, c, resp, scope, path):
        self.leaf, self.c, self.resp, self.scope, self.path = leaf, c, resp, scope, path

    def commitment(self):
        l = self.leaf
        r = l.group.infinite()
        for x, b in zip(self.resp, l.bases):
            r = r + x * b
        return r + (-self.c) * l.lhs


def walk(node, c, resp, scope=(), path="t"):
    """All leaves of a transcript.  A malformed transcript raises Malformed."""
    if node.kind == "dl":
        if not isinstance(resp, (list, tuple)) or len(resp) != len(node.leaf.bases):
            raise Malformed("%s: %d responses expected" % (path, len(node.leaf.bases)))
        if any(isinstance(x, (list, tuple)) for x in resp):
            raise Malformed("%s: numbers expected" % path)
        return [At(node.leaf, c, list(resp), scope, path)]
    if not isinstance(resp, (list, tuple)):
        raise Malformed("%s: a list expected" % path)
    if node.kind == "and":
        if len(resp) != len(node.kids):
            raise Malformed("%s: %d parts expected" % (path, len(node.kids)))
        out = []
        for i, (k, r) in enumerate(zip(node.kids, resp)):
            out.extend(walk(k, c, r, scope, "%s.%d" % (path, i)))
        return out
    if len(resp) != 2 or not all(isinstance(x, (list, tuple)) for x in resp):
        raise Malformed("%s: subchallenges and responses expected" % path)
    chals, resps = resp
    if any(isinstance(x, (list, tuple)) for x in chals):
        raise Malformed("%s: numbers expected" % path)
    if len(chals) != len(node.kids) or len(resps) != len(node.kids):
        raise Malformed("%s: %d disjuncts expected" % (path, len(node.kids)))
    out = []
    for i, (k, ci, r) in enumerate(zip(node.kids, chals, resps)):
        out.extend(walk(k, ci, r, scope + ((path, i),), "%s.%d" % (path, i)))
    return out


class Malformed(Exception):
    pass


def ors(node, c, resp, path="t"):
    """All or-nodes: (node, own challenge, subchallenges, path)."""
    if node.kind == "dl":
        return []
    out = []
    if node.kind == "and":
        for i, (k, r) in enumerate(zip(node.kids, resp)):
            out.extend(ors(k, c, r, "%s.%d" % (path, i)))
        return out
    chals, resps = resp
    out.append((node, c, list(chals), path))
    for i, (k, ci, r) in enumerate(zip(node.kids, chals, resps)):
        out.extend(ors(k, ci, r, "%s.%d" % (path, i)))
    return out


def commitment_tree(node, c, resp):
    """The commitment that belongs to responses, in the nesting of the library."""
    if node.kind == "dl":
        return At(node.leaf, c, resp, (), "").commitment()
    if node.kind == "and":
        return [commitment_tree(k, c, r) for k, r in zip(node.kids, resp)]
    return [commitment_tree(k, ci, r) for k, ci, r in zip(node.kids, resp[0], resp[1])]


def arbitrary(env, node, tag, reuse=None, scope=(), path="t"):
    """Free responses (adversarial) for a tree.  reuse: dict for equal responses of equal secrets."""
    if node.kind == "dl":
        out = []
        for i, l in enumerate(node.leaf.labels):
            key = (scope, l)
            if reuse is not None and key in reuse:
                out.append(reuse[key])
                continue
            r = env.sc("%s_%s_%d" % (tag, path, i), node.leaf.group.order())
            if reuse is not None:
                reuse[key] = r
            out.append(r)
        return out
    if node.kind == "and":
        return [arbitrary(env, k, tag, reuse, scope, "%s.%d" % (path, i)) for i, k in enumerate(node.kids)]
    ch = [env.num("%s_c_%s_%d" % (tag, path, i), 0, 1 << 128) for i in range(len(node.kids))]
    return (ch, [arbitrary(env, k, tag, reuse, scope + ((path, i),), "%s.%d" % (path, i))
                 for i, k in enumerate(node.kids)])


def fit_ors(env, node, c, resp):
    """Replace the last subchallenge of every or-node by the one that fits."""
    M = env.Bn(2).pow(128)
    if node.kind == "dl":
        return resp
    if node.kind == "and":
        return [fit_ors(env, k, c, r) for k, r in zip(node.kids, resp)]
    ch, rs = list(resp[0]), resp[1]
    s = env.Bn(0)
    for x in ch[:-1]:
        s = s + x
    ch[-1] = (c - s) % M
    return (ch, [fit_ors(env, k, ci, r) for k, ci, r in zip(node.kids, ch, rs)])


def scope_groups(ats):
    """Responses of each secret that must agree: {(scope prefix, label): [response, ...]}."""
    out = {}
    for a in ats:
        for l, r in zip(a.leaf.labels, a.resp):
            out.setdefault((a.scope, l), []).append(r)
    return out


def consistent(env, ats):
    conds = []
    for rs in scope_groups(ats).values():
        conds += [rs[0] == r for r in rs[1:]]
    return env.all(conds)


def judge(env, node, com, c, resp, pre_ok=True):
    """Whether a verifier has to accept: the condition of the specification."""
    try:
        ats = walk(node, c, resp)
    except Malformed:
        return False
    M = env.Bn(2).pow(128)
    conds = [pre_ok, consistent(env, ats)]
    for n, ch, subs, path in ors(node, c, resp):
        tot = env.Bn(0)
        for s in subs:
            tot = tot + s
            conds += [s >= 0, s < M]
        conds.append((tot - ch) % M == 0)
    conds.append(env.same(com, commitment_tree(node, c, resp)))
    return env.all(conds)


def agree(env, label, accepted, cond):
    if accepted:
        env.check(cond, label + ": what is accepted satisfies the verification equations and consistency")
    else:
        env.check(env.not_(cond), label + ": what satisfies them is accepted")


# ---------------------------------------------------------------------------
# forging


class Forger:
    """Makes a non-interactive proof from outside the library: leaves with a known opening are proven
    with it, or-branches are simulated.  Each opening can be chosen per occurrence, so that exactly one
    check of the verifier is violated."""

    def __init__(self, env, node, opening, proven=None, consistent=True):
        """opening(path, leaf) -> values or None;  proven: {or-path: index of the proven disjunct}."""
        self.env, self.node, self.opening = env, node, opening
        self.proven = proven or {}
        self.consistent = consistent
        self.k = {}
        self.sim = {}
        self.n = 0

    def rnd(self, q):
        self.n += 1
        return self.env.sc("forge%d" % self.n, q)

    def c128(self):
        self.n += 1
        return self.env.num("forgec%d" % self.n, 0, 1 << 128)

    def commit(self, node=None, scope=(), path="t", sim=None):
        node = node or self.node
        if sim is not None:
            return self._simulate(node, sim, {}, path)
        if node.kind == "dl":
            q = node.leaf.group.order()
            ks = []
            for i, l in enumerate(node.leaf.labels):
                key = (scope, l) if self.consistent else (path, i)
                if key not in self.k:
                    self.k[key] = self.rnd(q)
                ks.append(self.k[key])
            self.sim[path] = ("k", ks)
            r = node.leaf.group.infinite()
            for k, b in zip(ks, node.leaf.bases):
                r = r + k * b
            return r
        if node.kind == "and":
            return [self.commit(k, scope, "%s.%d" % (path, i)) for i, k in enumerate(node.kids)]
        t = self.proven.get(path, node.true)
        out, sims = [], {}
        for i, k in enumerate(node.kids):
            p = "%s.%d" % (path, i)
            if i == t:
                out.append(self.commit(k, scope + ((path, i),), p))
            else:
                c = self.c128()
                resp = fit_ors(self.env, k, c, arbitrary(self.env, k, "fs%d" % self.n, {}, path=p))
                sims[i] = (c, resp)
                out.append(commitment_tree(k, c, resp))
        self.sim[path] = ("or", t, sims)
        return out

    def respond(self, c, node=None, path="t"):
        node = node or self.node
        if node.kind == "dl":
            q = node.leaf.group.order()
            xs = self.opening(path, node.leaf)
            return [(k + c * x) % q for k, x in zip(self.sim[path][1], xs)]
        if node.kind == "and":
            return [self.respond(c, k, "%s.%d" % (path, i)) for i, k in enumerate(node.kids)]
        _, t, sims = self.sim[path]
        rest = c
        for ci, _ in sims.values():
            rest = rest - ci
        rest = rest % self.env.Bn(2).pow(128)
        ch, rs = [], []
        for i, k in enumerate(node.kids):
            if i == t:
                ch.append(rest)
                rs.append(self.respond(rest, k, "%s.%d" % (path, i)))
            else:
                ch.append(sims[i][0])
                rs.append(sims[i][1])
        return (ch, rs)

    def nizk(self, stmt, pre, message="", com=None):
        base = self.env.m("base")
        if com is None:
            com = self.commit()
        h = stmt.prehash_statement()
        sh = h.digest()
        c = base.build_fiat_shamir_challenge(h, pre, com, message=message)
        return base.NIZK(challenge=c, responses=self.respond(c), precommitment=pre, stmt_hash=sh)
