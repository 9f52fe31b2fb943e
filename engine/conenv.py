"""The environment of concrete runs: the real package on the real petlib and bplib, with the random
sources replaced by a seeded one that logs every draw."""
import importlib
import random as _random
import secrets as _secrets
import hashlib

from .env import BaseEnv, Fail, Skip

EDGE = ("zero", "one", "minus1", "rand", "rand", "rand")


class Source:
    def __init__(self):
        self.reset(0)

    def reset(self, seed):
        self.rng = _random.Random(seed)
        self.draws = []
        self.events = []
        self.forced = []         # forced results of large draws, in order
        self.force = []          # forced results of small choices, in order

    def below(self, n, how):
        if self.forced:
            v = self.forced.pop(0) % n
        else:
            v = self.rng.randrange(n) if n > 0 else 0
        self.draws.append((v, n, how))
        return v

    def small(self, n, how):
        if self.force:
            v = self.force.pop(0) % n
        else:
            v = self.rng.randrange(n)
        self.events.append(("choice", how, n, v))
        return v


SRC = Source()
_installed = []


class _Sys(_random.Random):
    how = "secure"

    def __init__(self, *a):
        pass

    def choice(self, seq):
        return seq[SRC.small(len(seq), self.how)]

    def randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        a, b = int(a), int(b)
        if b - a <= 0:
            raise ValueError("empty range")
        if b - a <= 16:
            return a + SRC.small(b - a, self.how)
        return a + SRC.below(b - a, self.how)

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def getrandbits(self, n):
        return SRC.below(1 << n, self.how)

    def random(self):
        return SRC.below(1 << 53, self.how) / float(1 << 53)

    def shuffle(self, x):
        for i in reversed(range(1, len(x))):
            j = SRC.small(i + 1, self.how)
            x[i], x[j] = x[j], x[i]

    def sample(self, pop, k):
        pop = list(pop)
        self.shuffle(pop)
        return pop[:k]

    def choices(self, pop, k=1, **kw):
        return [self.choice(pop) for _ in range(k)]

    def seed(self, *a):
        pass


class _Ins(_Sys):
    how = "insecure"


def install():
    """Route every random source the package can reach through SRC."""
    if _installed:
        return
    _installed.append(1)
    import petlib.bn as pbn
    Bn = pbn.Bn

    def rnd(self):
        n = int(str(self)) if not hasattr(self, "int") else self.int()
        if n <= 0:
            raise Exception("BN exception")
        return Bn.from_decimal(str(SRC.below(n, "bn")))
    Bn.random = rnd
    _random.SystemRandom = _Sys
    ins = _Ins()
    for n in ("choice", "randrange", "randint", "getrandbits", "shuffle", "sample", "choices", "random"):
        setattr(_random, n, getattr(ins, n))
    _secrets.SystemRandom = _Sys
    _secrets.token_bytes = lambda n=32: SRC.below(1 << (8 * n), "secrets").to_bytes(n, "big")
    _secrets.token_hex = lambda n=32: _secrets.token_bytes(n).hex()
    _secrets.randbelow = lambda n: (SRC.small(n, "secrets") if n <= 16 else SRC.below(n, "secrets"))
    _secrets.randbits = lambda n: SRC.below(1 << n, "secrets")
    _secrets.choice = _Sys().choice


class ConEnv(BaseEnv):
    def __init__(self, seed, overrides=None, force=None):
        install()
        SRC.reset(seed)
        SRC.force = list(force or [])
        h = hashlib.sha256(b"inputs%d" % seed).digest()
        self.rng = _random.Random(int.from_bytes(h, "big"))
        self.overrides = overrides or {}
        self.values = {}
        self.notes = []
        self.nchecks = 0
        self.labels = {}
        import petlib.bn
        self.numtypes = (petlib.bn.Bn, int)
        self.boolish = bool

    def load(self, name):
        return importlib.import_module(name)

    def _val(self, name, gen):
        if name not in self.values:
            self.values[name] = int(self.overrides[name]) if name in self.overrides else gen()
        return self.values[name]

    def _edge(self, lo, hi):
        r = self.rng.random()
        if r < 0.10:
            return lo
        if r < 0.18:
            return min(lo + 1, hi - 1)
        if r < 0.28:
            return hi - 1
        if r < 0.34:
            return min(hi - 1, lo + self.rng.randrange(64))
        return self.rng.randrange(lo, hi)

    def sc(self, name, q):
        n = q.int()
        v = self._val(name, lambda: self._edge(0, n))
        return self.bn(v % n)

    def num(self, name, lo=None, hi=None):
        l = -(1 << 300) if lo is None else lo
        h = (1 << 300) if hi is None else hi

        def gen():
            if lo is None and hi is None and self.rng.random() < 0.5:
                q = self.group().order().int()
                k = self.rng.choice((-3, -1, 0, 1, 2)) * q
                return k + self.rng.choice((0, 1, -1, self.rng.randrange(q)))
            return self._edge(l, h)
        v = self._val(name, gen)
        if not l <= v < h:
            raise Skip()
        return self.bn(v)

    def pyint(self, name, lo=1 - (1 << 32), hi=1 << 32):
        v = self._val(name, lambda: self.rng.choice((0, 1, -1, lo, hi - 1, self.rng.randrange(lo, hi),
                                                     self.rng.randrange(1000))) if lo < -5
                      else self._edge(lo, hi))
        if not lo <= v < hi:
            raise Skip()
        return v

    def pt(self, name, group=None):
        group = group or self.group()
        n = group.order().int()
        v = self._val("dlog:" + name, lambda: self.rng.randrange(n) if self.rng.random() > 0.04 else 0)
        if v % n == 0:
            return group.infinite()
        return self.bn(v) * group.generator()

    def nears(self, p):
        """Other points whose encodings nearly agree with that of p: only the sign, the low or the high bits differ."""
        G = p.group
        inf = G.infinite()
        out = [] if p == inf else [-1 * p, inf]
        ec = not hasattr(G, "bp")
        if p == inf or not ec and type(G).__name__ != "G1Group":
            return out + [p + G.generator()]
        raw = p.export() if ec else p.pt.export()
        if ec:
            mk = lambda b: self.load("petlib.ec").EcPt.from_binary(b, G)
        else:
            mk = lambda b: type(p)(self.load("bplib.bp").G1Elem.from_bytes(b, G.bp.bpgp), G.bp)
        for at in (1, 3, len(raw) // 2, len(raw) - 2, len(raw) - 1):
            for i in range(1, 256):
                b = bytearray(raw)
                b[at] ^= i
                try:
                    x = mk(bytes(b))
                except Exception:
                    continue
                if x != p and (x.export() if ec else x.pt.export()) == bytes(b):
                    out.append(x)
                    break
        return out

    def choose(self, n, label=""):
        key = "choose:%s" % label
        k = 0
        while "%s:%d" % (key, k) in self.values:
            k += 1
        key = "%s:%d" % (key, k)
        return self._val(key, lambda: self.rng.randrange(n)) % n

    def assume(self, cond):
        if not cond:
            raise Skip()

    def truth(self, v):
        return bool(v)

    decide = truth

    def check(self, cond, label, detail=""):
        self.nchecks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            raise Fail(label, detail)

    def not_(self, cond):
        return not cond

    def plain(self, n):
        return int(str(n)) if not isinstance(n, int) else n

    def force_draw(self, *vals):
        SRC.forced.extend(int(v) for v in vals)

    def known(self, cond):
        return bool(cond)

    def opaque_str(self, name):
        return self._shared_str(name)

    def _shared_str(self, name):
        return self.shared("str:" + name, lambda: name + "".join(
            self.rng.choice("ab\u00e9\u4e2d\U0001f600 \n{}'\"") for _ in range(self.rng.randrange(12))))

    def note(self, text):
        self.notes.append(text)

    def draws(self):
        return [(self.bn(v), self.bn(n), how) for v, n, how in SRC.draws]

    def choices(self):
        return [e for e in SRC.events if e[0] == "choice"]

    def record(self, *event):
        SRC.events.append(event)

    # -- the interface of UnboundEnv for one length drawn at random
    def length(self, name, lo=1):
        v = self._val(name, lambda: lo + self.rng.choice((0, 0, 1, 1, 2, 2, 3, 4, 5, 7, 9, 12, 17, 32, 65, 130, 270)))
        if not lo <= v <= 300:
            raise Skip()        # (a length the verifier suggests)
        return v

    def seq(self, n, fn):
        return [fn(i) for i in range(n)]

    def items(self, xs):
        return list(xs)

    def len(self, x):
        return len(x)

    def at(self, xs, i):
        return xs[i]

    def concat(self, *xs):
        return [y for x in xs for y in (x if isinstance(x, list) else [x])]

    def index(self, n):
        if n <= 0:
            raise Skip()
        k = 0
        while "#%d" % k in self.values:
            k += 1
        return self._val("#%d" % k, lambda: self.rng.randrange(n))

    def fsc(self, name, i, q):
        return self.sc("%s[%d]" % (name, i), q)

    def fnum(self, name, i, lo=None, hi=None):
        return self.num("%s[%d]" % (name, i), lo, hi)

    def fnear(self, name, i, value, other=None):
        """An arbitrary number (here the given one, or the other one, except at most at one index)."""
        off = self.shared(("off", name), lambda: self.rng.choice([None, 0, 1, 2, 3]))
        if i != off:
            return self.mkbn(value if other is None or i % 2 else other)
        return self.num("%s[%d]" % (name, i))

    def fpt(self, name, i, group=None):
        group = group or self.group()
        return self.shared(("fpt", name, i, str(group)), lambda: self.gen(i, group, name))

    def fsecret(self, name, i, value=None):
        return self.z.Secret(name="%s[%d]" % (name, i), value=value)

    def pattern(self, name, n, m):
        def f(i):
            # onto: the first m indices have all the classes
            return i if i < m else self._val("%s[%d]" % (name, i), lambda: self.rng.randrange(m))
        return f

    def forall(self, n, fn):
        lo, hi = (n if isinstance(n, tuple) else (0, n))
        return all(self.truth(fn(i)) for i in range(int(lo), int(hi)))

    def sum(self, xs):
        return self.total(len(xs), lambda i: xs[i])

    def total(self, n, fn):
        r = self.bn(0)
        for i in range(n):
            r = r + self.mkbn(fn(i))
        return r

    def weighted(self, xs, fn):
        r = self.bn(0)
        for i, x in enumerate(xs):
            r = r + self.mkbn(fn(i, x))
        return r

    def pow2(self, i):
        return self.Bn(2) ** int(i)

    def ptotal(self, n, fn):
        r = fn(0)
        for i in range(1, n):
            r = r + fn(i)
        return r

    def mapping(self, n, fn):
        return dict(fn(i) for i in range(n))

    def fresh(self, x, q):
        for i, (v, n, how) in enumerate(SRC.draws):
            if how != "insecure" and n == int(q) and v == int(x):
                return i
        return None

    def masked_by(self, r, x, q):
        return self.fresh((self.mkbn(r) - self.mkbn(x)) % q, q)

    def same_draw(self, a, b):
        return a == b

    def kid_blinder(self, i, r, c):
        q = self.group().order()
        return (self.mkbn(r[0]) - self.mkbn(c) * self.sc("kx:%d]" % i, q)) % q

    def kid_response(self, name, i):
        return [self.fnum(name, i)]

    def kid(self, name, i, secret, base, precommit=False, known=True):
        """A statement of one secret; the witness is drawn."""
        q = base.group.order()
        x = self.sc("kx:" + secret.name.split("[")[-1], q)
        lhs = x * base
        if known:
            secret = self.z.Secret(name=secret.name, value=x)
        return kid_class(self)(lhs, secret * base, precommit)


def kid_class(env):
    """DL representations of one secret, some with a precommitment."""
    dl, base = env.m("primitives.dlrep"), env.m("base")

    class Prover(dl.DLRepProver):
        def precommit(self):
            return self.stmt.lhs + self.stmt.lhs if self.stmt.wants else None

    class Verifier(dl.DLRepVerifier):
        def process_precommitment(self, precommitment):
            self.stmt.got = precommitment

    class Kid(dl.DLRep):
        def __init__(self, lhs, expr, wants):
            dl.DLRep.__init__(self, lhs, expr)
            self.wants, self.got = wants, None

        def get_prover(self, secrets_dict=None):
            p = dl.DLRep.get_prover(self, secrets_dict)
            if p is None:
                return None
            return Prover(p.stmt, p.secret_values)

        def get_verifier(self):
            return Verifier(self)

        def simulate_proof(self, *a, **k):
            t = dl.DLRep.simulate_proof(self, *a, **k)
            if self.wants:
                t.precommitment = self.lhs + self.lhs + self.lhs
            return t
    return Kid
