"""Helpers of the scenarios."""
from .model import *


def honest(env, spec, how="secret", vals=None, names=None):
    inst = Inst(env, spec, vals)
    S, d = make_secrets(env, inst, True, how, names)
    V, _ = make_secrets(env, inst, False)
    return inst, inst.stmt(S, True), inst.stmt(V), d


def prove(env, p, *a, **k):
    how, n = env.outcome(p.prove, *a, **k)
    env.check(how == "ok", "an honest prover makes a proof", repr(n)[:300])
    return n


def run_interactive(env, pr, ve, challenge=None):
    pre = pr.precommit()
    ve.process_precommitment(pre)
    com = pr.commit()
    if challenge is not None:
        env.force_draw(challenge)
    c = ve.send_challenge(com)
    return pre, com, c, pr.compute_response(c)


def verifier_side(env, spec, vals=None, names=None):
    """The instance with the statement as a verifier builds it."""
    inst = Inst(env, spec, vals)
    V, _ = make_secrets(env, inst, False, names=names)
    return inst, inst.stmt(V)


def scalars(env, tag="w"):
    n = [0]

    def rnd(q):
        n[0] += 1
        return env.sc("%s%d" % (tag, n[0]), q)
    return rnd


def has_nonneutral_leaf(env, inst):
    """Assume that no left-hand side is neutral."""
    for k in inst.kids:
        has_nonneutral_leaf(env, k)
    if inst.kind == "dl":
        env.assume(inst.lhs != inst.group.infinite())


def tree_paths(resp, path=()):
    """Paths to all numbers in nested lists (tuples are the or-pairs)."""
    out = []
    for i, x in enumerate(resp):
        if isinstance(x, (list, tuple)):
            out.extend(tree_paths(x, path + (i,)))
        else:
            out.append(path + (i,))
    return out


def tree_get(t, path):
    for i in path:
        t = t[i]
    return t


def tree_set(t, path, v):
    """A copy with one entry replaced."""
    if not path:
        return v
    r = [tree_set(x, path[1:], v) if i == path[0] else x for i, x in enumerate(t)]
    return tuple(r) if isinstance(t, tuple) else r


def tree_cut(t, path, extra=None):
    """A copy with one entry removed (extra None) or one appended after it."""
    if len(path) == 1:
        r = list(t)
        if extra is None:
            del r[path[0]]
        else:
            r.insert(path[0] + 1, extra)
    else:
        r = [tree_cut(x, path[1:], extra) if i == path[0] else x for i, x in enumerate(t)]
    return tuple(r) if isinstance(t, tuple) else r


def copy_nizk(env, n, **kw):
    base = env.m("base")
    d = dict(challenge=n.challenge, responses=n.responses, precommitment=n.precommitment, stmt_hash=n.stmt_hash)
    d.update(kw)
    return base.NIZK(**d)


def find_draw(env, k, q):
    """Indices of the secure uniform draws over [0, q) that are k."""
    out = []
    for i, (v, n, how) in enumerate(env.draws()):
        if how == "insecure":
            continue
        if env.known(n == q) and env.known(v == k):
            out.append(i)
        elif env.known(n >= q * env.Bn(2).pow(64)) and env.known(v % q == k):
            out.append(i)
    return out
