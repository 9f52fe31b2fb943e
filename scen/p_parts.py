"""The contract by which a composition knows its parts, for every kind of part (p_unbounded2 has it for compositions and
representations of any size): a part uses the randomizers it is given, answers so that its commitment is recomputed,
compares its responses with those of other parts, and is simulated for the challenge and the responses given."""
from .registry import scenario
from .common import *
from . import shapes as SH

PARTS = [s for s in SH.ALL if s not in SH.OTHER[4:]] + [("p2", 4, "x", 9), ("bbs", 2, True), ("bbs", 4, False),
    ("and", ("p2", 2, "x", 3), ("ne", "x", True), SH.dl("x r_x"))]


def top(node, c, r):
    """The responses that other parts are concerned with: (label, response)."""
    return [(l, x) for a in walk(node, c, r) if a.scope == () for l, x in zip(a.leaf.labels, a.resp)]


@scenario("C10", "C01", "C04", cases=[dict(spec=s) for s in PARTS])
def part_contract(env, spec):
    inst = Inst(env, spec)
    S, d = make_secrets(env, inst, True)
    V, _ = make_secrets(env, inst, False)
    p, v = inst.stmt(S, True), inst.stmt(V)
    pr, ve = p.get_prover(d), v.get_verifier()
    pre = pr.precommit()
    ve.process_precommitment(pre)
    given = {S[l]: env.num("k_%s" % l, 0, 1 << 256) for l in sorted(S)}
    com = pr.internal_commit(dict(given))
    c = env.num("c", 0, 1 << 128)
    r = pr.compute_response(c)
    node = inst.expand(pre)
    env.check(judge(env, node, com, c, r), "the equations and consistency")
    env.check(env.same(com, v.recompute_commitment(c, r)), "the responses recompute the commitment")
    for a in walk(node, c, r):
        q = a.leaf.group.order()
        if a.scope == ():
            for l, x in zip(a.leaf.labels, a.resp):
                if l in S:
                    env.check(x == (given[S[l]] + c * inst.vals[l]) % q, "the randomizer given is used")
    ls = sorted(set(inst.secret_labels()))
    for _ in range(1):
        L = ls[env.choose(len(ls), "secret")]
        o = env.num("o", 0, 1 << 256)
        seen = {V[L]: o}
        ok = env.truth(ve.check_responses_consistency(r, seen))
        cond = env.all([x == o for l, x in top(node, c, r) if l == L])
        agree(env, "responses of other parts", ok, cond)
        if ok:
            for l, x in top(node, c, r):
                if l in V:
                    env.check(seen[V[l]] == x, "the responses are remembered")


@scenario("C08", "C04", "C09", cases=[dict(spec=s) for s in PARTS])
def part_simulation_contract(env, spec):
    inst = Inst(env, spec)
    V, _ = make_secrets(env, inst, False)
    s = inst.stmt(V)
    s.prepare_simulate_proof()
    given = {V[l]: env.num("r_%s" % l, 0, 1 << 256) for l in sorted(set(inst.secret_labels()))}
    c = env.num("c", 0, 1 << 128)
    t = s.simulate_proof(responses_dict=dict(given), challenge=c)
    env.check(t.challenge == c, "the challenge given")
    node = inst.expand(t.precommitment)
    env.check(judge(env, node, t.commitment, c, t.responses, inst.pre_valid(t.precommitment)), "the equations and consistency")
    for l, x in top(node, c, t.responses):
        if l in V:
            env.check(x == given[V[l]], "the responses given are used")
