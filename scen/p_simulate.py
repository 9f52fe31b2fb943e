"""C08: simulated transcripts."""
from .registry import scenario
from .model import *
from .common import *
from . import shapes as SH

FALSE = [SH.bad("x"), SH.bad("x y x"), ("and", SH.dl("x"), SH.bad("x y")), ("or", SH.bad("x"), SH.bad("y")),
         ("or", ("and", SH.bad("x"), SH.dl("y")), SH.bad("z")), ("ne!", "x", True), ("ne!", "x", False),
         ("and", ("ne!", "x", True), SH.bad("x")), ("ext", SH.bad("x")), ("dl#g1!", "x"), ("dl#gt!", "x y"),
         ("or", ("or", SH.bad("x"), SH.bad("y")), ("and", SH.bad("z"), SH.bad("w"))),
         ("and", ("or", SH.bad("x"), ("ne!", "y", False)), ("or", SH.bad("u"), SH.bad("v")))]
SIM = SH.ALL + FALSE


def expand_of(inst, pre):
    return inst.expand(pre)


def check_transcript(env, inst, stmt, other, t, c, drawn):
    """What a simulated transcript has to be.  drawn: number of draws before it was made."""
    node = inst.expand(t.precommitment)
    if c is not None:
        env.check(t.challenge == c, "the challenge is the one prescribed")
    else:
        i = find_draw(env, t.challenge, env.Bn(2).pow(128))
        env.check(any(k >= drawn for k in i), "the challenge is a fresh 128-bit number")
    env.check(judge(env, node, t.commitment, t.challenge, t.responses, inst.pre_valid(t.precommitment)),
              "the transcript satisfies the verification equation and the consistency checks")
    return node


def check_randomness(env, node, t, drawn, given):
    """All responses and subchallenges are fresh uniform numbers."""
    used = {}
    for key, rs in scope_groups(walk(node, t.challenge, t.responses)).items():
        q = [a for a in walk(node, t.challenge, t.responses) if a.scope == key[0] and key[1] in a.leaf.labels][0].leaf.group.order()
        ks = [k for k in find_draw(env, rs[0], q) if k >= drawn]
        env.check(bool(ks), "every response is a fresh uniform number", key)
        env.check(not any(k in used for k in ks), "used for one secret only", key)
        for k in ks:
            used[k] = key
        env.check(env.all([env.all([r >= 0, r < q]) for r in rs]), "responses are reduced")
    M = env.Bn(2).pow(128)
    for n, ch, subs, path in ors(node, t.challenge, t.responses):
        free = 0
        for s in subs:
            ks = [k for k in find_draw(env, s, M) if k >= drawn and k not in used]
            if ks:
                free += 1
                used[ks[0]] = path
        env.check(free >= len(subs) - 1, "subchallenges are fresh uniform numbers, but for the residual one", path)


@scenario("C08", "C09", "C21", cases=[dict(spec=s, how=h, given=g) for s in SIM + SH.BIG[10:] for h in ("unknown", "known")
                                     for g in (True, False) if not (h == "known" and g)], con=[dict(spec=s, how="unknown", given=True)
                                                                for s in SH.BIG], seeds=2)
def simulation(env, spec, how, given):
    inst = Inst(env, spec)
    S, _ = make_secrets(env, inst, how == "known")
    s = inst.stmt(S, how == "known")
    V, _ = make_secrets(env, inst, False)
    o = inst.stmt(V)
    c = env.num("c", 0, 1 << 128) if given else None
    drawn = len(env.draws())
    t = s.simulate(challenge=c) if given else s.simulate()
    node = check_transcript(env, inst, s, o, t, c, drawn)
    check_randomness(env, node, t, drawn, given)
    env.check(env.same(t.stmt_hash, s.prehash_statement().digest()), "the transcript carries the identity of the statement")
    env.check_accept("consistent for the statement", s.verify_simulation_consistency, t)
    env.check_accept("consistent for the verifier's statement", o.verify_simulation_consistency, t)
    env.check(env.same(t.stmt_hash, o.prehash_statement().digest()), "the identity is that of the verifier's statement")
    n = env.m("base").NIZK(challenge=t.challenge, responses=t.responses, precommitment=t.precommitment,
                           stmt_hash=t.stmt_hash)
    V, _ = make_secrets(env, inst, False)
    env.check_reject("a simulation is no proof", inst.stmt(V).verify, n)
    env.check_reject("a simulation is no proof with a message", inst.stmt(V).verify, n, message="m")
    env.check_reject("nor for the statement that made it", s.verify, n)


@scenario("C08", "C09", cases=[dict(spec=s) for s in SH.SOME + FALSE[:3] + [FALSE[5]]], seeds=2)
def simulations_are_independent(env, spec):
    """Two simulations, also with the same challenge, share nothing."""
    inst, s = verifier_side(env, spec)
    c = env.num("c", 0, 1 << 128)
    t1 = s.simulate(challenge=c)
    drawn = len(env.draws())
    t2 = s.simulate(challenge=c)
    node = inst.expand(t2.precommitment)
    check_randomness(env, node, t2, drawn, True)
    if env.flat(t1.precommitment):
        env.check(env.not_(env.same(t1.precommitment, t2.precommitment)), "another precommitment")
    env.check(env.not_(env.same(t1.commitment, t2.commitment)), "another commitment")


def matching(rows):
    """Size of a maximal assignment of columns to rows."""
    owner = {}

    def go(i, seen):
        for j in rows[i]:
            if j not in seen:
                seen.add(j)
                if j not in owner or go(owner[j], seen):
                    owner[j] = i
                    return True
        return False
    return sum(1 for i in range(len(rows)) if go(i, set()))


def pre_rank(inst):
    """Number of independent uniform components of an honest precommitment."""
    if inst.kind in ("and", "or"):
        return sum(pre_rank(k) for k in inst.kids)
    return {"ne": 1, "bbs": 2, "ext": 1, "p2": getattr(inst, "n", 0), "range": 2 * getattr(inst, "nbits", 0)}.get(inst.kind, 0)


JOINT = [SH.NE[0], SH.NE[3], SH.NE[6], SH.P2[2], SH.P2[4], SH.RANGE[2], SH.RANGE[4], SH.RANGE[6], SH.BBS[0], SH.BBS[1], SH.BBS[2], SH.BBS[3], SH.BBS[4],
         SH.EXT[3], FALSE[5], FALSE[6], FALSE[7], SH.PLAIN[7], SH.PLAIN[19], ("and", ("bbs", 1, True), ("bbs", 2, False)),
         ("or", ("bbs", 1, True), ("bbs", 1, True)), ("or", ("p2", 2, "x", 1), ("p2", 2, "y", 1))]


@scenario("C08", "C09", "C16", "C14", "C12", cases=[dict(spec=s) for s in JOINT], seeds=1)
def components_are_independent(env, spec):
    """As many components of a simulated transcript as of an honest one vary independently: each depends on
    a draw of its own.  (Which draws a component depends on is found by replaying with one draw changed.)"""
    inst, s = verifier_side(env, spec)
    c = env.num("c", 0, 1 << 128)
    i0 = len(env.draws())
    t = s.simulate(challenge=c)
    ds = env.draws()[i0:]

    def parts(t):
        node = inst.expand(t.precommitment)
        resp = [rs[0] for rs in scope_groups(walk(node, t.challenge, t.responses)).values()]
        subs = [x for _, _, ss, _ in ors(node, t.challenge, t.responses) for x in ss[:-1]]
        return env.flat(t.precommitment), resp, subs
    a = parts(t)
    names = [(k, i) for k in range(3) for i in range(len(a[k]))]
    rows = [set() for _ in names]
    for i, (v, b, how) in enumerate(ds):
        env.check(how != "insecure", "drawn from secure randomness")
        other = [x for x, _, _ in ds]
        other[i] = (v + 1) % b
        env.force_draw(*other)
        V, _ = make_secrets(env, inst, False)
        t2 = inst.stmt(V).simulate(challenge=c)
        a2 = parts(t2)
        env.check([len(x) for x in a2] == [len(x) for x in a], "a transcript of the same form")
        for r, (k, j) in zip(rows, names):
            # draws from a small range do not hide anything
            if env.known(b >= env.Bn(2).pow(128 if k == 2 else 180)) and not env.known(env.same(a[k][j], a2[k][j])):
                r.add(i)
    want = pre_rank(inst) + len(a[1]) + len(a[2])
    env.check(matching(rows) >= want, "as many components are independent as in an honest transcript", (want, rows))


@scenario("C08", cases=[dict(spec=s, c=c) for s in SH.SOME for c in (0, 1, (1 << 128) - 1)], seeds=1)
def edge_challenges(env, spec, c):
    inst, s = verifier_side(env, spec)
    t = s.simulate(challenge=env.bn(c))
    check_transcript(env, inst, s, s, t, env.bn(c), 0)
    env.check_accept("consistent", s.verify_simulation_consistency, t)


@scenario("C08", "C03", cases=[dict(spec=s, part=p) for s in SH.SOME for p in ("com", "chal", "resp", "hash", "pre")
                                 if p != "pre" or Inst.has_pre(s)], seeds=2)
def inconsistent_simulations(env, spec, part):
    """The consistency check agrees with the specification for changed transcripts."""
    inst, s = verifier_side(env, spec)
    t = s.simulate()
    node = inst.expand(t.precommitment)
    pv = inst.pre_valid(t.precommitment)
    delta = env.sc("delta", env.group().order())
    if part == "com":
        paths = tree_paths(t.commitment) if isinstance(t.commitment, list) else [()]
        at = paths[env.choose(len(paths), "place")]
        old = tree_get(t.commitment, at)
        t.commitment = tree_set(t.commitment, at, old + delta * env.gens(1, old.group, "delta")[0])
    elif part == "chal":
        t.challenge = (t.challenge + env.num("dc", 0, 1 << 128)) % env.Bn(2).pow(128)
    elif part == "resp":
        paths = tree_paths(t.responses)
        at = paths[env.choose(len(paths), "place")]
        t.responses = tree_set(t.responses, at, tree_get(t.responses, at) + delta)
    elif part == "hash":
        t.stmt_hash = [None, b"", t.stmt_hash[:-1], b"\0" * 32][env.choose(4, "hash")]
        env.check_reject("another identity is refused", s.verify_simulation_consistency, t)
        return
    else:
        if t.precommitment is None:
            return
        from .p_sound import change_pre
        t.precommitment = change_pre(env, t.precommitment)
        env.check_reject("another precommitment is refused", s.verify_simulation_consistency, t)
        return
    ok = env.accepts(s.verify_simulation_consistency, t)
    agree(env, "changed " + part, ok, judge(env, node, t.commitment, t.challenge, t.responses, pv))


@scenario("C08", cases=[dict(spec=s) for s in [SH.dl("x y x"), SH.PLAIN[5], ("and", SH.dl("x"), ("ext", SH.dl("x")))]])
def prescribed_responses(env, spec):
    """simulate_proof uses the responses given to it and draws the others."""
    inst, s = verifier_side(env, spec)
    s.prepare_simulate_proof()
    secs = []
    for x in s.get_secret_vars():
        if not any(x is y for y in secs):
            secs.append(x)
    given = {secs[0]: env.sc("r0", inst.q)}
    c = env.num("c", 0, 1 << 128)
    t = s.simulate_proof(responses_dict=dict(given), challenge=c)
    env.check(t.challenge == c, "the challenge is the one prescribed")
    node = inst.expand(t.precommitment)
    env.check(judge(env, node, t.commitment, c, t.responses), "the transcript satisfies the verification equation")
    flat = env.flat(t.responses)
    for x, r in zip(s.get_secret_vars(), flat):
        if x is secs[0]:
            env.check(r == given[secs[0]], "the response given is used")
        else:
            env.check(bool(find_draw(env, r, inst.q)), "the others are drawn")
