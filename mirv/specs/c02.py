from specs.common import *

P = "axelar_wasm_std::voting::WeightedPoll::"


def consensus_is(S, tallies, quorum, res):
    """res is the vote with at least quorum, if any"""
    k = S.any("k", STR)
    g = lambda n: tallies._0.get(S.str(n))
    return AND(IMP(res.is_some, AND([IMP(res.val.is_(n), AND(g(n).is_some, g(n).val >= quorum)) for n in VOTES])),
               IMP(res.is_none, AND([IMP(g(n).is_some, g(n).val < quorum) for n in VOTES])))


def keys_ok(S, t):
    """a tally has exactly the three votes as keys"""
    k = S.any("kk", STR)
    return forall(k, t._0.get(k).is_some == OR([k == n for n in VOTES]))


def spec(S):
    # new
    r = S.call(P + "new", ["poll_id", "snapshot", "expiry", "size"])
    i, k, a = S.any("i", USIZE), S.any("k", STR), S.any("a", STR)
    S.ensures(r, "ret", "a new poll is open, with the given terms", lambda c: AND(
        c.ret.poll_id == c.poll_id, c.ret.quorum == c.snapshot.quorum, c.ret.expires_at == c.expiry, c.ret.poll_size == c.size,
        c.ret.tallies.len == c.size, c.ret.status.is_("InProgress")))
    S.ensures(r, "ret", "a new poll has zero tallies for every vote", lambda c: IMP(AND(i >= 0, i < c.size), AND(
        c.ret.tallies.at(i)._0.get(k).is_some == OR([k == n for n in VOTES]),
        IMP(c.ret.tallies.at(i)._0.get(k).is_some, c.ret.tallies.at(i)._0.get(k).val == 0))))

    def parts(c):
        o, n = c.snapshot.participants.get(a), c.ret.participation.get(a)
        return AND(o.is_some == n.is_some, IMP(n.is_some, AND(n.val.vote.is_none, n.val.weight == o.val.weight)))
    S.ensures(r, "ret", "the voters of a new poll are the snapshot's participants, none of whom voted", parts)
    S.never(r, "panic", "no panic")
    S.cover(r, "ret", "reachable")

    # finish
    r = S.call(P + "finish", ["self", "height"])
    p = r.args["self"]
    can = AND(p.status.is_("InProgress"), r.args["height"] >= p.expires_at)
    S.ensures(r, "ok", "a poll finishes only while open and once expired", lambda c: can)
    S.ensures(r, "err", "an expired open poll can be finished", lambda c: NOT(can))
    S.ensures(r, "ok", "finishing changes nothing but the status", lambda c: AND(
        c.ret.status.is_("Finished"), *[getattr(c.ret, n) == getattr(p, n) for n in
                                        ("poll_id", "quorum", "expires_at", "poll_size", "tallies", "participation")]))
    S.cover(r, "ok", "reachable")

    # consensus of one item
    r = S.call("axelar_wasm_std::voting::Tallies::consensus", ["self", "quorum"], pre=lambda a: [keys_ok(S, a["self"])])
    S.ensures(r, "ret", "the result of an item is a vote holding at least the quorum, and is absent only if no vote does",
              lambda c: consensus_is(S, c.args["self"], c.quorum, c.ret))
    S.cover(r, "ret", "some result", lambda c: c.ret.is_some)
    S.cover(r, "ret", "no result", lambda c: c.ret.is_none)
    S.never(r, "panic", "no panic")

    r = S.call(P + "consensus", ["self", "idx"],
               pre=lambda a: [IMP(a["idx"] < a["self"].tallies.len, keys_ok(S, a["self"].tallies.at(a["idx"])))])
    S.ensures(r, "ok", "consensus of item", lambda c: AND(c.idx < c.args["self"].tallies.len,
              consensus_is(S, c.args["self"].tallies.at(c.idx), c.args["self"].quorum._0, c.ret)))
    S.ensures(r, "err", "only an index out of range is refused", lambda c: c.idx >= c.args["self"].tallies.len)
    S.cover(r, "ok", "reachable")

    # state
    r = S.call(P + "state", ["self"], pre=lambda a: [forall_t(S, a["self"])])
    p = r.args["self"]
    S.ensures(r, "ret", "one result per item", lambda c: AND(c.ret.poll_id == p.poll_id, c.ret.results.len == p.tallies.len))
    S.ensures(r, "ret", "each result is the consensus of its item", lambda c: IMP(
        AND(i >= 0, i < p.tallies.len), consensus_is(S, p.tallies.at(i), p.quorum._0, c.ret.results.at(i))))

    def agreed(c):
        o = p.participation.get(a)
        j = S.any("j", USIZE)
        v = o.val.vote.val
        n = z3.If((v.len < c.ret.results.len), v.len.t, c.ret.results.len.t)
        return AND(o.is_some, o.val.vote.is_some,
                   forall(j, IMP(AND(j >= 0, j < n), OR(c.ret.results.at(j).is_none, c.ret.results.at(j).val == v.at(j)))))
    listed = lambda c, j: AND(j >= 0, j < c.ret.consensus_participants.len, c.ret.consensus_participants.at(j) == a)
    j = S.any("j", USIZE)
    S.ensures(r, "ret", "a consensus participant voted with every result", lambda c: IMP(listed(c, j), agreed(c)))
    S.ensures(r, "ret", "everyone who voted with every result is a consensus participant", lambda c: IMP(agreed(c), exists(j, listed(c, j))))
    j2 = S.any("j", USIZE)
    S.ensures(r, "ret", "no participant is listed twice", lambda c: IMP(AND(listed(c, j), listed(c, j2)), j == j2.t))
    S.never(r, "panic", "no panic")
    S.cover(r, "ret", "someone voted with the results", lambda c: c.ret.consensus_participants.len > 0)

    # with a quorum above half of the weight, two votes cannot both have it, and once reached no further vote takes it away
    x, y, z, w, q, d = [S.any(n, ("int", "Uint256")).t for n in "xyzwqd"]
    hyp = [x + y + z <= w, 2 * q > w]
    S.lemma("at most one vote holds a majority quorum", z3.And(z3.Not(z3.And(x >= q, y >= q)), z3.Not(z3.And(x >= q, z >= q)),
                                                              z3.Not(z3.And(y >= q, z >= q))), hyp)
    S.lemma("a reached quorum stays reached when weight is added", z3.Implies(x >= q, x + d >= q))


def forall_t(S, p):
    i = S.any("ti", USIZE)
    return forall(i, IMP(AND(i >= 0, i < p.tallies.len), keys_ok(S, p.tallies.at(i))))
