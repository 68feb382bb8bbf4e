from specs.common import *

P = "axelar_wasm_std::voting::WeightedPoll::"


def wf(a):
    return [a["self"].tallies.len == a["self"].poll_size]


def spec(S):
    r = S.call(P + "cast_vote", ["self", "height", "sender", "votes"], pre=wf)
    p = r.args["self"]
    me = p.participation.get(r.args["sender"])
    votes, h = r.args["votes"], r.args["height"]
    can = AND(me.is_some, h < p.expires_at, votes.len == p.poll_size, me.val.vote.is_none)
    S.ensures(r, "ok", "only an eligible voter is accepted", lambda c: can)
    S.ensures(r, "err", "an eligible voter is not refused", lambda c: NOT(can))
    i, k, a = S.any("i", USIZE), S.any("k", STR), S.any("a", STR)

    def tally(c):
        o, n = p.tallies.at(i)._0, c.ret.tallies.at(i)._0
        w = me.val.weight._0
        mine = k == vote_name(S, votes.at(i))
        return IMP(AND(i >= 0, i < p.poll_size),
                   AND(n.get(k).is_some == o.get(k).is_some,
                       IMP(o.get(k).is_some, n.get(k).val.t == ITE(mine, o.get(k).val + w, o.get(k).val))))
    S.ensures(r, "ok", "the voter's weight is added exactly once, to the tally of its vote on each item", tally)
    S.ensures(r, "ok", "tallies keep their size", lambda c: c.ret.tallies.len == p.tallies.len)

    def part(c):
        n, o = c.ret.participation.get(a), p.participation.get(a)
        mine = S.mk(o.val.ty, None, weight=me.val.weight, vote=S.some(votes))
        return ITE(a == r.args["sender"], n == S.some(mine), n == o)
    S.ensures(r, "ok", "the vote is recorded and nobody else's record changes", part)
    S.ensures(r, "ok", "the poll's terms do not change",
              lambda c: AND(c.ret.poll_id == p.poll_id, c.ret.quorum == p.quorum, c.ret.expires_at == p.expires_at,
                            c.ret.poll_size == p.poll_size, c.ret.status == p.status))
    S.cover(r, "ok", "some vote is accepted")
    S.cover(r, "err", "some vote is refused")
