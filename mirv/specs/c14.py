from specs.common import *

R = "rewards"


def epoch(S):
    """(number, first block) of the epoch of the current block under the stored parameters; valid for heights >= the last update"""
    p = S.old("params").val
    lu, d = p.last_updated, p.params.epoch_duration.inner()
    return lu.epoch_num, lu.block_height_started, d


def elapsed(h, s, d):
    return (h - s) // d


def record(S):
    r = S.entry(R, "execute", "RecordParticipation")
    ta, ev, pr = S.old("tallies"), S.old("events"), S.old("params").val
    id_, w, me, h = r.args["m_event_id"].inner(), r.args["m_worker_address"], r.args["sender"], r.args["height"]
    num, st, d = epoch(S)
    cur = num + elapsed(h, st, d)
    e = ev.get(id_, me)
    ep = ITE(e.is_some, e.val.epoch_num, cur)
    # the event is a new one of this contract, or was first seen in epoch ep
    t = ta.get(me, ep)
    own = AND(IMP(t.is_some, AND(t.val.contract == me, t.val.epoch.epoch_num == ep)), IMP(e.is_some, t.is_some))
    S.ensures(r, "ok", "an event is counted in the contract that reported it, in the epoch in which it was first reported", lambda c: (lambda n: AND(
        n.is_some, n.val.epoch_num == ep, IMP(e.is_some, n == e), IMP(e.is_none, AND(n.val.event_id.inner() == id_, n.val.contract == me))))(c.new("events").get(id_, me)))
    n = lambda c: c.new("tallies").get(me, ep)
    S.ensures(r, "ok", "an epoch's event count grows by one with the first report of an event and only then", lambda c: IMP(own, AND(
        n(c).is_some, n(c).val.event_count == ITE(t.is_some, t.val.event_count, 0) + ITE(e.is_some, 0, 1))))
    was = lambda k: AND(t.is_some, t.val.participation.get(k).is_some)
    wk = w.t
    S.ensures(r, "ok", "the participation of the reported worker, and of nobody else, grows by one", lambda c: IMP(own, AND(
        n(c).val.participation.get(w).is_some, n(c).val.participation.get(w).val == ITE(was(w), t.val.participation.get(w).val, 0) + 1)))
    k = S.any("k", STR)
    S.ensures(r, "ok", "nobody else's participation changes", lambda c: IMP(AND(own, NOT(k == w)), ITE(
        t.is_some, n(c).val.participation.get(k) == t.val.participation.get(k), n(c).val.participation.get(k).is_none)))
    S.ensures(r, "ok", "a tally keeps the parameters and the epoch it began with", lambda c: IMP(own, AND(
        n(c).val.contract == me, IMP(t.is_some, AND(n(c).val.params == t.val.params, n(c).val.epoch == t.val.epoch)),
        IMP(t.is_none, AND(n(c).val.params == pr.params, n(c).val.epoch.epoch_num == cur, n(c).val.epoch.block_height_started == st + elapsed(h, st, d) * d)))))
    q = S.any("q", ta.keys)
    S.ensures(r, "ok", "no other tally changes", lambda c: IMP(AND(own, NOT(AND(q._0 == me, q._1 == ep))), c.new("tallies").get(q) == ta.get(q)))
    v = S.any("v", ev.keys)
    S.ensures(r, "ok", "no other event changes", lambda c: IMP(NOT(AND(v._0 == id_, v._1 == me)), c.new("events").get(v) == ev.get(v)))
    S.ensures(r, "ok", "recording participation touches nothing else and sends nothing", lambda c: AND(c.frame("tallies", "events"), c.msgs.len == 0))
    S.never(r, "err", "participation is not refused", lambda c: AND(S.uf("valid_addr", BOOL, w), h >= st))
    S.cover(r, "ok", "a new event", lambda c: AND(own, e.is_none))
    S.cover(r, "ok", "a known event", lambda c: AND(own, e.is_some))


def params(S):
    r = S.entry(R, "execute", "UpdateParams")
    num, st, d = epoch(S)
    h, p, cf = r.args["height"], r.args["m_params"], S.old("config")
    k = elapsed(h, st, d)
    cur, start = num + k, st + k * d
    nd = p.epoch_duration.inner()
    S.ensures(r, "ok", "only governance changes the parameters", lambda c: AND(cf.is_some, cf.val.governance == c.sender))
    S.never(r, "err", "governance may change the parameters", lambda c: AND(cf.val.governance == c.sender, h >= st))
    new = lambda c: c.new("params").val
    S.ensures(r, "ok", "the parameters become the given ones", lambda c: AND(c.new("params").is_some, new(c).params == p))
    ends = start + nd < h
    S.ensures(r, "ok", "the current epoch goes on under the new duration, unless that would already have ended it: then the next epoch starts now", lambda c: AND(
        IMP(ends, AND(new(c).last_updated.epoch_num == cur + 1, new(c).last_updated.block_height_started == h)),
        IMP(NOT(ends), AND(new(c).last_updated.epoch_num == cur, new(c).last_updated.block_height_started == start))))
    S.ensures(r, "ok", "no past event changes epoch: the epoch number of the current block is the same as before or the next", lambda c: (
        lambda ne: IMP(nd > 0, AND(ne >= cur, ne <= cur + 1)))(new(c).last_updated.epoch_num + elapsed(h, new(c).last_updated.block_height_started, nd)),
        steps=lambda c: [k >= 0, start <= h, h - start < d])
    S.ensures(r, "ok", "nothing else changes, nothing is sent", lambda c: AND(c.frame("params"), c.msgs.len == 0))
    S.cover(r, "ok", "the epoch ends", lambda c: ends)
    S.cover(r, "ok", "the epoch goes on", lambda c: NOT(ends))
    S.cover(r, "err", "refused")


def epochs(S):
    """epoch numbers never decrease with the height, and change exactly every `duration` blocks"""
    a, b, s, d, n = [S.any(x, U64) for x in ("ha", "hb", "s", "d", "n")]
    hyps = [d > 0, s <= a, a <= b]
    S.lemma("the epoch number never decreases with the height", (a - s) // d <= (b - s) // d, hyps)
    S.lemma("an epoch lasts exactly its duration", IMP(AND(n >= 0), IFF((a - s) // d == n, AND(a >= s + n * d, a < s + (n + 1) * d))), hyps)
    S.begin()
    r = S.entry(R, "instantiate")
    S.entry(R, "execute", "UpdateParams")
    S.ensures(r, "ok", "the first epoch is epoch 0 and starts at the block of the instantiation", lambda c: (lambda p: AND(
        p.last_updated.epoch_num == 0, p.last_updated.block_height_started == c.height, p.params == c.m_params))(c.new("params").val))
    S.ensures(r, "ok", "governance and the denomination are as given", lambda c: (lambda p: AND(
        p.governance == c.m_governance_address, p.rewards_denom == c.m_rewards_denom))(c.new("config").val))


def kinds(S):
    S.entry(R, "execute", "RecordParticipation")
    S.entry(R, "execute", "UpdateParams")
    S.others(R, ["RecordParticipation"], "tallies", "events")
    S.others(R, ["UpdateParams"], "params", "config")


PARTS = [record, params, epochs, kinds]
