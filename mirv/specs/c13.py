from specs.common import *
from specs.c02 import consensus_is
from specs.c12 import V, weighted, polls_ok, St, Fn, workers, poll_terms, Q

OPS = "axelar_wasm_std::operators::Operators"
FIELDS = ("poll_id", "quorum", "expires_at", "poll_size", "tallies", "participation")


def end(S):
    st_f = S.modular("axelar_wasm_std::voting::WeightedPoll::state")
    r = S.entry(V, "execute", "EndPoll")
    cf, polls, p = S.old("config"), S.old("polls"), r.args["m_poll_id"]
    o, k, j = polls.get(p), S.any("k", polls.keys), S.any("j", USIZE)
    new = lambda c: c.new("polls")
    may = AND(o.is_some, weighted(o.val)(lambda w: AND(w.status.is_("InProgress"), r.args["height"] >= w.expires_at)))
    S.ensures(r, "ok", "only an open poll past its expiry is ended", lambda c: may)
    S.never(r, "err", "such a poll can be ended by anybody", lambda c: AND(cf.is_some, may))

    def ended(c):
        n = new(c).get(p)
        one = lambda v: IMP(o.val.is_(v), AND(n.val.is_(v), (lambda x, y: AND(y.status.is_("Finished"), *[getattr(x, f) == getattr(y, f) for f in FIELDS]))(
            o.val.as_(v)._0, n.val.as_(v)._0)))
        return AND(n.is_some, one("Messages"), one("ConfirmWorkerSet"))
    S.ensures(r, "ok", "the poll is finished and otherwise as it was", ended)
    S.ensures(r, "ok", "no other poll changes, and nothing else", lambda c: AND(IMP(k != p, new(c).get(k) == polls.get(k)), c.frame("polls")))
    # the result
    rt = S.type("voting_verifier::msg::EndPollResponse")
    pt = S.type("axelar_wasm_std::voting::PollState")
    res = lambda c: ITE(new(c).get(p).val.is_("Messages"), st_f(pt, new(c).get(p).val.as_("Messages")._0), st_f(pt, new(c).get(p).val.as_("ConfirmWorkerSet")._0))
    R = res
    S.ensures(r, "ok", "the reply is the result of the poll", lambda c: c.data == S.some(S.json(S.mk(rt, None, poll_result=R(c)))))
    t = S.type("rewards::msg::ExecuteMsg")
    rec = lambda c, i: S.submsg(S.wasm_exec(cf.val.rewards_contract.inner(), S.mk(t, "RecordParticipation", event_id=S.mk(
        S.type("axelar_wasm_std::nonempty::String"), None, _0=S.uf("show:int", STR, p._0)), worker_address=R(c).consensus_participants.at(i))))
    S.ensures(r, "ok", "every voter that agreed with the result is recorded once with the rewards contract, under the poll's id, and nobody else", lambda c: AND(
        c.msgs.len == R(c).consensus_participants.len, IMP(AND(j >= 0, j < c.msgs.len), c.msgs.at(j) == rec(c, j))))
    S.cover(r, "ok", "a messages poll ends", lambda c: AND(o.val.is_("Messages"), c.msgs.len > 1))
    S.cover(r, "ok", "a worker set poll ends", lambda c: o.val.is_("ConfirmWorkerSet"))


def ops_hash(S):
    f = S.modular(OPS + "::hash")
    return lambda x: f(BYTES, x)


def wstatus(S):
    """the status of a set of operators"""
    h = ops_hash(S)
    r = S.call("voting_verifier::query::worker_set_verification_status", ["deps", "operators"])
    pc, polls, m = S.old("poll_worker_sets"), S.old("polls"), r.args["operators"]
    st, inv = St(S, pc, polls, h), polls_ok(S, polls)
    S.ensures(r, "ok", "a worker set is verified exactly if its poll has a quorum for its success", lambda c: IMP(inv, IFF(c.ret.is_("Verified"), st.confirmed(m))))
    S.ensures(r, "ok", "a worker set is in progress exactly while its poll is open without such a quorum", lambda c: IMP(inv, IFF(
        c.ret.is_("InProgress"), AND(NOT(st.confirmed(m)), st.open(m)))))
    S.never(r, "err", "the status is never refused")
    S.never(r, "panic", "the status of a stored worker set is found", lambda c: AND(inv, st.stored_ok(m)))
    S.cover(r, "ok", "verified", lambda c: c.ret.is_("Verified"))


def by_fn(S):
    return S.modular(Q + "worker_set_verification_status", lambda a, ret: [ret.is_("Ok")], reads=("poll_worker_sets", "polls"), vals=(1,))


def query(S):
    h, f = ops_hash(S), by_fn(S)
    r = S.entry(V, "query", "IsWorkerSetVerified")
    m = r.args["m_new_operators"]
    st, inv = (Fn(S, f), True) if f else (St(S, S.old("poll_worker_sets"), S.old("polls"), h), polls_ok(S, S.old("polls")))
    S.ensures(r, "ok", "the query says whether the worker set is confirmed", lambda c: IMP(inv, AND(c.ret == S.json(S.unjson(c.ret, BOOL)), IFF(S.unjson(c.ret, BOOL), st.confirmed(m)))))
    S.never(r, "err", "the query is never refused")


def start(S):
    h, f = ops_hash(S), by_fn(S)
    r = S.entry(V, "execute", "VerifyWorkerSet")
    cf, pc, polls, cnt, m = S.old("config"), S.old("poll_worker_sets"), S.old("polls"), S.old("poll_id"), r.args["m_new_operators"]
    st, inv = (Fn(S, f), True) if f else (St(S, pc, polls, h), polls_ok(S, polls))
    k, p = S.any("k", pc.keys), S.any("p", polls.keys)
    id_ = lambda c: c.new("poll_id").val
    new = lambda c: c.new("polls").get(id_(c))
    ok, ws = workers(S, cf, cf.val.source_chain)
    T = lambda c: poll_terms(S, r, c, new(c).val.as_("ConfirmWorkerSet")._0, ws, cf, 1, r.args["height"], id_(c))
    S.ensures(r, "ok", "a confirmed worker set is not put to the vote again", lambda c: IMP(inv, NOT(st.confirmed(m))))
    S.ensures(r, "ok", "a poll of one item starts under the next id", lambda c: AND(c.new("poll_id").is_some, id_(c)._0 == ITE(cnt.is_some, cnt.val._0 + 1, 1),
        new(c).is_some, new(c).val.is_("ConfirmWorkerSet"), T(c)["terms"]))
    S.ensures(r, "ok", "its voters are the active workers of the chain, each with weight one", lambda c: AND(ok, T(c)["voters"]))
    S.ensures(r, "ok", "its quorum is the configured share of the workers, rounded up", lambda c: AND(T(c)["quorum"], T(c)["tot"] == ws.len),
              steps=lambda c: [T(c)["tot"] == ws.len, T(c)["quorum"]])
    S.ensures(r, "ok", "the worker set is in the new poll", lambda c: (lambda e: AND(e.is_some, e.val.content == m, e.val.poll_id == id_(c), e.val.index_in_poll == 0))(
        c.new("poll_worker_sets").get(h(m))))
    S.ensures(r, "ok", "no other poll and no other worker set changes", lambda c: AND(IMP(p != id_(c), c.new("polls").get(p) == polls.get(p)),
        IMP(k != h(m), c.new("poll_worker_sets").get(k) == pc.get(k)), c.frame("polls", "poll_id", "poll_worker_sets"), c.msgs.len == 0))
    S.cover(r, "ok", "a poll starts")


def kinds(S):
    """messages of the other kinds neither end a poll nor change a worker set's place"""
    S.entry(V, "execute", "VerifyWorkerSet")
    polls = S.old("polls")
    p = S.any("p", polls.keys)
    stat = lambda x: weighted(x)(lambda w: w.status.is_("Finished"))
    S.others(V, ["VerifyWorkerSet"], "poll_worker_sets", "config")
    for v in ("VerifyMessages", "Vote", "VerifyWorkerSet"):
        r = S.entry(V, "execute", v)
        S.ensures(r, "ok", "a poll is ended by no other message", lambda c: IMP(AND(polls.get(p).is_some, OR(z3.BoolVal(v == "Vote"), p != c.new("poll_id").val)), (
            lambda n: AND(n.is_some, IFF(stat(n.val), stat(polls.get(p).val))))(c.new("polls").get(p))))
    S.others(V, ["VerifyWorkerSet", "VerifyMessages", "Vote", "EndPoll"], "polls")


PARTS = [end, wstatus, query, start, kinds]
