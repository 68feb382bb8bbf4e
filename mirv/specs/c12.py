from specs.common import *
from specs.c02 import keys_ok

V = "voting_verifier"
MSG = "connection_router::state::Message"


def weighted(p):
    """the poll proper, of either kind"""
    return lambda f: ITE(p.is_("Messages"), f(p.as_("Messages")._0), f(p.as_("ConfirmWorkerSet")._0))


def polls_ok(S, polls):
    """what C01-C03 establish of every stored poll: one tally per item, each with the three votes, and at most one vote with a quorum"""
    p, i = S.any("p", polls.keys), S.any("pi", USIZE)

    def one(w):
        g = lambda n: w.tallies.at(i)._0.get(S.str(n)).val
        two = lambda a, b: NOT(AND(g(a) >= w.quorum._0, g(b) >= w.quorum._0))
        return AND(w.tallies.len == w.poll_size, forall(i, IMP(AND(i >= 0, i < w.tallies.len), AND(
            keys_ok(S, w.tallies.at(i)), two(VOTES[0], VOTES[1]), two(VOTES[0], VOTES[2]), two(VOTES[1], VOTES[2])))))
    return forall(p, IMP(polls.get(p).is_some, AND(
        IMP(polls.get(p).val.is_("Messages"), one(polls.get(p).val.as_("Messages")._0)),
        IMP(polls.get(p).val.is_("ConfirmWorkerSet"), one(polls.get(p).val.as_("ConfirmWorkerSet")._0)))))


class St:
    """the verification status of a content, from the stored polls"""
    def __init__(self, S, pc, polls, h):
        self.S, self.pc, self.polls, self.h = S, pc, polls, h

    def entry(self, x):
        return self.pc.get(self.h(x))

    def polled(self, x):
        return self.entry(x).is_some

    def poll(self, x):
        return self.polls.get(self.entry(x).val.poll_id).val

    def confirmed(self, x):
        return AND(self.polled(x), weighted(self.poll(x))(
            lambda w: w.tallies.at(self.entry(x).val.index_in_poll)._0.get(self.S.str(VOTES[0])).val >= w.quorum._0))

    def open(self, x):
        return AND(self.polled(x), weighted(self.poll(x))(lambda w: w.status.is_("InProgress")))

    def needs(self, x):
        """not in a poll, or in a poll that ended without confirming it"""
        return AND(NOT(self.confirmed(x)), NOT(self.open(x)))

    def stored_ok(self, x):
        e = self.entry(x).val
        return IMP(self.polled(x), AND(e.content == x, self.polls.get(e.poll_id).is_some,
                                       weighted(self.poll(x))(lambda w: AND(e.index_in_poll >= 0, e.index_in_poll < w.poll_size))))


def msg_hash(S):
    f = S.modular(MSG + "::hash")
    return lambda m: f(BYTES, m)


def workers(S, cf, chain):
    """the service registry's answer about the active workers of the chain"""
    q = S.mk(S.type("service_registry::msg::QueryMsg"), "GetActiveWorkers", service_name=cf.val.service_name._0, chain_name=chain)
    return S.query(cf.val.service_registry_contract.inner(), q, VEC(S.type("service_registry::state::Worker")))


def poll_terms(S, r, c, w, ws, cf, size, height, id_):
    """the terms of a new poll"""
    a, i = S.any("voter", STR), S.any("wi", USIZE)
    n, d = cf.val.voting_threshold.numerator._0, cf.val.voting_threshold.denominator._0
    q = w.quorum._0
    tot = S.psum(ws, lambda x: X(S, z3.IntVal(1), MATH))
    return dict(
        terms=AND(w.poll_id == id_, w.expires_at == height + cf.val.block_expiry, w.poll_size == size, w.status.is_("InProgress"),
                  w.tallies.len == size),
        voters=AND(IMP(w.participation.get(a).is_some, AND(w.participation.get(a).val.vote.is_none, w.participation.get(a).val.weight._0 == 1,
                                                           exists(i, AND(i >= 0, i < ws.len, ws.at(i).address.inner() == a)))),
                   IMP(AND(i >= 0, i < ws.len), AND(ws.at(i).bonding_state.is_("Bonded"), w.participation.get(ws.at(i).address.inner()).is_some))),
        tot=tot, quorum=AND(q * d >= tot * n, (q - 1) * d < tot * n))


Q = "voting_verifier::query::"


def status(S):
    """the status functions themselves"""
    h = msg_hash(S)
    r = S.call(Q + "msg_verification_status", ["deps", "message"])
    pm, polls, m = S.old("poll_messages"), S.old("polls"), r.args["message"]
    st, inv = St(S, pm, polls, h), polls_ok(S, S.old("polls"))
    S.ensures(r, "ok", "a message is verified exactly if its poll has a quorum for its success", lambda c: IMP(inv, IFF(c.ret.is_("Verified"), st.confirmed(m))))
    S.ensures(r, "ok", "a message is in progress exactly while its poll is open without such a quorum", lambda c: IMP(inv, IFF(
        c.ret.is_("InProgress"), AND(NOT(st.confirmed(m)), st.open(m)))))
    S.ensures(r, "ok", "a message is not verified if it never was in a poll, and failed if its poll ended without the quorum", lambda c: IMP(inv, AND(
        IFF(c.ret.is_("NotVerified"), NOT(st.polled(m))), IFF(c.ret.is_("FailedToVerify"), AND(st.polled(m), NOT(st.confirmed(m)), NOT(st.open(m)))))))
    S.never(r, "err", "the status is never refused")
    S.never(r, "panic", "the status of a stored message is found", lambda c: AND(inv, st.stored_ok(m)))
    for v in ("Verified", "InProgress", "FailedToVerify", "NotVerified"):
        S.cover(r, "ok", v, lambda c: c.ret.is_(v))


class Fn:
    """the status as given by the status function, whose contract is proved on its own (part status)"""
    def __init__(self, S, f):
        ty = ("adt", "Result", (S.type(Q + "VerificationStatus"), S.type("voting_verifier::error::ContractError")))
        self.f = lambda m: f(ty, m).as_("Ok")._0

    def confirmed(self, m):
        return self.f(m).is_("Verified")

    def needs(self, m):
        return OR(self.f(m).is_("FailedToVerify"), self.f(m).is_("NotVerified"))


def verify(S):
    h = msg_hash(S)
    f = S.modular(Q + "msg_verification_status", lambda a, ret: [ret.is_("Ok")], reads=("poll_messages", "polls"), vals=(1,))
    r = S.entry(V, "execute", "VerifyMessages")
    cf, pm, polls, cnt, ms = S.old("config"), S.old("poll_messages"), S.old("polls"), S.old("poll_id"), r.args["m_messages"]
    st = Fn(S, f) if f else St(S, pm, polls, h)
    i, i2, j, k, p = S.any("i", USIZE), S.any("i2", USIZE), S.any("j", USIZE), S.any("k", pm.keys), S.any("p", polls.keys)
    inm = lambda x: AND(x >= 0, x < ms.len)
    inv = True if f else polls_ok(S, polls)
    resp = S.type("voting_verifier::msg::VerifyMessagesResponse")
    need = S.psum(ms, lambda m: X(S, ITE(st.needs(m), 1, 0), MATH))
    some = need > 0
    id_ = lambda c: c.new("poll_id").val
    S.ensures(r, "ok", "only messages of the verifier's chain are accepted, and at least one", lambda c: AND(
        ms.len > 0, IMP(inm(i), ms.at(i).cc_id.chain == cf.val.source_chain)))
    S.ensures(r, "ok", "the reply says of every message whether it is confirmed", lambda c: (lambda a: AND(
        a.len == ms.len, IMP(AND(inv, inm(i)), AND(a.at(i)._0 == ms.at(i).cc_id, IFF(a.at(i)._1, st.confirmed(ms.at(i)))))))(
        S.unjson(c.data.val, resp).verification_statuses))
    new = lambda c: c.new("polls").get(id_(c))
    started = lambda c: c.new("poll_id") != cnt
    S.ensures(r, "ok", "a poll is started exactly when some message needs one", lambda c: IMP(inv, IFF(started(c), exists(i, AND(inm(i), st.needs(ms.at(i)))))))
    S.ensures(r, "ok", "without a new poll nothing changes", lambda c: IMP(NOT(started(c)), c.frame()))
    S.ensures(r, "ok", "the new poll's id is the next one", lambda c: IMP(started(c), AND(
        c.new("poll_id").is_some, id_(c)._0 == ITE(cnt.is_some, cnt.val._0 + 1, 1))))
    S.ensures(r, "ok", "other polls do not change", lambda c: IMP(OR(NOT(started(c)), p != id_(c)), c.new("polls").get(p) == polls.get(p)))
    ok, ws = workers(S, cf, cf.val.source_chain)
    T = lambda c: poll_terms(S, r, c, new(c).val.as_("Messages")._0, ws, cf, need, r.args["height"], id_(c))
    S.ensures(r, "ok", "the new poll is open, has one item per message that needs it, and expires as configured", lambda c: IMP(
        AND(inv, started(c)), AND(new(c).is_some, new(c).val.is_("Messages"), T(c)["terms"])))
    S.ensures(r, "ok", "its voters are the active workers of the chain, each with weight one", lambda c: IMP(started(c), AND(ok, T(c)["voters"])))
    S.ensures(r, "ok", "its quorum is the configured share of the workers, rounded up", lambda c: IMP(started(c), AND(T(c)["quorum"], T(c)["tot"] == ws.len)),
              steps=lambda c: [T(c)["tot"] == ws.len, IMP(started(c), T(c)["quorum"])])
    # the contents
    e = lambda c, x: c.new("poll_messages").get(h(x))
    npm = lambda c: c.new("poll_messages")
    item = lambda c, x, i2: AND(inm(i2), st.needs(ms.at(i2)), h(ms.at(i2)) == x, npm(c).get(x).val.content == ms.at(i2))
    place = lambda i2: S.psum(ms, lambda m: X(S, ITE(st.needs(m), 1, 0), MATH), n=i2)
    S.ensures(r, "ok", "every message that needs a poll is put in the new one", lambda c: IMP(AND(inv, inm(i), st.needs(ms.at(i))), AND(
        e(c, ms.at(i)).is_some, e(c, ms.at(i)).val.poll_id == id_(c))))
    S.ensures(r, "ok", "only a message that needs it is put in the new poll", lambda c: IMP(AND(inv, npm(c).get(k) != pm.get(k)), AND(npm(c).get(k).is_some,
        npm(c).get(k).val.poll_id == id_(c), exists(i2, item(c, k, i2)))))
    S.ensures(r, "ok", "a message put in the new poll has a place of its own there", lambda c: IMP(AND(inv, npm(c).get(k) != pm.get(k)), exists(i2, AND(
        item(c, k, i2), npm(c).get(k).val.index_in_poll == place(i2)))))
    S.ensures(r, "ok", "no other message changes its poll", lambda c: IMP(AND(inv, NOT(exists(i, AND(inm(i), st.needs(ms.at(i)), h(ms.at(i)) == k)))),
                                                                          c.new("poll_messages").get(k) == pm.get(k)))
    S.ensures(r, "ok", "nothing else changes and nothing is sent", lambda c: AND(c.frame("poll_messages", "polls", "poll_id"), c.msgs.len == 0))
    S.cover(r, "ok", "a poll is started", lambda c: started(c))
    S.cover(r, "ok", "no poll is needed", lambda c: NOT(started(c)))


def is_verified(S):
    h = msg_hash(S)
    f = S.modular(Q + "msg_verification_status", lambda a, ret: [ret.is_("Ok")], reads=("poll_messages", "polls"), vals=(1,))
    r = S.entry(V, "query", "IsVerified")
    ms = r.args["m_messages"]
    st, inv = (Fn(S, f), True) if f else (St(S, S.old("poll_messages"), S.old("polls"), h), polls_ok(S, S.old("polls")))
    i = S.any("i", USIZE)
    a = lambda c: S.unjson(c.ret, VEC(("tuple", (S.type("connection_router::state::CrossChainId"), BOOL))))
    S.ensures(r, "ok", "the query says of every message, in order, whether it is confirmed", lambda c: AND(c.ret == S.json(a(c)), a(c).len == ms.len, IMP(
        AND(inv, i >= 0, i < ms.len), AND(a(c).at(i)._0 == ms.at(i).cc_id, IFF(a(c).at(i)._1, st.confirmed(ms.at(i)))))))
    S.never(r, "err", "the query is never refused")


def vote(S):
    r = S.entry(V, "execute", "Vote")
    polls, p, v, s = S.old("polls"), r.args["m_poll_id"], r.args["m_votes"], r.args["sender"].inner()
    k, a = S.any("k", polls.keys), S.any("a", STR)
    new = lambda c: c.new("polls")
    o = polls.get(p)
    W = lambda f: weighted(o.val)(f)
    kind = lambda x, y: AND(IFF(x.is_("Messages"), y.is_("Messages")), IFF(x.is_("ConfirmWorkerSet"), y.is_("ConfirmWorkerSet")))
    may = AND(o.is_some, W(lambda w: AND(w.participation.get(s).is_some, w.participation.get(s).val.vote.is_none, r.args["height"] < w.expires_at, v.len == w.poll_size)))
    S.ensures(r, "ok", "only a voter of the poll who has not voted yet votes, once for every item, before the poll expires", lambda c: may)
    S.never(r, "err", "such a voter is not refused", lambda c: may)

    def recorded(c):
        n = new(c).get(p)
        both = lambda x, y: AND(x.poll_id == y.poll_id, x.quorum == y.quorum, x.expires_at == y.expires_at, x.poll_size == y.poll_size, x.status == y.status,
                                y.tallies.len == x.tallies.len, y.participation.get(s).is_some, y.participation.get(s).val.vote.is_some,
                                y.participation.get(s).val.vote.val == v, y.participation.get(s).val.weight == x.participation.get(s).val.weight,
                                IMP(a != s, y.participation.get(a) == x.participation.get(a)))
        return AND(n.is_some, kind(o.val, n.val), IMP(o.val.is_("Messages"), both(o.val.as_("Messages")._0, n.val.as_("Messages")._0)),
                   IMP(o.val.is_("ConfirmWorkerSet"), both(o.val.as_("ConfirmWorkerSet")._0, n.val.as_("ConfirmWorkerSet")._0)))
    S.ensures(r, "ok", "the vote is recorded under the voter, and nothing else about the poll's terms and voters changes", recorded)
    i, kd = S.any("i", USIZE), S.any("kd", STR)

    def counted(c):
        n = new(c).get(p)

        def one(x, y):
            a, b = x.tallies.at(i)._0.get(kd), y.tallies.at(i)._0.get(kd)
            return IMP(AND(x.tallies.len == x.poll_size, i >= 0, i < x.poll_size), AND(b.is_some == a.is_some, IMP(
                a.is_some, b.val == ITE(kd == vote_name(S, v.at(i)), a.val + x.participation.get(s).val.weight._0, a.val))))
        return AND(IMP(o.val.is_("Messages"), one(o.val.as_("Messages")._0, n.val.as_("Messages")._0)),
                   IMP(o.val.is_("ConfirmWorkerSet"), one(o.val.as_("ConfirmWorkerSet")._0, n.val.as_("ConfirmWorkerSet")._0)))
    S.ensures(r, "ok", "the voter's weight is added exactly once, to the tally of its vote on each item", counted)
    S.ensures(r, "ok", "no other poll changes", lambda c: AND(IMP(k != p, new(c).get(k) == polls.get(k)), c.frame("polls"), c.msgs.len == 0))
    S.cover(r, "ok", "a vote on messages", lambda c: o.val.is_("Messages"))
    S.cover(r, "ok", "a vote on a worker set", lambda c: o.val.is_("ConfirmWorkerSet"))


def inst(S):
    r = S.entry(V, "instantiate", None)
    m = r.args["msg"]
    S.ensures(r, "ok", "the configuration is the one given", lambda c: (lambda n: AND(n.is_some, *[getattr(n.val, f) == getattr(m, f) for f in (
        "service_name", "source_gateway_address", "voting_threshold", "block_expiry", "confirmation_height", "source_chain")],
        n.val.service_registry_contract.inner() == m.service_registry_address._0, n.val.rewards_contract.inner() == m.rewards_address))(c.new("config")))
    S.ensures(r, "ok", "no poll exists at the start", lambda c: AND(c.frame("config"), c.msgs.len == 0))
    S.cover(r, "ok", "the verifier is instantiated")


def kinds(S):
    """messages of the other kinds change no verdict on a message"""
    S.entry(V, "execute", "VerifyMessages")
    polls, pm = S.old("polls"), S.old("poll_messages")
    p, cnt = S.any("p", polls.keys), S.old("poll_id")
    r = S.entry(V, "execute", "EndPoll")
    S.ensures(r, "ok", "ending a poll changes no message's place", lambda c: AND(c.new("poll_messages") == pm, c.new("poll_id") == cnt))

    def same(c):
        o, n = polls.get(p), c.new("polls").get(p)
        one = lambda v: IMP(o.val.is_(v), AND(n.val.is_(v), (lambda x, y: AND(*[getattr(x, f) == getattr(y, f) for f in (
            "poll_id", "quorum", "expires_at", "poll_size", "tallies", "participation")]))(o.val.as_(v)._0, n.val.as_(v)._0)))
        return AND(IFF(o.is_some, n.is_some), IMP(o.is_some, AND(one("Messages"), one("ConfirmWorkerSet"))))
    S.ensures(r, "ok", "ending a poll changes no poll's votes or terms", same)
    r = S.entry(V, "execute", "VerifyWorkerSet")
    S.ensures(r, "ok", "a poll for a worker set changes no message's place, and no other poll", lambda c: AND(
        c.new("poll_messages") == pm, IMP(p != c.new("poll_id").val, c.new("polls").get(p) == polls.get(p)), c.new("poll_id").val._0 > ITE(cnt.is_some, cnt.val._0, 0)))
    S.others(V, ["VerifyMessages", "Vote", "EndPoll", "VerifyWorkerSet"], "polls", "poll_messages", "poll_id", "config")


PARTS = [status, verify, is_verified, vote, inst, kinds]
