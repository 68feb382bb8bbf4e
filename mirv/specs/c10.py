from specs.common import *

G = "gateway"


def verdicts(S, cf, ms):
    """the verifier's answer about the submitted messages"""
    q = S.mk(S.type("aggregate_verifier::msg::QueryMsg"), "IsVerified", messages=ms)
    return S.query(cf.val.verifier, q, VEC(("tuple", (S.type("connection_router::state::CrossChainId"), BOOL))))


def known(S, v, id_):
    """(some entry says the message is verified, an entry says so and none says otherwise)"""
    j = S.any("v", USIZE)
    inr = AND(j >= 0, j < v.len)
    yes = exists(j, AND(inr, v.at(j)._0 == id_, v.at(j)._1))
    return yes, AND(yes, forall(j, IMP(AND(inr, v.at(j)._0 == id_), v.at(j)._1)))


def unique(S, ms):
    a, b = S.any("a", USIZE), S.any("b", USIZE)
    return forall([a, b], IMP(AND(0 <= a, a < b, b < ms.len), ms.at(a).cc_id != ms.at(b).cc_id))


def selected(S, r, c, out, ms, keep, some, what):
    """out is the messages of ms that keep, in their order"""
    i, j = S.any("i", USIZE), S.any("j", USIZE)
    at = lambda x: lambda: AND(x >= 0, x < out.len)
    return i, j


def incoming(S):
    r = S.entry(G, "execute", "RouteMessages")
    cf, om, ms, s = S.old("config"), S.old("outgoing_messages"), r.args["m_f0"], r.args["sender"].inner()
    router = cf.val.router.inner()
    ok, v = verdicts(S, cf, ms)
    t = S.type("connection_router::msg::ExecuteMsg")
    i, j = S.any("i", USIZE), S.any("j", USIZE)
    inm = AND(i >= 0, i < ms.len)
    sent = lambda c: S.unjson(c.msgs.at(0).msg.as_("Wasm")._0.as_("Execute").msg, t).as_("RouteMessages")._0
    ins = lambda c: AND(c.msgs.len > 0, j >= 0, j < sent(c).len)
    fromr = s == router
    k = S.any("id", om.keys)
    S.ensures(r, "ok", "message ids are unique in one call", lambda c: unique(S, ms))
    # incoming: anybody may submit
    S.ensures(r, "ok", "incoming messages go to the router in one RouteMessages call with no funds, or nothing is sent", lambda c: IMP(NOT(fromr), OR(
        c.msgs.len == 0, c.msgs_are(S.submsg(S.wasm_exec(router, S.mk(t, "RouteMessages", _0=sent(c))))))))
    S.ensures(r, "ok", "only messages submitted now and verified are forwarded, unchanged", lambda c: IMP(AND(NOT(fromr), ins(c)), AND(
        ok, exists(i, AND(inm, sent(c).at(j) == ms.at(i), known(S, v, ms.at(i).cc_id)[0])))))
    S.ensures(r, "ok", "every verified message is forwarded", lambda c: IMP(AND(NOT(fromr), inm, known(S, v, ms.at(i).cc_id)[1]), AND(
        c.msgs.len == 1, exists(j, AND(j >= 0, j < sent(c).len, sent(c).at(j) == ms.at(i))))))
    l = S.any("l", USIZE)
    S.ensures(r, "ok", "no message is forwarded twice", lambda c: IMP(AND(NOT(fromr), ins(c), l > j, l < sent(c).len), sent(c).at(j) != sent(c).at(l)))
    S.ensures(r, "ok", "incoming messages change no state", lambda c: IMP(NOT(fromr), c.frame()))
    # outgoing: from the router
    S.ensures(r, "ok", "every message from the router is stored under its id", lambda c: IMP(AND(fromr, inm), (lambda x: AND(x.is_some, x.val == ms.at(i)))(
        c.new("outgoing_messages").get(ms.at(i).cc_id))))
    S.ensures(r, "ok", "nothing else is stored and nothing is sent", lambda c: IMP(fromr, AND(c.msgs.len == 0, c.frame("outgoing_messages"), IMP(
        NOT(exists(i, AND(inm, ms.at(i).cc_id == k))), c.new("outgoing_messages").get(k) == om.get(k)))))
    S.ensures(r, "ok", "only the router makes messages available for a destination", lambda c: IMP(NOT(fromr), c.new("outgoing_messages").get(k) == om.get(k)))
    S.never(r, "err", "messages with unique ids are not refused", lambda c: AND(cf.is_some, unique(S, ms), OR(fromr, ok)))
    S.never(r, "panic", "no panic once instantiated", lambda c: cf.is_some)
    S.cover(r, "ok", "a verified message is forwarded", lambda c: AND(NOT(fromr), c.msgs.len == 1))
    S.cover(r, "ok", "an outgoing message is stored", lambda c: AND(fromr, ms.len > 0))


def verify(S):
    r = S.entry(G, "execute", "VerifyMessages")
    cf, ms = S.old("config"), r.args["m_f0"]
    ok, v = verdicts(S, cf, ms)
    t = S.type("aggregate_verifier::msg::ExecuteMsg")
    i, j = S.any("i", USIZE), S.any("j", USIZE)
    inm = AND(i >= 0, i < ms.len)
    sent = lambda c: S.unjson(c.msgs.at(0).msg.as_("Wasm")._0.as_("Execute").msg, t).as_("VerifyMessages").messages
    ins = lambda c: AND(c.msgs.len > 0, j >= 0, j < sent(c).len)
    S.ensures(r, "ok", "the verifier is asked once, with no funds, or not at all", lambda c: OR(
        c.msgs.len == 0, c.msgs_are(S.submsg(S.wasm_exec(cf.val.verifier.inner(), S.mk(t, "VerifyMessages", messages=sent(c)))))))
    S.ensures(r, "ok", "only submitted, unverified messages are sent to the verifier, unchanged", lambda c: IMP(ins(c), exists(i, AND(
        inm, sent(c).at(j) == ms.at(i), NOT(known(S, v, ms.at(i).cc_id)[1])))))
    S.ensures(r, "ok", "every unverified message is sent to the verifier", lambda c: IMP(AND(inm, NOT(known(S, v, ms.at(i).cc_id)[0])), AND(
        c.msgs.len == 1, exists(j, AND(j >= 0, j < sent(c).len, sent(c).at(j) == ms.at(i))))))
    S.ensures(r, "ok", "asking for verification changes no state", lambda c: c.frame())
    S.ensures(r, "ok", "message ids are unique in one call", lambda c: unique(S, ms))
    S.never(r, "err", "messages with unique ids are not refused", lambda c: AND(cf.is_some, unique(S, ms), ok))
    S.never(r, "panic", "no panic once instantiated", lambda c: cf.is_some)
    S.cover(r, "ok", "a message is sent to the verifier", lambda c: c.msgs.len == 1)


def query(S):
    r = S.entry(G, "query", "GetMessages")
    om, ids = S.old("outgoing_messages"), r.args["m_message_ids"]
    i = S.any("i", USIZE)
    ini = AND(i >= 0, i < ids.len)
    t = VEC(S.type("connection_router::state::Message"))
    a = lambda c: S.unjson(c.ret, t)
    S.ensures(r, "ok", "the query answers the stored messages, in the order asked for", lambda c: AND(
        c.ret == S.json(a(c)), a(c).len == ids.len, IMP(ini, AND(om.get(ids.at(i)).is_some, a(c).at(i) == om.get(ids.at(i)).val))))
    S.never(r, "err", "stored messages are found", lambda c: forall(i, IMP(ini, om.get(ids.at(i)).is_some)))
    S.never(r, "panic", "no panic")


def inst(S):
    r = S.entry(G, "instantiate", None)
    S.ensures(r, "ok", "the router and the verifier are those given", lambda c: (lambda n, m: AND(
        n.is_some, n.val.verifier.inner() == m.verifier_address, n.val.router.inner() == m.router_address))(c.new("config"), r.args["msg"]))
    S.ensures(r, "ok", "nothing else is stored", lambda c: AND(c.frame("config"), c.msgs.len == 0))


def kinds(S):
    S.entry(G, "execute", "RouteMessages")
    S.others(G, ["RouteMessages"], "outgoing_messages", "config")


PARTS = [incoming, verify, query, inst, kinds]
