from specs.common import *

G = "nexus_gateway"
NM = "nexus_gateway::nexus::Message"


def to_nexus(S, m):
    """what nexus is told about a message: the transaction and index its id names, or the whole id when it names none"""
    text, colon, zx = m.cc_id.id.inner(), S.char(":"), S.str("0x")
    n = S.uf("split:n", USIZE, text, colon)
    at = lambda k: S.uf("split:at", STR, text, colon, S.num(k))
    bare = S.uf("str::trim_start_matches", STR, at(0), zx)
    raw = S.uf("unhexlike", BYTES, bare)
    named = AND(n == 2, S.uf("hexok", BOOL, bare), S.uf("byteslen", MATH, raw) != 0, S.uf("parse_ok:u64", BOOL, at(1)))
    t = S.type(NM)
    same = dict(source_chain=m.cc_id.chain, source_address=m.source_address, destination_chain=m.destination_chain,
                destination_address=m.destination_address, payload_hash=m.payload_hash)
    ne = [f[1] for f in S.fields(t) if f[0] == "source_tx_id"][0]
    a = S.mk(t, source_tx_id=S.wrap(ne, raw), source_tx_index=S.uf("parse:u64", U64, at(1)), **same)
    b = S.mk(t, source_tx_id=S.wrap(ne, S.uf("utf8", BYTES, text)), source_tx_index=S.int(2**64 - 1, U64), **same)
    return ITE(named, a, b)


def deliver(S):
    st = {}
    S.entry(G, "instantiate", None)

    def seen(v, j):
        ms = st["ms"]
        return forall(l, IMP(AND(l >= 0, l < j), v.get(ms.at(l).cc_id).is_some))
    l = S.any("l", USIZE)
    S.invariant("the ids so far are recorded", lambda ty: ty == S.old("routed_message_ids").ty, seen, everywhere=True)
    r = S.entry(G, "execute", "RouteMessages", pre=lambda a: st.update(ms=X(S, z3.simplify(a["msg"].as_("RouteMessages")._0.t), a["msg"].as_("RouteMessages")._0.ty)))
    cf, ids, ms, s = S.old("config"), S.old("routed_message_ids"), r.args["m_f0"], r.args["sender"].inner()
    i, j = S.any("i", USIZE), S.any("j", USIZE)
    inm_ = lambda x: AND(x >= 0, x < ms.len)
    inm = inm_(i)
    key = lambda x: ms.at(x).cc_id
    first = lambda x: AND(ids.get(key(x)).is_none, NOT(exists(l, AND(l >= 0, l < x, key(l) == key(x)))))
    k = S.any("id", ids.keys)
    new = lambda c: c.new("routed_message_ids")
    S.ensures(r, "ok", "only the router delivers messages for nexus", lambda c: AND(cf.is_some, cf.val.router.inner() == s))
    S.ensures(r, "ok", "every id delivered is recorded, and recorded ids stay recorded", lambda c: AND(
        IMP(inm, new(c).get(key(i)).is_some), IMP(ids.get(k).is_some, new(c).get(k).is_some)))
    S.ensures(r, "ok", "only ids delivered now are newly recorded and nothing else changes", lambda c: AND(
        c.frame("routed_message_ids"), IMP(AND(ids.get(k).is_none, new(c).get(k).is_some), exists(i, AND(inm, key(i) == k)))))
    S.ensures(r, "ok", "every message is sent to nexus the first time its id is delivered", lambda c: IMP(AND(inm, first(i)), exists(j, AND(
        j >= 0, j < c.msgs.len, c.msgs.at(j) == S.submsg(S.custom(to_nexus(S, ms.at(i))))))), steps=lambda c: [y for p in S.places(c)[:1] for y in (
            IMP(AND(inm, first(i)), AND(p(i) >= 0, p(i) < c.msgs.len)),
            IMP(AND(inm, first(i)), c.msgs.at(p(i)) == S.submsg(S.custom(to_nexus(S, ms.at(i))))))])
    inj = lambda c: AND(j >= 0, j < c.msgs.len)
    S.ensures(r, "ok", "nothing is sent to nexus but the messages delivered, as they are", lambda c: IMP(inj(c), exists(i, AND(
        inm, first(i), c.msgs.at(j) == S.submsg(S.custom(to_nexus(S, ms.at(i))))))), steps=lambda c: [y for q in S.sources(c)[:1] for y in (
            IMP(inj(c), AND(inm_(q(j)), c.msgs.at(j) == S.submsg(S.custom(to_nexus(S, ms.at(q(j))))))),
            IMP(inj(c), ids.get(key(q(j))).is_none),
            IMP(inj(c), first(q(j))))])
    S.never(r, "err", "the router is not refused", lambda c: AND(cf.is_some, cf.val.router.inner() == s))
    S.never(r, "panic", "no panic once instantiated", lambda c: AND(cf.is_some, forall(i, IMP(inm, S.uf("byteslen", MATH, S.uf("utf8", BYTES, ms.at(i).cc_id.id.inner())) != 0))))
    S.cover(r, "ok", "a message is sent", lambda c: c.msgs.len > 0)



def inbound(S):
    r = S.entry(G, "execute", "RouteMessagesFromNexus")
    cf, ms, s = S.old("config"), r.args["m_f0"], r.args["sender"].inner()
    i = S.any("i", USIZE)
    t = S.type("connection_router::msg::ExecuteMsg")
    sent = lambda c: S.unjson(c.msgs.at(0).msg.as_("Wasm")._0.as_("Execute").msg, t).as_("RouteMessages")._0
    S.ensures(r, "ok", "only nexus delivers messages for the router", lambda c: AND(cf.is_some, cf.val.nexus.inner() == s))
    S.ensures(r, "ok", "the messages go to the router in one RouteMessages call with no funds; none are sent for none", lambda c: OR(
        AND(ms.len == 0, c.msgs.len == 0), AND(ms.len > 0, c.msgs_are(S.submsg(S.wasm_exec(cf.val.router.inner(), S.mk(t, "RouteMessages", _0=sent(c))))))))

    def each(c):
        o, m = sent(c).at(i), ms.at(i)
        return AND(o.source_address == m.source_address, o.destination_chain == m.destination_chain, o.destination_address == m.destination_address,
                   o.payload_hash == m.payload_hash, o.cc_id.chain == m.source_chain,
                   o.cc_id.id.inner() == S.uf("fmt:{}:{}", STR, S.uf("hex", STR, m.source_tx_id.inner()), S.uf("show:int", STR, m.source_tx_index)))
    S.ensures(r, "ok", "each message is passed on as it is, named by its transaction and index", lambda c: IMP(ms.len > 0, AND(
        sent(c).len == ms.len, IMP(AND(i >= 0, i < ms.len), each(c)))))
    S.ensures(r, "ok", "messages from nexus change no state", lambda c: c.frame())
    S.never(r, "err", "nexus is not refused", lambda c: AND(cf.is_some, cf.val.nexus.inner() == s))
    S.never(r, "panic", "no panic once instantiated", lambda c: cf.is_some)
    S.cover(r, "ok", "a message is passed on", lambda c: c.msgs.len > 0)


def inst(S):
    r = S.entry(G, "instantiate", None)
    S.ensures(r, "ok", "nexus and the router are those given", lambda c: (lambda n, m: AND(
        n.is_some, n.val.nexus.inner() == m.nexus, n.val.router.inner() == m.router))(c.new("config"), r.args["msg"]))
    S.ensures(r, "ok", "nothing else is stored and nothing is sent", lambda c: AND(c.frame("config"), c.msgs.len == 0))


def kinds(S):
    S.entry(G, "execute", "RouteMessages")
    S.others(G, ["RouteMessages"], "routed_message_ids", "config")


PARTS = [deliver, inbound, inst, kinds]
