from specs.common import *

R = "connection_router"
IN, OUT = 1, 2


def has(x, bit):
    return (x.t & bit) == bit


def route(S):
    r = S.entry(R, "execute", "RouteMessages")
    cf, ch, s, ms = S.old("config"), S.old("chains"), r.args["sender"].inner(), r.args["msg"].as_("RouteMessages")._0
    nexus = cf.val.nexus_gateway.inner()
    k = S.any("chain", ch.keys)
    i = S.any("i", USIZE)
    src = lambda n: ms.at(n).cc_id.chain
    dst = lambda n: ch.get(ms.at(n).destination_chain)
    inm = AND(i >= 0, i < ms.len)
    mine = AND(ch.get(k).is_some, ch.get(k).val.gateway.address == s)
    S.ensures(r, "ok", "only the nexus gateway or a registered gateway can route messages", lambda c: OR(s == nexus, exists(k, mine)))
    S.ensures(r, "ok", "a gateway's messages must come from its own chain", lambda c: IMP(AND(s != nexus, mine, inm), src(i) == ch.get(k).val.name))
    S.ensures(r, "ok", "a chain whose incoming direction is frozen cannot send", lambda c: IMP(AND(s != nexus, mine), NOT(has(ch.get(k).val.frozen_status, IN))))
    S.ensures(r, "ok", "nothing is sent to a chain whose outgoing direction is frozen", lambda c: IMP(AND(inm, dst(i).is_some), NOT(has(dst(i).val.frozen_status, OUT))))
    S.ensures(r, "ok", "the nexus gateway cannot route to an unknown chain", lambda c: IMP(AND(inm, s == nexus), dst(i).is_some))
    S.ensures(r, "ok", "routing changes no state", lambda c: c.frame())

    t = S.type("connection_router::msg::ExecuteMsg")
    ex = lambda c, n: c.msgs.at(n).msg.as_("Wasm")._0.as_("Execute")
    grp = lambda c, n: S.unjson(ex(c, n).msg, t).as_("RouteMessages")._0
    j = S.any("j", USIZE)
    inj = lambda c: AND(j >= 0, j < c.msgs.len)
    tgt = lambda d: ITE(ch.get(d).is_some, ch.get(d).val.gateway.address.inner(), nexus)
    S.ensures(r, "ok", "every message sent is a RouteMessages call with no funds and no reply", lambda c: IMP(inj(c),
              c.msgs.at(j) == S.submsg(S.wasm_exec(ex(c, j).contract_addr, S.mk(t, "RouteMessages", _0=grp(c, j))))))
    S.ensures(r, "ok", "every message goes to the gateway registered for its destination chain, or to the nexus gateway if there is none", lambda c: IMP(
        AND(inj(c), i >= 0, i < grp(c, j).len), ex(c, j).contract_addr == tgt(grp(c, j).at(i).destination_chain)))
    off = lambda c, n: S.psum_fn(lambda g: grp(c, g).len, n)
    S.ensures(r, "ok", "the messages sent are the messages submitted, unchanged, each once and in order", lambda c: AND(
        off(c, c.msgs.len) == ms.len, IMP(AND(inj(c), i >= 0, i < grp(c, j).len), grp(c, j).at(i) == ms.at(off(c, j) + i))))

    other = S.any("other", ch.keys)
    uniq = forall([k, other], IMP(AND(ch.get(k).is_some, ch.get(other).is_some, ch.get(k).val.gateway.address == ch.get(other).val.gateway.address), k == other))
    known = forall(i, IMP(inm, IMP(dst(i).is_none, s != nexus)))
    open_ = forall(i, IMP(AND(inm, dst(i).is_some), NOT(has(dst(i).val.frozen_status, OUT))))
    allowed = OR(s == nexus, exists(k, AND(mine, NOT(has(ch.get(k).val.frozen_status, IN)), forall(i, IMP(inm, src(i) == ch.get(k).val.name)))))
    S.never(r, "err", "permitted messages are not refused", lambda c: AND(cf.is_some, uniq, known, open_, allowed))
    S.never(r, "panic", "no panic once instantiated, with one chain per gateway", lambda c: AND(cf.is_some, uniq))
    S.cover(r, "ok", "a gateway routes a message", lambda c: AND(s != nexus, ms.len > 0, c.msgs.len > 0))
    S.cover(r, "ok", "the nexus gateway routes a message", lambda c: AND(s == nexus, ms.len > 0))
    S.cover(r, "err", "messages are refused")


def kinds(S):
    S.others(R, ["RouteMessages"], silent=True)


PARTS = [route, kinds]
