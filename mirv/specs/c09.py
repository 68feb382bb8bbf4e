from specs.common import *
from specs.c08 import R, has, IN, OUT


def reg(S):
    cf, ch = None, None
    r = S.entry(R, "execute", "RegisterChain")
    cf, ch, s = S.old("config"), S.old("chains"), r.args["sender"].inner()
    name, gw = r.args["m_chain"], r.args["m_gateway_address"]
    k = S.any("chain", ch.keys)
    new = lambda c: c.new("chains")
    taken = lambda a: exists(k, AND(ch.get(k).is_some, ch.get(k).val.gateway.address.inner() == a))
    valid = lambda a: S.uf("valid_addr", BOOL, a)
    S.ensures(r, "ok", "only governance registers a chain", lambda c: s == cf.val.governance.inner())
    S.ensures(r, "ok", "a registered chain is not registered again", lambda c: ch.get(name).is_none)
    S.ensures(r, "ok", "a gateway serves one chain only", lambda c: NOT(taken(gw)))
    S.ensures(r, "ok", "the chain is registered with its gateway, unfrozen", lambda c: AND(valid(gw), new(c).get(name).is_some, (lambda e: AND(
        e.name == name, e.gateway.address.inner() == gw, e.frozen_status.t == 0))(new(c).get(name).val)))
    S.ensures(r, "ok", "no other chain changes", lambda c: AND(IMP(k != name, new(c).get(k) == ch.get(k)), c.frame("chains"), c.msgs.len == 0))
    S.never(r, "err", "governance can register a new chain with a new gateway", lambda c: AND(cf.is_some, s == cf.val.governance.inner(), valid(gw), ch.get(name).is_none, NOT(taken(gw))))
    S.never(r, "panic", "no panic once instantiated", lambda c: AND(cf.is_some, unique(S, ch)))
    invariants(S, r, ch)
    S.cover(r, "ok", "a chain is registered")


def unique(S, ch):
    a, b = S.any("a", ch.keys), S.any("b", ch.keys)
    return forall([a, b], IMP(AND(ch.get(a).is_some, ch.get(b).is_some, ch.get(a).val.gateway.address == ch.get(b).val.gateway.address), a == b))


def named(S, ch):
    a = S.any("a", ch.keys)
    return forall(a, IMP(ch.get(a).is_some, ch.get(a).val.name == a))


def invariants(S, r, ch):
    S.ensures(r, "ok", "every registered gateway still belongs to one chain", lambda c: IMP(unique(S, ch), unique(S, c.new("chains"))))
    S.ensures(r, "ok", "every chain is still stored under its own name", lambda c: IMP(named(S, ch), named(S, c.new("chains"))))


def upg(S):
    r = S.entry(R, "execute", "UpgradeGateway")
    cf, ch, s = S.old("config"), S.old("chains"), r.args["sender"].inner()
    name, gw = r.args["m_chain"], r.args["m_contract_address"]
    k = S.any("chain", ch.keys)
    new = lambda c: c.new("chains")
    taken = lambda a: exists(k, AND(ch.get(k).is_some, ch.get(k).val.gateway.address.inner() == a))
    valid = lambda a: S.uf("valid_addr", BOOL, a)
    S.ensures(r, "ok", "only governance changes a gateway", lambda c: s == cf.val.governance.inner())
    S.ensures(r, "ok", "only a registered chain's gateway can be changed, to one that serves no chain", lambda c: AND(ch.get(name).is_some, NOT(taken(gw)), valid(gw)))
    S.ensures(r, "ok", "the chain has the new gateway and is otherwise as it was", lambda c: AND(new(c).get(name).is_some, (lambda e, o: AND(
        e.name == o.name, e.gateway.address.inner() == gw, e.frozen_status == o.frozen_status))(new(c).get(name).val, ch.get(name).val)))
    S.ensures(r, "ok", "no other chain changes", lambda c: AND(IMP(k != name, new(c).get(k) == ch.get(k)), c.frame("chains"), c.msgs.len == 0))
    S.never(r, "err", "governance can give a chain a new gateway", lambda c: AND(cf.is_some, s == cf.val.governance.inner(), valid(gw), ch.get(name).is_some, NOT(taken(gw))))
    S.never(r, "panic", "no panic once instantiated", lambda c: AND(cf.is_some, unique(S, ch)))
    invariants(S, r, ch)
    S.cover(r, "ok", "a gateway is changed")


def freezing(variant, verb, flip):
    def part(S):
        r = S.entry(R, "execute", variant)
        cf, ch, s = S.old("config"), S.old("chains"), r.args["sender"].inner()
        name, d = r.args["m_chain"], r.args["m_direction"]
        k = S.any("chain", ch.keys)
        new = lambda c: c.new("chains")
        bv = lambda n: z3.BitVecVal(n, 8)
        bits = z3.If(tb(d.is_("Incoming")), bv(1), z3.If(tb(d.is_("Outgoing")), bv(2), z3.If(tb(d.is_("Bidirectional")), bv(3), bv(0))))
        S.ensures(r, "ok", "only the admin %ss a chain" % verb, lambda c: s == cf.val.admin.inner())
        S.ensures(r, "ok", "exactly the given direction is %s" % (verb.replace("freeze", "frozen")), lambda c: AND(ch.get(name).is_some, new(c).get(name).is_some, (lambda e, o: AND(
            e.name == o.name, e.gateway == o.gateway, e.frozen_status.t == flip(o.frozen_status.t, bits)))(new(c).get(name).val, ch.get(name).val)))
        S.ensures(r, "ok", "no other chain changes", lambda c: AND(IMP(k != name, new(c).get(k) == ch.get(k)), c.frame("chains"), c.msgs.len == 0))
        S.never(r, "err", "the admin can %s any registered chain" % verb, lambda c: AND(cf.is_some, s == cf.val.admin.inner(), ch.get(name).is_some))
        S.never(r, "panic", "no panic once instantiated", lambda c: cf.is_some)
        invariants(S, r, ch)
        S.cover(r, "ok", "a chain is %s" % (verb.replace("freeze", "frozen")))
    part.__name__ = verb
    return part


def inst(S):
    r = S.entry(R, "instantiate", None)
    S.ensures(r, "ok", "the admin, governance and nexus gateway are those given", lambda c: (lambda n, m: AND(
        n.is_some, n.val.admin.inner() == m.admin_address, n.val.governance.inner() == m.governance_address, n.val.nexus_gateway.inner() == m.nexus_gateway))(
        c.new("config"), r.args["msg"]))
    S.ensures(r, "ok", "no chain is registered by instantiation", lambda c: c.frame("config"))
    S.cover(r, "ok", "the router is instantiated")


def info(S):
    r = S.entry(R, "query", "GetChainInfo")
    ch = S.old("chains")
    S.ensures(r, "ok", "the query answers the stored chain", lambda c: AND(ch.get(r.args["msg"].as_("GetChainInfo")._0).is_some, c.ret == S.json(ch.get(r.args["msg"].as_("GetChainInfo")._0).val)))
    S.never(r, "err", "a registered chain is found", lambda c: ch.get(r.args["msg"].as_("GetChainInfo")._0).is_some)


def kinds(S):
    S.entry(R, "execute", "RegisterChain")
    S.others(R, ["RegisterChain", "UpgradeGateway", "FreezeChain", "UnfreezeChain"], "chains", "config")


PARTS = [reg, upg, freezing("FreezeChain", "freeze", lambda o, b: o | b), freezing("UnfreezeChain", "unfreeze", lambda o, b: o & ~b), inst, info, kinds]
