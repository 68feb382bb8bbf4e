from specs.common import *

SR = "service_registry"


def governed(S, r):
    cf = S.old("config")
    return AND(cf.is_some, cf.val.governance == r.args["sender"])


def auth(S):
    for v, st in (("AuthorizeWorkers", "Authorized"), ("UnauthorizeWorkers", "NotAuthorized")):
        r = S.entry(SR, "execute", v)
        gov, sv, wk = governed(S, r), S.old("services"), S.old("workers")
        ws, n = r.args["m_workers"], r.args["m_service_name"]
        k, i, q = S.any("k", wk.keys), S.any("i", USIZE), S.any("i2", MATH)
        inr = lambda i: AND(i >= 0, i < ws.len)
        S.ensures(r, "ok", "only governance changes who is authorized, and only for a registered service", lambda c: AND(gov, sv.get(n).is_some))
        S.never(r, "err|panic", "governance is not refused", lambda c: AND(gov, sv.get(n).is_some, forall(q, IMP(inr(q), S.uf("valid_addr", BOOL, ws.at(q))))))

        def named(c):
            a, b = wk.get(n, ws.at(i)), c.new("workers").get(n, ws.at(i))
            return IMP(inr(i), AND(b.is_some, b.val.authorization_state.is_(st)))
        S.ensures(r, "ok", "every named worker changes as governance says", named)
        S.invariant("records are kept but for the authorization", lambda ty: ty == wk.ty, lambda v, j: keep(wk.get(k), v.get(k), k))
        r = S.entry(SR, "execute", v)
        ws, n = r.args["m_workers"], r.args["m_service_name"]
        S.ensures(r, "ok", "nobody else changes", lambda c: IMP(OR(k._0 != n, forall(q, IMP(inr(q), ws.at(q) != k._1.inner()))), c.new("workers").get(k) == wk.get(k)))
        S.ensures(r, "ok", "a record changes only in its authorization, and a new one has no stake", lambda c: keep(wk.get(k), c.new("workers").get(k), k))
        S.ensures(r, "ok", "nothing else changes and nothing is sent", lambda c: AND(c.frame("workers"), c.msgs.len == 0))
        S.cover(r, "ok", "two workers", lambda c: ws.len == 2)


def keep(a, n, k):
    return AND(IMP(a.is_some, AND(n.is_some, n.val.bonding_state == a.val.bonding_state, n.val.address == a.val.address, n.val.service_name == a.val.service_name)),
               IMP(AND(a.is_none, n.is_some), AND(n.val.bonding_state.is_("Unbonded"), n.val.address.inner() == k._1.inner(), n.val.service_name == k._0)))


def services(S):
    r = S.entry(SR, "execute", "RegisterService")
    gov, sv, n = governed(S, r), S.old("services"), r.args["m_service_name"]
    k = S.any("k", sv.keys)
    S.ensures(r, "ok", "only governance registers a service, and only once", lambda c: AND(gov, sv.get(n).is_none))
    S.never(r, "err|panic", "governance is not refused", lambda c: AND(gov, sv.get(n).is_none))
    S.ensures(r, "ok", "the service is registered as given", lambda c: (lambda s: AND(s.is_some, s.val.name == n, *[getattr(s.val, f) == getattr(c, "m_" + f) for f in (
        "service_contract", "min_num_workers", "max_num_workers", "min_worker_bond", "bond_denom", "unbonding_period_days", "description")]))(c.new("services").get(n)))
    S.ensures(r, "ok", "no other service and nothing else changes", lambda c: AND(IMP(k != n, c.new("services").get(k) == sv.get(k)), c.frame("services"), c.msgs.len == 0))
    S.cover(r, "ok", "registered")
    for v in ("AuthorizeWorkers", "UnauthorizeWorkers", "DeclareChainSupport", "BondWorker", "UnbondWorker", "ClaimStake"):
        r = S.entry(SR, "execute", v)
        S.ensures(r, "ok", "nothing else registers or changes a service, or governance", lambda c: AND(c.new("services") == sv, c.new("config") == c.old("config")))
    r = S.entry(SR, "instantiate", None)
    S.ensures(r, "ok", "governance is the account named", lambda c: AND(c.new("config").is_some, c.new("config").val.governance.inner() == c.msg.governance_account, c.frame("config"), c.msgs.len == 0))


def chains(S):
    r = S.entry(SR, "execute", "DeclareChainSupport")
    S.entry(SR, "query", "GetActiveWorkers")
    sv, wk, wc = S.old("services"), S.old("workers"), S.old("workers_per_chain")
    n, me, cs = r.args["m_service_name"], r.args["sender"], r.args["m_chains"]
    may = AND(sv.get(n).is_some, wk.get(n, me).is_some)
    k, i, q = S.any("k", wc.keys), S.any("i", USIZE), S.any("i2", MATH)
    key = lambda ch: (n, ch, me)
    S.ensures(r, "ok", "only a worker of the service declares its support", lambda c: may)
    S.never(r, "err|panic", "a worker of the service is not refused", lambda c: may)
    S.ensures(r, "ok", "every named chain is supported by the sender from now on", lambda c: IMP(AND(i >= 0, i < cs.len), c.new("workers_per_chain").get(*pk(wc, key(cs.at(i)))).is_some))
    S.ensures(r, "ok", "no other chain's, service's or worker's support changes", lambda c: IMP(
        NOT(exists(q, AND(q >= 0, q < cs.len, same_key(k, key(cs.at(q)))))), c.new("workers_per_chain").get(k) == wc.get(k)))
    S.ensures(r, "ok", "nothing else changes and nothing is sent", lambda c: AND(c.frame("workers_per_chain"), c.msgs.len == 0))
    S.cover(r, "ok", "two chains", lambda c: cs.len == 2)


def pk(m, ks):
    return ks


def same_key(k, ks):
    return AND(k._0 == ks[0], k._1 == ks[1], k._2.inner() == ks[2].inner())


def active(S):
    r = S.entry(SR, "query", "GetActiveWorkers")
    sv, wk, wc = S.old("services"), S.old("workers"), S.old("workers_per_chain")
    n, ch = r.args["m_service_name"], r.args["m_chain_name"]
    s = sv.get(n)
    wt = S.type("service_registry::state::Worker")
    lst = lambda c: S.unjson(c.ret, VEC(wt))
    i, j, q = S.any("i", USIZE), S.any("j", USIZE), S.any("i2", MATH)
    sub = S.sub(wc, n, ch)
    cnt, key = S.entries(sub)
    a = S.any("a", S.type("cosmwasm_std::Addr"))
    good = lambda w: AND(w.authorization_state.is_("Authorized"), w.bonding_state.is_("Bonded"), w.bonding_state.as_("Bonded").amount >= s.val.min_worker_bond)
    act = lambda a: AND(wc.get(n, ch, a).is_some, wk.get(n, a).is_some, good(wk.get(n, a).val))
    S.ensures(r, "ok", "the answer is a list of workers", lambda c: AND(c.ret == S.json(lst(c)), s.is_some))
    S.ensures(r, "ok", "every worker listed is authorized, has at least the minimum bonded and supports the chain", lambda c: IMP(AND(i >= 0, i < lst(c).len), exists(a, AND(
        act(a), lst(c).at(i) == wk.get(n, a).val))))
    S.ensures(r, "ok", "every such worker is listed", lambda c: IMP(act(a), exists(q, AND(q >= 0, q < lst(c).len, lst(c).at(q) == wk.get(n, a).val))), steps=lambda c: [
        IMP(act(a), sub.get(a).is_some), IMP(act(a), exists(q, AND(q >= 0, q < cnt, key(q) == a)))])
    own = forall(a, IMP(wk.get(n, a).is_some, wk.get(n, a).val.address == a))
    S.ensures(r, "ok", "no worker is listed twice", lambda c: IMP(AND(own, i >= 0, i < j, j < lst(c).len), lst(c).at(i).address != lst(c).at(j).address))
    S.never(r, "err|panic", "the query is answered for a registered service", lambda c: AND(s.is_some, forall(a, IMP(wc.get(n, ch, a).is_some, wk.get(n, a).is_some))))
    S.cover(r, "ok", "two workers", lambda c: lst(c).len == 2)
    r = S.entry(SR, "query", "GetService")
    S.ensures(r, "ok", "a service is shown as registered", lambda c: (lambda x: AND(x.is_some, c.ret == S.json(x.val)))(sv.get(c.m_service_name)))
    S.never(r, "err|panic", "a registered service is shown", lambda c: sv.get(c.m_service_name).is_some)
    r = S.entry(SR, "query", "GetWorker")
    x = lambda c: wk.get(c.m_service_name, c.m_worker)
    S.ensures(r, "ok", "a worker is shown as recorded", lambda c: AND(x(c).is_some, c.ret == S.json(x(c).val)))
    S.never(r, "err|panic", "a recorded worker is shown", lambda c: AND(x(c).is_some, S.uf("valid_addr", BOOL, c.m_worker)))
    S.cover(r, "ok", "shown")


def bonds(S):
    """bonding, unbonding and claiming leave the authorization as it is"""
    for v in ("BondWorker", "UnbondWorker", "ClaimStake"):
        r = S.entry(SR, "execute", v)
        wk, n, me = S.old("workers"), r.args["m_service_name"], r.args["sender"]
        S.old("services")
        k = S.any("k", wk.keys)

        def mine(c):
            a, b = wk.get(n, me), c.new("workers").get(n, me)
            return AND(
                IMP(a.is_some, AND(b.is_some, b.val.authorization_state == a.val.authorization_state, b.val.address == a.val.address, b.val.service_name == a.val.service_name)),
                IMP(AND(a.is_none, b.is_some), AND(b.val.authorization_state.is_("NotAuthorized"), b.val.address == me, b.val.service_name == n)))
        S.ensures(r, "ok", "the sender's authorization, address and service stay; a new worker is not authorized", mine)
        S.ensures(r, "ok", "no other worker changes", lambda c: IMP(OR(k._0 != n, k._1 != me), c.new("workers").get(k) == wk.get(k)))
        S.ensures(r, "ok", "nobody's declared chains change", lambda c: c.frame("workers"))
        S.cover(r, "ok", v)


def participants(S):
    """workers become participants of equal weight"""
    r = S.call(SR + "::state::<Participant as TryFrom<Worker>>::try_from", ["worker"])
    w = r.args["worker"]
    S.ensures(r, "ok", "only a bonded worker takes part, under its own address and with weight one", lambda c: AND(
        w.bonding_state.is_("Bonded"), c.ret.address == w.address, c.ret.weight.inner() == 1))
    S.never(r, "err|panic", "a bonded worker takes part", lambda c: w.bonding_state.is_("Bonded"))


def kinds(S):
    """kinds of messages the contracts above do not name, if there are any"""
    own = ["RegisterService", "AuthorizeWorkers", "UnauthorizeWorkers", "DeclareChainSupport", "BondWorker", "UnbondWorker", "ClaimStake"]
    if set(S.kinds(SR, "execute")) <= set(own):
        return
    for v in ("RegisterService", "BondWorker", "DeclareChainSupport"):
        S.entry(SR, "execute", v)
    S.others(SR, own,
             "services", "workers", "workers_per_chain", silent=True)


PARTS = [auth, services, chains, active, bonds, participants, kinds]
