from specs.common import *

SR = "service_registry"


def held(w):
    """what a worker's record says it has at stake"""
    b = w.val.bonding_state
    return ITE(w.is_none, 0, ITE(b.is_("Bonded"), b.as_("Bonded").amount, ITE(b.is_("RequestedUnbonding"), b.as_("RequestedUnbonding").amount,
               ITE(b.is_("Unbonding"), b.as_("Unbonding").amount, 0))))


def parts(S, v):
    r = S.entry(SR, "execute", v)
    sv, wk = S.old("services"), S.old("workers")
    n, me = r.args["m_service_name"], r.args["sender"]
    return r, sv.get(n), wk.get(n, me), wk, lambda c: c.new("workers").get(n, me)


def others(S, r, wk):
    k = S.any("k", wk.keys)
    n, me = r.args["m_service_name"], r.args["sender"]
    return lambda c: AND(IMP(NOT(AND(k._0 == n, k._1.inner() == me.inner())), c.new("workers").get(k) == wk.get(k)), c.frame("workers"))


def same(a, b):
    """everything but the stake"""
    return AND(a.address == b.address, a.authorization_state == b.authorization_state, a.service_name == b.service_name)


def bond(S):
    r, s, w, wk, nw = parts(S, "BondWorker")
    f = r.args["funds"]
    own = OR(f.len == 0, AND(f.len == 1, f.at(0).denom == s.val.bond_denom))
    paid = ITE(f.len == 0, 0, f.at(0).amount)
    S.ensures(r, "ok", "only a registered service's own coin is taken", lambda c: AND(s.is_some, own))
    S.ensures(r, "ok", "the worker's stake grows by exactly what it sent, and is bonded", lambda c: AND(
        nw(c).is_some, nw(c).val.bonding_state.is_("Bonded"), nw(c).val.bonding_state.as_("Bonded").amount == held(w) + paid))
    S.ensures(r, "ok", "bonding authorizes nobody, and a new worker is recorded under its own address", lambda c: ITE(w.is_some, same(nw(c).val, w.val), AND(
        nw(c).val.address == c.sender, nw(c).val.service_name == c.m_service_name, nw(c).val.authorization_state.is_("NotAuthorized"))))
    S.ensures(r, "ok", "no other worker and nothing else changes, and nothing is sent", lambda c: AND(others(S, r, wk)(c), c.msgs.len == 0))
    S.never(r, "err", "bonding a stake is not refused", lambda c: AND(s.is_some, own, held(w) + paid > 0))
    S.cover(r, "ok", "a new worker", lambda c: AND(w.is_none, f.len == 1))
    S.cover(r, "ok", "unbonding funds are bonded again", lambda c: AND(w.val.bonding_state.is_("Unbonding"), f.len == 0))
    S.cover(r, "err", "refused")


def unbond(S):
    r, s, w, wk, nw = parts(S, "UnbondWorker")
    b = w.val.bonding_state
    may = AND(s.is_some, w.is_some, OR(b.is_("Bonded"), b.is_("RequestedUnbonding")))
    S.ensures(r, "ok", "only a bonded worker's stake is unbonded", lambda c: may)
    S.never(r, "err|panic", "a bonded worker is not refused", lambda c: may)
    S.ensures(r, "ok", "the whole stake starts unbonding at this moment", lambda c: (lambda n: AND(n.is_("Unbonding"), n.as_("Unbonding").amount == held(w),
              n.as_("Unbonding").unbonded_at == c.env.block.time))(nw(c).val.bonding_state))
    S.ensures(r, "ok", "the worker's record is otherwise as it was", lambda c: AND(nw(c).is_some, same(nw(c).val, w.val)))
    S.ensures(r, "ok", "no other worker and nothing else changes, and nothing is sent", lambda c: AND(others(S, r, wk)(c), c.msgs.len == 0))
    S.cover(r, "ok", "unbonded")


def claim(S):
    r, s, w, wk, nw = parts(S, "ClaimStake")
    b = w.val.bonding_state
    due = b.as_("Unbonding").unbonded_at.inner() + s.val.unbonding_period_days * 86400000000000
    may = AND(s.is_some, w.is_some, b.is_("Unbonding"), due <= r.args["env"].block.time.inner())
    S.ensures(r, "ok", "a stake is paid out only after its full unbonding period", lambda c: may)
    S.never(r, "err|panic", "a stake whose unbonding period is over can be claimed", lambda c: may)
    S.ensures(r, "ok", "the claimed stake is gone from the worker's record, which is otherwise as it was", lambda c: AND(
        nw(c).is_some, nw(c).val.bonding_state.is_("Unbonded"), same(nw(c).val, w.val)))
    S.ensures(r, "ok", "exactly the stake is sent, to its worker, in the service's coin", lambda c: c.msgs_are(S.submsg(S.bank_send(
        c.sender, S.coin(s.val.bond_denom, held(w))))))
    S.ensures(r, "ok", "no other worker and nothing else changes", others(S, r, wk))
    S.cover(r, "ok", "claimed")


def rest(S):
    for v in ("BondWorker", "UnbondWorker", "ClaimStake"):
        S.entry(SR, "execute", v)
    wk, sv = S.old("workers"), S.old("services")
    k, q = S.any("k", wk.keys), S.any("q", sv.keys)

    def kept(a, n):
        return AND(IMP(a.is_some, AND(n.is_some, n.val.bonding_state == a.val.bonding_state)), IMP(AND(a.is_none, n.is_some), n.val.bonding_state.is_("Unbonded")))
    S.invariant("stakes are kept", lambda ty: ty == wk.ty, lambda v, j: kept(wk.get(k), v.get(k)))
    for v in ("RegisterService", "AuthorizeWorkers", "UnauthorizeWorkers", "DeclareChainSupport"):
        r = S.entry(SR, "execute", v)
        S.ensures(r, "ok", "no other message changes a stake or sends funds", lambda c: AND(c.msgs.len == 0, kept(wk.get(k), c.new("workers").get(k))))
        S.ensures(r, "ok", "a registered service keeps its coin, its bond and its unbonding period", lambda c: IMP(sv.get(q).is_some, c.new("services").get(q) == sv.get(q)))
    r = S.call("service_registry::state::BondingState::add_bond", ["self", "to_add"])
    S.never(r, "err", "a stake can be added to", lambda c: c.to_add.inner() > 0)


def kinds(S):
    """kinds of messages the contracts above do not name, if there are any"""
    own = ["RegisterService", "AuthorizeWorkers", "UnauthorizeWorkers", "DeclareChainSupport", "BondWorker", "UnbondWorker", "ClaimStake"]
    if set(S.kinds(SR, "execute")) <= set(own):
        return
    for v in ("RegisterService", "BondWorker", "DeclareChainSupport"):
        S.entry(SR, "execute", v)
    S.others(SR, own,
             "services", "workers", "workers_per_chain", silent=True)


PARTS = [bond, unbond, claim, rest, kinds]
