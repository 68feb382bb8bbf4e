from specs.common import *

R = "rewards"
U128 = None


def amt(m, k):
    return ITE(m.get(k).is_some, m.get(k).val, 0)


def merge(S):
    r = S.call("rewards::contract::execute::merge_rewards", ["rewards_1", "rewards_2"])
    a, b = r.args["rewards_1"], r.args["rewards_2"]
    k = S.any("k", STR)
    S.ensures(r, "ret", "merging adds the amounts worker by worker", lambda c: AND(
        IFF(c.ret.get(k).is_some, OR(a.get(k).is_some, b.get(k).is_some)), amt(c.ret, k) == amt(a, k) + amt(b, k)))
    S.never(r, "panic", "no panic while the sums fit", lambda c: forall(k, amt(a, k) + amt(b, k) < 2**128))


def eligible(t, k):
    """the worker took part in at least the threshold share of the epoch's events"""
    p, n, th = t.participation.get(k), t.event_count, t.params.participation_threshold
    return AND(p.is_some, p.val > 0, p.val <= n, p.val * th.denominator.inner() >= n * th.numerator.inner())


def share(S):
    r = S.call("rewards::state::EpochTally::rewards_by_worker", ["self"])
    t = r.args["self"]
    n = S.msum(t.participation, lambda k, v: X(S, ITE(eligible(t, k), 1, 0), MATH))
    total = t.params.rewards_per_epoch.inner()
    k = S.any("k", STR)
    S.ensures(r, "ret", "exactly the eligible workers are rewarded, unless the share is nothing", lambda c: AND(
        IMP(c.ret.get(k).is_some, eligible(t, k)), IMP(AND(eligible(t, k), n > 0, total >= n), c.ret.get(k).is_some)))
    S.ensures(r, "ret", "every rewarded worker gets the epoch's rewards divided by the number of eligible workers, rounded down", lambda c: IMP(
        c.ret.get(k).is_some, AND(n > 0, c.ret.get(k).val * n <= total, total < (c.ret.get(k).val + 1) * n, c.ret.get(k).val > 0)))
    S.never(r, "panic", "no panic")


def bounds(S, a):
    p, wm = S.old("params").val, S.old("rewards_watermarks")
    lu, d = p.last_updated, p.params.epoch_duration.inner()
    cur = lu.epoch_num + (a["height"] - lu.block_height_started) // d
    me = a["m_contract_address"]
    w = wm.get(me)
    frm = ITE(w.is_some, w.val + 1, 0)
    lim = ITE(a["m_epoch_count"].is_some, a["m_epoch_count"].val, 10)
    last = frm + lim - 1
    return frm, ITE(last < cur - 2, last, ITE(cur >= 2, cur - 2, 0)), cur


def distribute(S):
    S.entry(R, "execute", "RecordParticipation")
    share_ = S.modular("rewards::state::EpochTally::rewards_by_worker")
    k = S.any("k", STR)

    def merged(a, r):
        kk = z3.Const("mk", S.eng.ty.sort(STR))
        x = X(S, kk, STR)
        return [z3.ForAll([kk], tb(AND(IFF(r.get(x).is_some, OR(a[0].get(x).is_some, a[1].get(x).is_some)), amt(r, x) == amt(a[0], x) + amt(a[1], x))),
                          patterns=[z3.Select(r.t, kk)])]
    S.modular("rewards::contract::execute::merge_rewards", merged)
    st = {}

    def each(mt):
        ta = S.old("tallies")
        wm = S.old("rewards_watermarks")
        w = wm.get(st["me"])
        frm = ITE(w.is_some, w.val + 1, 0)
        def at(i):
            t = ta.get(st["me"], frm + i)
            return ITE(t.is_some, amt(share_(mt, t.val), k), 0)
        return at
    S.invariant("a worker's total is the sum of its shares in the epochs so far", lambda ty: ty[0] == "adt" and ty[1] == "Map",
                lambda v, j: amt(v, k) == S.psum_fn(each(v.ty), j))
    r = S.entry(R, "execute", "DistributeRewards", pre=lambda a: st.update(me=X(S, z3.simplify(a["msg"].as_("DistributeRewards").contract_address.t), STR)))
    me = r.args["m_contract_address"]
    frm, to, cur = bounds(S, r.args)
    S.ensures(r, "ok", "epochs are paid only once two more epochs have passed", lambda c: AND(cur >= 2, frm <= to, to <= cur - 2))
    S.ensures(r, "ok", "the watermark moves to the last paid epoch, as far as the limit and the delay allow", lambda c: (lambda n: AND(n.is_some, n.val == to))(c.new("rewards_watermarks").get(me)))
    q = S.any("q", S.old("pools").keys)
    S.ensures(r, "ok", "no other contract's watermark or pool changes", lambda c: IMP(AND(q != me, IMP(S.old("pools").get(me).is_some, S.old("pools").get(me).val.contract == me)), AND(
        c.new("rewards_watermarks").get(q) == S.old("rewards_watermarks").get(q), c.new("pools").get(q) == S.old("pools").get(q))))
    S.ensures(r, "ok", "nothing else changes", lambda c: c.frame("rewards_watermarks", "pools"))
    cf = S.old("config").val
    i = S.any("i", USIZE)
    inr = lambda c: AND(i >= 0, i < c.msgs.len)
    bank = lambda c, j: c.msgs.at(j).msg.as_("Bank")._0.as_("Send")
    total = lambda c: S.psum_fn(each(mt), to - frm + 1)
    mt = ("adt", "Map", (STR, ("int", "Uint128")))
    S.ensures(r, "ok", "every message sends one coin of the rewards denomination, with no reply", lambda c: IMP(inr(c), (lambda m: AND(
        m == S.submsg(S.bank_send(bank(c, i).to_address, S.coin(cf.rewards_denom, bank(c, i).amount.at(0).amount)))))(c.msgs.at(i))))
    S.ensures(r, "ok", "a worker is sent the sum of its shares of the paid epochs, exactly", lambda c: IMP(
        AND(inr(c), bank(c, i).to_address == k), bank(c, i).amount.at(0).amount == total(c)))
    S.ensures(r, "ok", "every worker with a share is paid", lambda c: IMP(total(c) > 0, exists(i, AND(inr(c), bank(c, i).to_address == k))))
    S.ensures(r, "ok", "nobody is paid twice", lambda c: (lambda j: IMP(AND(inr(c), j > i, j < c.msgs.len), bank(c, i).to_address != bank(c, j).to_address))(S.any("j", USIZE)))
    old, new = S.old("pools").get(me), lambda c: c.new("pools").get(me)
    S.ensures(r, "ok", "the pool shrinks by exactly what is sent", lambda c: AND(
        new(c).is_some, IMP(old.val.contract == me, new(c).val.balance + S.psum_fn(lambda j: bank(c, j).amount.at(0).amount, c.msgs.len) == ITE(old.is_some, old.val.balance, 0))))
    S.cover(r, "ok", "rewards are distributed")


def add(S):
    r = S.entry(R, "execute", "AddRewards")
    po, cf = S.old("pools"), S.old("config")
    to, f = r.args["m_contract_address"], r.args["funds"]
    good = AND(f.len == 1, f.at(0).denom == cf.val.rewards_denom, f.at(0).amount > 0)
    S.ensures(r, "ok", "rewards are added only with exactly one coin, of the rewards denomination, and not zero", lambda c: good)
    old = ITE(po.get(to).is_some, po.get(to).val.balance, 0)
    own = IMP(po.get(to).is_some, po.get(to).val.contract == to)
    S.ensures(r, "ok", "the pool of the named contract grows by exactly the coin's amount", lambda c: IMP(own, (lambda n: AND(
        n.is_some, n.val.contract == to, n.val.balance == old + f.at(0).amount))(c.new("pools").get(to))))
    k = S.any("k", po.keys)
    S.ensures(r, "ok", "no other pool changes", lambda c: IMP(AND(own, k != to), c.new("pools").get(k) == po.get(k)))
    S.ensures(r, "ok", "adding rewards touches nothing else and sends nothing", lambda c: AND(c.frame("pools"), c.msgs.len == 0))
    S.never(r, "err", "good rewards are not refused", lambda c: AND(good, S.uf("valid_addr", BOOL, to)))
    S.cover(r, "ok", "rewards are added")
    S.cover(r, "err", "refused")


def kinds(S):
    S.entry(R, "execute", "DistributeRewards")
    S.others(R, ["DistributeRewards"], "rewards_watermarks", silent=True)
    S.others(R, ["DistributeRewards", "AddRewards"], "pools")


PARTS = [merge, share, distribute, add, kinds]
