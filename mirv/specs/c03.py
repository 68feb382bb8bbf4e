from specs.common import *

T_ = "axelar_wasm_std::threshold::"


def spec(S):
    U = ("int", "Uint64")
    for key, names in ((T_ + "<Threshold as TryFrom<(Uint64,Uint64)>>::try_from", ["v"]), (T_ + "<Threshold as TryFrom<(u64,u64)>>::try_from", ["v"])):
        r = S.call(key, names)
        v = r.args["v"]
        ok = AND(v._0 > 0, v._1 > 0, v._0 <= v._1)
        S.ensures(r, "ok", "a threshold lies in (0,1]", lambda c: AND(ok, c.ret.numerator._0 == v._0.t, c.ret.denominator._0 == v._1.t))
        S.ensures(r, "err", "a fraction in (0,1] is a threshold", lambda c: NOT(ok))
        S.never(r, "panic", "no panic")
        S.cover(r, "ok", "reachable")
    r = S.call(T_ + "<Threshold as TryFrom<(nonempty::Uint64,nonempty::Uint64)>>::try_from", ["v"])
    S.ensures(r, "ok", "a threshold is at most one", lambda c: AND(c.v._0._0 <= c.v._1._0, c.ret.numerator == c.v._0, c.ret.denominator == c.v._1))
    S.ensures(r, "err", "a fraction up to one is a threshold", lambda c: c.v._0._0 > c.v._1._0)
    r = S.call(T_ + "<MajorityThreshold as TryFrom<Threshold>>::try_from", ["v"], pre=lambda a: [a["v"].denominator._0 > 0, a["v"].numerator._0 > 0])
    v = r.args["v"]
    ok = v.numerator._0 * 2 > v.denominator._0
    S.ensures(r, "ok", "a majority threshold is above one half", lambda c: AND(ok, c.ret.numerator == v.numerator, c.ret.denominator == v.denominator))
    S.ensures(r, "err", "a threshold above one half is a majority", lambda c: NOT(ok))
    S.never(r, "panic", "no panic")
    S.cover(r, "ok", "reachable")
    S.cover(r, "err", "reachable")
    r = S.call(T_ + "<Threshold as PartialOrd>::partial_cmp", ["a", "b"])
    a, b = r.args["a"], r.args["b"]
    l, rr = a.numerator._0 * b.denominator._0, b.numerator._0 * a.denominator._0
    S.ensures(r, "ret", "thresholds compare as fractions", lambda c: AND(c.ret.is_some, c.ret.val.is_("Less") == (l < rr), c.ret.val.is_("Greater") == (l > rr)))

    # snapshot
    r = S.call("axelar_wasm_std::snapshot::Snapshot::new", ["threshold", "participants"], pre=lambda a: pre(S, a))
    ps = r.args["participants"]._0
    t = r.args["threshold"]
    tot, at = total(S, ps)
    n, d = t.numerator._0, t.denominator._0
    q = lambda c: c.ret.quorum._0
    S.ensures(r, "ret", "the quorum is the threshold share of the total weight, rounded up", lambda c: AND(
        q(c) * d >= tot * n, (q(c) - 1) * d < tot * n))
    S.ensures(r, "ret", "the quorum is more than half of the total weight and at most all of it", lambda c: AND(2 * q(c) > tot, q(c) <= tot, q(c) > 0),
              steps=lambda c: [tot > 0, AND(q(c) * d >= tot * n, (q(c) - 1) * d < tot * n)])
    i, k = S.any("i", USIZE), S.any("k", STR)
    S.ensures(r, "ret", "every participant is in the snapshot under its address", lambda c: IMP(
        AND(i >= 0, i < ps.len), AND(c.ret.participants.get(ps.at(i).address).is_some,
                                      IMP(distinct(S, ps), c.ret.participants.get(ps.at(i).address).val == ps.at(i)))))
    S.ensures(r, "ret", "nobody else is in the snapshot", lambda c: IMP(c.ret.participants.get(k).is_some, exists(
        i, AND(i >= 0, i < ps.len, ps.at(i).address == k, ps.at(i) == c.ret.participants.get(k).val))))
    S.cover(r, "ret", "reachable")
    S.never(r, "panic", "no panic while the total fits its type", lambda c: tot * n < 2**256,
            steps=lambda c: [tot > 0, tot * n >= tot, tot * n > 0])


def distinct(S, ps):
    i, j = S.any("i", USIZE), S.any("j", USIZE)
    return forall([i, j], IMP(AND(i >= 0, j >= 0, i < ps.len, j < ps.len, i != j), ps.at(i).address != ps.at(j).address))


def total(S, ps):
    return S.psum(ps, lambda p: p.weight._0), None


def pre(S, a):
    ps = a["participants"]._0
    t = a["threshold"]
    i = S.any("pi", USIZE)
    return [ps.len > 0, forall(i, IMP(AND(i >= 0, i < ps.len), ps.at(i).weight._0 > 0)),
            t.numerator._0 > 0, t.denominator._0 > 0, t.numerator._0 <= t.denominator._0, t.numerator._0 * 2 > t.denominator._0]
