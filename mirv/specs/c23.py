from specs.common import *

O = "axelar_wasm_std::operators::Operators::"


def new(S):
    r = S.call(O + "new", ["members", "threshold"])
    ms = r.args["members"]
    i, j = S.any("i", USIZE), S.any("j", USIZE)
    w = lambda c: c.ret.weights_by_addresses
    inr = lambda x: AND(x >= 0, x < ms.len)
    S.ensures(r, "ret", "the threshold is the one given", lambda c: c.ret.threshold == r.args["threshold"])
    S.ensures(r, "ret", "every member is kept with its weight, each once", lambda c: (lambda q: AND(
        w(c).len == ms.len, IMP(inr(i), AND(inr(q(i)), w(c).at(q(i)) == ms.at(i))), IMP(AND(inr(i), inr(j), i != j), q(i) != q(j))))(S.rank(w(c))))
    S.ensures(r, "ret", "members are kept in ascending order of their addresses", lambda c: IMP(
        AND(0 <= i, i < j, j < ms.len), NOT(S.less(w(c).at(j)._0, w(c).at(i)._0))))
    S.never(r, "panic", "no panic")


def hash_(S):
    r = S.call(O + "hash", ["self"])
    o = r.args["self"]
    w = o.weights_by_addresses
    digest = lambda l, th: S.uf("keccak", BYTES, S.uf("concat2", BYTES, S.json(l), S.uf("be:Uint256", BYTES, th)))
    S.ensures(r, "ret", "the hash is that of the members and their weights, in order, and the threshold", lambda c: c.ret == digest(w, o.threshold))
    l, th = S.any("members", w.ty), S.any("threshold", o.threshold.ty)
    S.ensures(r, "ret", "operators with the same hash have the same members, weights and threshold", lambda c: IMP(
        AND(c.ret == digest(l, th), S.uf("byteslen", MATH, S.uf("be:Uint256", BYTES, th)) == 32), AND(l == w, th == o.threshold)))
    S.never(r, "panic", "no panic")


PARTS = [new, hash_]
