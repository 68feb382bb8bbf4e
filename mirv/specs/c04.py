from specs.common import *

W = "axelar_wasm_std::nonempty::"
R = "connection_router::state::"
T = ("adt", "T", ())


def present(S):
    """nonempty values, whether converted or read from a message, a query's answer or the storage"""
    zero = lambda x: x.inner() == 0
    empty = lambda x: x.inner() == S.str("")
    none = lambda x: x.len == 0
    kinds = {"string::String": (lambda x: x.inner() == S.str(""), ["string::<String as TryFrom<std::string::String>>::try_from", "string::<String as TryFrom<&str>>::try_from",
                                                       "string::<String as FromStr>::from_str"], empty),
             "vec::Vec<T>": (lambda x: x.inner().len == 0, ["vec::<Vec<T> as TryFrom<std::vec::Vec<T>>>::try_from"], none),
             "uint::Uint64": (zero, ["uint::<Uint64 as TryFrom<cosmwasm_std::Uint64>>::try_from", "uint::<Uint64 as TryFrom<u64>>::try_from"], None),
             "uint::Uint128": (zero, ["uint::<Uint128 as TryFrom<cosmwasm_std::Uint128>>::try_from"], None),
             "uint::Uint256": (zero, ["uint::<Uint256 as TryFrom<cosmwasm_std::Uint256>>::try_from", "uint::<Uint256 as TryFrom<cosmwasm_std::Uint128>>::try_from"], None),
             "timestamp::Timestamp": (zero, ["timestamp::<Timestamp as TryFrom<cosmwasm_std::Timestamp>>::try_from"], None)}
    for path, (bad, conv, raw) in kinds.items():
        n = path.split("::")[-1]
        r = S.call("deserialize:" + W + path, ["d"])
        S.ensures(r, "ok", "a nonempty %s that was read is not empty" % n, lambda c: NOT(bad(c.ret)))
        S.never(r, "panic", "reading a nonempty %s does not panic" % n)
        S.cover(r, "ok", "a %s is read" % n)
        for k in conv:
            r = S.call(W + k, ["v"])
            v = r.args["v"]
            S.ensures(r, "ok", "a nonempty %s is what it was made of, and not empty" % n, lambda c: AND(NOT(bad(c.ret)), c.ret.inner() == v))
            S.never(r, "err", "what is not empty is accepted", lambda c: NOT(v.len == 0 if n == "Vec<T>" else v == S.str("") if n == "String" else v.inner() == 0))
            S.never(r, "panic", "conversion does not panic")


def canon(S, x):
    return S.uf("str::to_lowercase", STR, x)


def chain(S):
    colon = S.char(":")
    r = S.call(R + "<ChainName as FromStr>::from_str", ["s"])
    s = r.args["s"]
    ok = AND(NOT(S.uf("str::contains", BOOL, s, colon)), s != S.str(""))
    S.ensures(r, "ok", "a chain name is the lower case of a text that is not empty and has no separator", lambda c: AND(ok, c.ret.inner() == canon(S, s)))
    S.never(r, "err", "such a text is a chain name", lambda c: ok)
    for k, a in ((R + "<ChainName as TryFrom<String>>::try_from", "value"), ("deserialize:" + R + "ChainName", "d")):
        r = S.call(k, [a])
        v = r.args["value"] if a == "value" else S.any("text", STR)
        made = lambda c, x: AND(NOT(S.uf("str::contains", BOOL, x, colon)), x != S.str(""), c.ret.inner() == canon(S, x))
        S.ensures(r, "ok", "every chain name is made that way", lambda c: made(c, v) if a == "value" else exists(v, made(c, v)))
        S.never(r, "panic", "no panic")
    r = S.call(R + "<ChainName as KeyDeserialize>::from_vec", ["value"])
    x = S.uf("un" + "utf8", STR, r.args["value"])
    S.ensures(r, "ok", "a chain name read back from a storage key is the one written", lambda c: IMP(is_chain(S, x), c.ret.inner() == x))
    S.never(r, "err", "a written chain name is read back", lambda c: AND(S.uf("utf8ok", BOOL, r.args["value"]), is_chain(S, x)))
    r = S.call(R + "<ChainName as PartialEq<String>>::eq", ["self", "other"])
    S.ensures(r, "ret", "a chain name is compared with a text by the name the text stands for", lambda c: IFF(c.ret, r.args["self"].inner() == canon(S, r.args["other"])))
    r = S.call(R + "<Address as TryFrom<String>>::try_from", ["value"])
    S.ensures(r, "ok", "an address is its text, and not empty", lambda c: AND(c.ret.inner().inner() == r.args["value"], r.args["value"] != S.str("")))
    S.never(r, "err", "a text that is not empty is an address", lambda c: r.args["value"] != S.str(""))


def is_chain(S, t):
    """the text of a chain name (see above)"""
    return AND(NOT(S.uf("str::contains", BOOL, t, S.char(":"))), t != S.str(""), canon(S, t) == t)


def ids(S):
    r = S.call(R + "<CrossChainId as FromStr>::from_str", ["s"])
    s = r.args["s"]
    t = S.type("connection_router::state::ChainName")
    S.ensures(r, "ok", "an id read from a text has a chain name and a message id that is not empty", lambda c: AND(is_chain(S, c.ret.chain.inner()), c.ret.id.inner() != S.str("")))
    text = lambda a, b: S.uf("fmt:{}:{}", STR, a, b)
    h, m = S.any("chain", STR), S.any("id", STR)
    S.ensures(r, "ok", "the text of an id reads as that id", lambda c: IMP(AND(s == text(h, m), is_chain(S, h)), AND(c.ret.chain.inner() == h, c.ret.id.inner() == m)))
    S.never(r, "err", "the text of an id is not refused", lambda c: AND(s == text(h, m), is_chain(S, h), m != S.str("")))
    h2, m2 = S.any("chain", STR), S.any("id", STR)
    S.lemma("different ids have different texts", IMP(AND(is_chain(S, h), is_chain(S, h2), text(h, m) == text(h2, m2)), AND(h == h2, m == m2)))
    r = S.call(R + "Message::hash", ["self"])
    o = r.args["self"]
    u = lambda x: S.uf("utf8", BYTES, x)
    cc = lambda a, b: S.uf("concat2", BYTES, a, b)
    S.ensures(r, "ret", "the hash of a message is that of its id, its source, its destination and its payload", lambda c: c.ret == S.uf("keccak", BYTES, cc(cc(cc(cc(
        u(text(o.cc_id.chain.inner(), o.cc_id.id.inner())), u(o.source_address.inner().inner())), u(o.destination_chain.inner())), u(o.destination_address.inner().inner())), o.payload_hash)))


def keys(S):
    """what is stored under a chain name, an id, a poll id, a batch id or a kind of key is stored under that one's name alone: each kind of key has a fixed
    number of components (rules.lean: joined_keys), which tell the values apart; and what is listed from the storage is what was stored"""
    key = lambda f, a="self": S.call(f, [a])
    u = lambda x: S.uf("utf8", BYTES, x)
    KT = "cw_storage_plus::helpers::Key"
    one = lambda c, variant, x: AND(c.ret.len == 1, c.ret.at(0).is_(variant), c.ret.at(0).as_(variant)._0 == x)
    for k in ("<ChainName as PrimaryKey>::key", "<ChainName as Prefixer>::prefix"):
        r = key(R + k)
        n = r.args["self"]
        S.ensures(r, "ret", "the key of a chain name is its text", lambda c: one(c, "Ref", u(n.inner())))
        S.never(r, "panic", "no panic")
    r = key(R + "<CrossChainId as PrimaryKey>::key")
    i = r.args["self"]
    S.ensures(r, "ret", "the key of an id is its chain's name and its message id, each on its own", lambda c: AND(
        c.ret.len == 2, c.ret.at(0).is_("Ref"), c.ret.at(1).is_("Ref"), c.ret.at(0).as_("Ref")._0 == u(i.chain.inner()), c.ret.at(1).as_("Ref")._0 == u(i.id.inner())))
    S.never(r, "panic", "no panic")
    r = key(R + "<CrossChainId as KeyDeserialize>::from_vec", "value")
    h, m = S.any("chain", STR), S.any("id", STR)
    b = S.uf("key:join", BYTES, u(h), u(m))
    S.ensures(r, "ok", "an id read back from its key is the one written", lambda c: IMP(AND(r.args["value"] == b, is_chain(S, h)), AND(c.ret.chain.inner() == h, c.ret.id.inner() == m)))
    S.never(r, "err", "an id's key is read back", lambda c: AND(r.args["value"] == b, S.uf("utf8ok", BOOL, u(h)), S.uf("utf8ok", BOOL, u(m)), is_chain(S, h), m != S.str("")))
    r = key("axelar_wasm_std::voting::<PollId as PrimaryKey>::key")
    p = r.args["self"]
    be = lambda x: S.uf("be:u64", BYTES, x)
    S.ensures(r, "ret", "the key of a poll is its number", lambda c: one(c, "Val64", be(p.inner().inner())))
    S.never(r, "panic", "no panic")
    r = key("axelar_wasm_std::voting::<PollId as KeyDeserialize>::from_vec", "value")
    n = S.any("number", U64)
    S.ensures(r, "ok", "a poll id read back from its key is the one written", lambda c: IMP(r.args["value"] == be(n), c.ret.inner().inner() == n))
    r = key("multisig_prover::types::<BatchId as PrimaryKey>::key")
    S.ensures(r, "ret", "the key of a batch is its hash", lambda c: one(c, "Ref", r.args["self"].inner()))
    S.never(r, "panic", "no panic")
    r = key("multisig::key::<KeyType as PrimaryKey>::key")
    t = r.args["self"]
    S.ensures(r, "ret", "each kind of public key has its own key", lambda c: AND(
        c.ret.len == 1, c.ret.at(0).is_("Val8"), S.uf("byteslen", MATH, c.ret.at(0).as_("Val8")._0) == 1,
        S.uf("byteat", MATH, c.ret.at(0).as_("Val8")._0, S.num(0)) == ITE(t.is_("Ed25519"), S.num(1), S.num(0))))
    S.never(r, "panic", "no panic")


PARTS = [present, chain, ids, keys]
