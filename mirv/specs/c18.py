from specs.common import *
import lib
from types_ import tname

MP = "multisig_prover"
WS = "multisig::worker_set::WorkerSet"


def cfg(S):
    return S.old("config").val


def active(S, cf):
    """the service registry's answer about the active workers"""
    q = S.mk(S.type("service_registry::msg::QueryMsg"), "GetActiveWorkers", service_name=cf.service_name, chain_name=cf.chain_name)
    return S.query(cf.service_registry.inner(), q, VEC(S.type("service_registry::state::Worker")))


def pubkey(S, cf, addr):
    """the multisig contract's answer about a worker's key"""
    q = S.mk(S.type("multisig::msg::QueryMsg"), "GetPublicKey", worker_address=addr, key_type=cf.key_type)
    return S.query(cf.multisig.inner(), q, S.type("multisig::key::PublicKey"))


def ws_hash(S, ws):
    return S.uf("keccak", BYTES, S.json(ws))


def ws_id(S, ws):
    return S.uf("hex", STR, ws_hash(S, ws))


def is_active_set(S, c, ws):
    """ws consists of the active workers with their registered keys: [(name, clause)]"""
    cf = cfg(S)
    ok, a = active(S, cf)
    i, k, j = S.any("i", USIZE), S.any("k", STR), S.any("j", USIZE)
    n, d = cf.signing_threshold.numerator._0, cf.signing_threshold.denominator._0
    tot = a.len
    q = ws.threshold
    inr = lambda i: AND(i >= 0, i < a.len)
    one = S.psum(a, lambda x: X(S, z3.IntVal(1), MATH))
    return [
        ("every active worker is in the set, bonded and with its own registered key", IMP(inr(i), (lambda w: AND(
            w.bonding_state.is_("Bonded"), ws.signers.get(w.address.inner()).is_some, pubkey(S, cf, w.address.inner())[0]))(a.at(i))), None),
        ("a signer is an active worker with the key registered for it and weight one", IMP(ws.signers.get(k).is_some, (lambda s: AND(
            s.address.inner() == k, s.weight == 1, s.pub_key == pubkey(S, cf, k)[1], exists(j, AND(inr(j), a.at(j).address.inner() == k))))(ws.signers.get(k).val)), None),
        ("the set's threshold is the share of the total weight the configuration asks for, rounded up", AND(q * d >= tot * n, (q - 1) * d < tot * n),
         [one == tot]),
        ("the set is dated by the current block", ws.created_at == c.height, None),
    ]


def difference(S, a, b):
    """how many signers are in one set only"""
    na, ka = S.entries(a.signers)
    nb, kb = S.entries(b.signers)
    ia, ib = S.any("qa", MATH), S.any("qb", MATH)
    only = lambda n, at, x, nn, m, bb: None
    return S.psum_fn(lambda i: ITE(exists(ib, AND(ib >= 0, ib < nb, b.signers.get(kb(ib)).val == a.signers.get(ka(i)).val)), 0, 1), na) + \
        S.psum_fn(lambda i: ITE(exists(ia, AND(ia >= 0, ia < na, a.signers.get(ka(ia)).val == b.signers.get(kb(i)).val)), 0, 1), nb)


def evm(S, pk):
    """the Ethereum address of a public key"""
    pt = S.uf("k256:point", ("opaque", "k256:Point"), S.uf("k256:key", ("opaque", "k256:PublicKey"), raw(S, pk)), False)
    b = S.uf("k256:pointbytes", BYTES, pt)
    h = S.uf("keccak", BYTES, S.uf("slice:Bytes", BYTES, b, 1, S.uf("byteslen", MATH, b)))
    return S.uf("slice:Bytes", BYTES, h, 12, 32)


def raw(S, pk):
    return ITE(pk.is_("Ecdsa"), pk.as_("Ecdsa")._0, pk.as_("Ed25519")._0)


def dest(S, enc, pk):
    """how the destination chain names a signer"""
    return ITE(enc.is_("Abi"), evm(S, pk), raw(S, pk))


def same_members(S, enc, signers, n, at):
    """the list (addresses and weights) has exactly the signers, in ascending order: [(name, clause)]"""
    m, key = S.entries(signers)
    i, j, e, f = S.any("mi", USIZE), S.any("mj", MATH), S.any("me", MATH), S.any("mf", USIZE)
    is_ = lambda j, s: AND(at(j)[0] == dest(S, enc, s.pub_key), at(j)[1] == s.weight)
    return [
        ("as many members as signers", n == m),
        ("every signer is a member with its weight", IMP(AND(i >= 0, i < m), exists(j, AND(j >= 0, j < n, is_(j, signers.get(key(i)).val))))),
        ("every member is a signer with its weight", IMP(AND(f >= 0, f < n), exists(e, AND(e >= 0, e < m, is_(f, signers.get(key(e)).val))))),
        ("the members are in ascending order", IMP(AND(f >= 0, f < i, i < n), NOT(S.less(at(i)[0], at(f)[0])))),
    ]


PB = ("tuple", (VEC(BYTES), VEC(("int", "u128")), ("int", "u128")))


def transfer(S, enc, cmd, ws):
    """the command hands the gateway over to the set: [(name, clause)]"""
    ok, (ta, tw, tq) = S.abi(cmd.params, 3)
    (oka, a), (okw, w) = S.tokens(ta), S.tokens(tw)
    un = lambda i: S.uf("unh160", BYTES, S.uf("unToken::Address:" + tname(lib.H160), lib.H160, a.at(i)))
    uw = lambda i: S.uf("unToken::Uint:U256", MATH, w.at(i))
    i = S.any("ti", USIZE)
    b = S.uf("unbcs:" + tname(PB), PB, cmd.params)
    abi, bcs = enc.is_("Abi"), enc.is_("Bcs")
    r = [("the command transfers the operatorship under the hash of the set", AND(cmd.__getattr__("ty").is_("TransferOperatorship"), cmd.id == ws_hash(S, ws))),
         ("EVM: the parameters are addresses, weights and the threshold", IMP(abi, AND(
             ok, oka, okw, a.len == w.len, tq == S.uf("Token::Uint:U256", lib.TOKEN, ws.threshold),
             IMP(AND(i >= 0, i < a.len), AND(a.at(i) == S.uf("Token::Address:" + tname(lib.H160), lib.TOKEN, S.uf("h160", lib.H160, un(i))),
                                             w.at(i) == S.uf("Token::Uint:U256", lib.TOKEN, uw(i))))))),
         ("Sui: the parameters are public keys, weights and the threshold", IMP(bcs, AND(
             cmd.params == S.uf("bcs:" + tname(PB), BYTES, b), b._0.len == b._1.len, b._2 == ws.threshold)))]
    r += [("EVM: " + nm, IMP(abi, cl)) for nm, cl in same_members(S, S.mk(enc.ty, "Abi"), ws.signers, a.len, lambda i: (un(i), uw(i)))]
    r += [("Sui: " + nm, IMP(bcs, cl)) for nm, cl in same_members(S, S.mk(enc.ty, "Bcs"), ws.signers, b._0.len, lambda i: (b._0.at(i), b._1.at(i)))]
    return r


DT = ("tuple", (U64, VEC(BYTES), VEC(STR), VEC(BYTES)))


def type_text(S, cmd):
    return ITE(cmd.__getattr__("ty").is_("ApproveContractCall"), S.str("approveContractCall"), S.str("transferOperatorship"))


def encodes(S, enc, e, data):
    """the bytes encode the data, for the chain in question"""
    ok, (tc, ti, tt, tp) = S.abi(e, 4)
    (oki, i_), (okt, t_), (okp, p_) = S.tokens(ti), S.tokens(tt), S.tokens(tp)
    n, i = data.commands.len, S.any("di", USIZE)
    inr, cmd = AND(i >= 0, i < n), data.commands.at(i)
    b = S.uf("unbcs:" + tname(DT), DT, e)
    return AND(
        IMP(enc.is_("Abi"), AND(ok, oki, okt, okp, tc == S.uf("Token::Uint:U256", lib.TOKEN, data.destination_chain_id), i_.len == n, t_.len == n, p_.len == n,
                                IMP(inr, AND(i_.at(i) == S.token("FixedBytes", cmd.id), t_.at(i) == S.token("String", type_text(S, cmd)), p_.at(i) == S.token("Bytes", cmd.params))))),
        IMP(enc.is_("Bcs"), AND(e == S.uf("bcs:" + tname(DT), BYTES, b), b._0 == data.destination_chain_id, b._1.len == n, b._2.len == n, b._3.len == n,
                                IMP(inr, AND(b._1.at(i) == cmd.id, b._2.at(i) == type_text(S, cmd), b._3.at(i) == cmd.params)))))


def digest_of(S, d, batch):
    """d is the digest of the batch, as the destination chain computes it"""
    un = lambda x: S.uf("unkeccak", BYTES, x)
    kc = lambda x: S.uf("keccak", BYTES, x)
    pre = lambda t: S.uf("utf8", BYTES, S.str(t))
    evm_, sui = pre("\x19Ethereum Signed Message:\n32"), pre("\x19Sui Signed Message:\n")
    cut = lambda p: S.uf("unconcat2", BYTES, p, un(d))
    put = lambda p, x: kc(S.uf("concat2", BYTES, p, x))
    enc = batch.encoder
    e = un(cut(evm_))
    return AND(IMP(enc.is_("Abi"), AND(d == put(evm_, kc(e)), encodes(S, S.mk(enc.ty, "Abi"), e, batch.data))),
               IMP(enc.is_("Bcs"), AND(d == put(sui, cut(sui)), encodes(S, S.mk(enc.ty, "Bcs"), cut(sui), batch.data))))


def session(S, c, ws, digest):
    """the request to sign the digest with the set, to be answered"""
    cf = cfg(S)
    m = S.mk(S.type("multisig::msg::ExecuteMsg"), "StartSigningSession", worker_set_id=ws_id(S, ws), msg=digest, chain_name=cf.chain_name, sig_verifier=S.none(STR))
    return S.submsg(S.wasm_exec(cf.multisig.inner(), m), 1, "Success")


def each(S, r, get):
    """one contract per named clause"""
    for nm, _ in get(r.cases[0]):
        S.ensures(r, "ok", nm, lambda c, nm=nm: [x for x in get(c) if x[0] == nm][0][1])


def register(S, ws):
    return S.submsg(S.wasm_exec(cfg(S).multisig.inner(), S.mk(S.type("multisig::msg::ExecuteMsg"), "RegisterWorkerSet", worker_set=ws)))


def first(S):
    """the first set"""
    S.entry(MP, "execute", "ConfirmWorkerSet")
    cur = S.old("current_worker_set")
    r = S.entry(MP, "execute", "UpdateWorkerSet", pre=lambda a: [S.old("current_worker_set").is_none])
    new = lambda c: c.new("current_worker_set")
    S.ensures(r, "ok", "without a set the active workers become the current set", lambda c: new(c).is_some)
    for nm, _, _ in is_active_set(S, r.cases[0], new(r.cases[0]).val):
        get = lambda c, nm=nm: [x for x in is_active_set(S, c, new(c).val) if x[0] == nm][0]
        S.ensures(r, "ok", nm, lambda c, get=get: get(c)[1], steps=lambda c, get=get: get(c)[2] or [])
    S.ensures(r, "ok", "the first set is registered with the multisig contract and nothing else happens", lambda c: AND(
        c.msgs_are(register(S, new(c).val)), c.frame("current_worker_set")))
    S.cover(r, "ok", "two signers", lambda c: S.entries(new(c).val.signers)[0] == 2)


def update(S):
    S.entry(MP, "execute", "ConfirmWorkerSet")
    r = S.entry(MP, "execute", "UpdateWorkerSet", pre=lambda a: [S.old("current_worker_set").is_some])
    cur, nxt = S.old("current_worker_set").val, S.old("next_worker_set")
    new = lambda c: c.new("next_worker_set")
    cf = cfg(S)
    S.ensures(r, "ok", "an update proposes a next set and leaves the current one in place", lambda c: AND(
        new(c).is_some, c.new("current_worker_set") == c.old("current_worker_set"), c.frame("next_worker_set", "command_batch", "reply_tracker")))
    for nm, _, _ in is_active_set(S, r.cases[0], new(r.cases[0]).val):
        get = lambda c, nm=nm: [x for x in is_active_set(S, c, new(c).val) if x[0] == nm][0]
        S.ensures(r, "ok", nm, lambda c, get=get: get(c)[1], steps=lambda c, get=get: get(c)[2] or [])
    S.ensures(r, "ok", "a set is proposed only when more signers changed than the configuration tolerates", lambda c: difference(S, new(c).val, cur) > cf.worker_set_diff_threshold)
    S.ensures(r, "ok", "a proposed set is replaced only by one with the same signers and threshold", lambda c: IMP(nxt.is_some, AND(
        nxt.val.signers == new(c).val.signers, nxt.val.threshold == new(c).val.threshold)))
    # the batch that is signed
    id = lambda c: c.new("reply_tracker").val
    batch = lambda c: c.new("command_batch").get(id(c)).val
    k = S.any("k", S.old("command_batch").keys)
    S.ensures(r, "ok", "the proposal is stored as a batch of its own, the one the reply will be about", lambda c: AND(
        c.new("reply_tracker").is_some, c.new("command_batch").get(id(c)).is_some, IMP(k != id(c), c.new("command_batch").get(k) == c.old("command_batch").get(k)),
        batch(c).id == id(c), batch(c).encoder == cf.encoder, batch(c).message_ids.len == 0, batch(c).data.destination_chain_id == cf.destination_chain_id,
        batch(c).data.commands.len == 1))
    each(S, r, lambda c: transfer(S, cf.encoder, batch(c).data.commands.at(0), new(c).val))
    dg = lambda c: S.unjson(c.msgs.at(0).msg.as_("Wasm")._0.as_("Execute").msg, S.type("multisig::msg::ExecuteMsg")).as_("StartSigningSession").msg
    S.ensures(r, "ok", "the current set, and no other, is asked to sign", lambda c: c.msgs_are(session(S, c, cur, dg(c))))
    S.ensures(r, "ok", "what is to be signed is the digest of the proposal", lambda c: digest_of(S, dg(c), batch(c)))
    S.cover(r, "ok", "proposed on an EVM chain", lambda c: cf.encoder.is_("Abi"))
    S.cover(r, "ok", "proposed on Sui", lambda c: cf.encoder.is_("Bcs"))


def confirm(S):
    r = S.entry(MP, "execute", "ConfirmWorkerSet")
    cf, nxt = cfg(S), S.old("next_worker_set")
    ot, vt = S.type("axelar_wasm_std::operators::Operators"), S.type("voting_verifier::msg::QueryMsg")
    w = nxt.val

    def asked(c):
        """what the verifier was asked: the request and the operators in it"""
        qs = c.queries(BOOL)
        if len(qs) != 1:
            raise Lost("the question whether the worker set is verified")
        return qs[0], S.unjson(qs[0].as_("Wasm")._0.as_("Smart").msg, vt).as_("IsWorkerSetVerified").new_operators
    S.ensures(r, "ok", "a set is confirmed only if one was proposed", lambda c: nxt.is_some)
    S.ensures(r, "ok", "and only if the verifier says that the destination gateway has taken it over", lambda c: AND(
        S.query(cf.voting_verifier.inner(), S.mk(vt, "IsWorkerSetVerified", new_operators=asked(c)[1]), BOOL)[1],
        asked(c)[1].threshold == w.threshold))
    get = lambda c: (lambda l: [("EVM: the verifier is asked about the proposed set: " + nm, IMP(cf.encoder.is_("Abi"), cl)) for nm, cl in same_members(
        S, S.mk(cf.encoder.ty, "Abi"), w.signers, l.len, lambda i: (l.at(i)._0, l.at(i)._1))] + [
        ("Sui: the verifier is asked about the proposed set: " + nm, IMP(cf.encoder.is_("Bcs"), cl)) for nm, cl in same_members(
            S, S.mk(cf.encoder.ty, "Bcs"), w.signers, l.len, lambda i: (l.at(i)._0, l.at(i)._1))])(asked(c)[1].weights_by_addresses)
    oks = [c for c in r.cases if c.kind == "ok"]
    for nm, _ in get(oks[0]):
        S.ensures(r, "ok", nm, lambda c, nm=nm: [x for x in get(c) if x[0] == nm][0][1])
    S.ensures(r, "ok", "the proposed set becomes the current one, nothing stays proposed, and nothing else changes", lambda c: AND(
        c.new("current_worker_set") == nxt, c.new("next_worker_set").is_none, c.frame("current_worker_set", "next_worker_set")))
    S.ensures(r, "ok", "the new current set is registered with the multisig contract", lambda c: c.msgs_are(register(S, w)))
    S.cover(r, "ok", "confirmed")


def others(S):
    S.entry(MP, "execute", "ConfirmWorkerSet")
    S.entry(MP, "execute", "UpdateWorkerSet")
    r = S.entry(MP, "execute", "ConstructProof")
    cur, nxt = S.old("current_worker_set"), S.old("next_worker_set")
    new = lambda c: c.new("next_worker_set")
    cf = cfg(S)
    S.ensures(r, "ok", "constructing a proof leaves the current set in place", lambda c: AND(c.new("current_worker_set") == cur, c.new("config") == c.old("config")))
    ch = lambda c: new(c) != nxt
    S.ensures(r, "ok", "a proof proposes a next set only when more signers changed than the configuration tolerates", lambda c: IMP(ch(c), AND(
        new(c).is_some, cur.is_some, difference(S, new(c).val, cur.val) > cf.worker_set_diff_threshold)))
    S.ensures(r, "ok", "a proposed set is replaced only by one with the same signers and threshold", lambda c: IMP(AND(ch(c), nxt.is_some), AND(
        nxt.val.signers == new(c).val.signers, nxt.val.threshold == new(c).val.threshold)))
    for nm, _, _ in is_active_set(S, r.cases[0], new(r.cases[0]).val):
        get = lambda c, nm=nm: [x for x in is_active_set(S, c, new(c).val) if x[0] == nm][0]
        S.ensures(r, "ok", "proposed with a proof: " + nm, lambda c, get=get: IMP(ch(c), get(c)[1]), steps=lambda c, get=get: get(c)[2] or [])
    dg = lambda c: S.unjson(c.msgs.at(0).msg.as_("Wasm")._0.as_("Execute").msg, S.type("multisig::msg::ExecuteMsg")).as_("StartSigningSession").msg
    S.ensures(r, "ok", "the current set, and no other, is asked to sign a proof", lambda c: AND(cur.is_some, c.msgs_are(session(S, c, cur.val, dg(c)))))
    S.cover(r, "ok", "a next set is proposed", ch)
    r = S.entry(MP, "reply", None)
    S.ensures(r, "ok", "the multisig contract's answer changes no set", lambda c: AND(c.new("current_worker_set") == cur, new(c) == nxt, c.new("config") == c.old("config")))
    r = S.entry(MP, "instantiate", None)
    S.ensures(r, "ok", "there is no set at first, and the configuration is as given", lambda c: AND(c.frame("config"), c.msgs.len == 0, c.new("config").is_some, (lambda n: AND(
        *[getattr(n, a).inner() == getattr(c.msg, a + "_address") for a in ("gateway", "multisig", "service_registry", "voting_verifier", "admin")],
        *[getattr(n, a) == getattr(c.msg, a) for a in ("destination_chain_id", "signing_threshold", "service_name", "worker_set_diff_threshold", "encoder", "key_type")]))(c.new("config").val)))
    r = S.entry(MP, "query", "GetWorkerSet")
    S.ensures(r, "ok", "the current set can be looked up", lambda c: AND(cur.is_some, S.unjson(c.ret, S.type(WS)) == cur.val))


def due(S):
    """when a new set is due, and when it has to wait"""
    r = S.call("multisig_prover::execute::should_update_worker_set", ["new_workers", "cur_workers", "max_diff"])
    a = r.args
    S.ensures(r, "ret", "a new set is due exactly when more signers are in one of the sets only than tolerated", lambda c: IFF(
        c.ret, difference(S, a["new_workers"], a["cur_workers"]) > a["max_diff"]))
    S.entry(MP, "execute", "ConfirmWorkerSet")
    r = S.call("multisig_prover::execute::different_set_in_progress", ["storage", "new_worker_set"])
    nxt, w = S.old("next_worker_set"), r.args["new_worker_set"]
    S.ensures(r, "ret", "a set has to wait exactly when one with other signers or another threshold is proposed", lambda c: IFF(c.ret, AND(
        nxt.is_some, OR(nxt.val.signers != w.signers, nxt.val.threshold != w.threshold))))


def kinds(S):
    """kinds of messages the contracts above do not name, if there are any"""
    own = ["ConstructProof", "UpdateWorkerSet", "ConfirmWorkerSet"]
    if set(S.kinds(MP, "execute")) <= set(own):
        return
    for v in ("ConstructProof", "UpdateWorkerSet", "ConfirmWorkerSet"):
        S.entry(MP, "execute", v)
    S.others(MP, own, "current_worker_set", "next_worker_set", "config")


PARTS = [first, update, confirm, others, due, kinds]
