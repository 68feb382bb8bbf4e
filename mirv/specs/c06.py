from specs.common import *

M = "multisig"


def verified(S, msg, sig, pk):
    """the verification functions of cosmwasm-crypto, applied to the session's message and the signer's registered key"""
    ec, ed = "cosmwasm_crypto::secp256k1_verify", "cosmwasm_crypto::ed25519_verify"
    key = ITE(pk.is_("Ecdsa"), pk.as_("Ecdsa")._0, pk.as_("Ed25519")._0)
    f = lambda n: S.uf(n, BOOL, msg.inner(), sig, key)
    return ITE(pk.is_("Ecdsa"), AND(OR(sig.len == 64, sig.len == 65), f(ec + ":ok"), f(ec)), AND(sig.len == 64, f(ed + ":ok"), f(ed)))


def accept(S):
    r = S.entry(M, "execute", "SubmitSignature")
    ss, ws, sg, cf = S.old("signing_sessions"), S.old("worker_sets"), S.old("signatures"), S.old("config")
    sid, sig, who, h = r.args["m_session_id"].inner(), r.args["m_signature"], r.args["sender"].inner(), r.args["height"]
    me = ss.get(sid)
    w = ws.get(me.val.worker_set_id)
    mine = w.val.signers.get(who)
    pk = mine.val.pub_key
    st = me.val.state
    closed = AND(st.is_("Completed"), st.as_("Completed").completed_at + cf.val.grace_period < h)
    S.ensures(r, "ok", "only a member of the session's signer set is accepted", lambda c: AND(me.is_some, w.is_some, mine.is_some))
    S.ensures(r, "ok", "only a signature that verifies for the session's message under the member's own key is accepted", lambda c: verified(S, me.val.msg, sig, pk))
    S.ensures(r, "ok", "nothing is accepted after the grace period", lambda c: NOT(closed))
    S.ensures(r, "ok", "a member signs a session at most once", lambda c: sg.get(sid, who).is_none)
    other = OR(*[AND(cf.is_some, me.is_some, w.is_some, mine.is_some, NOT(closed), sg.get(sid, who).is_none, verified(S, me.val.msg, sig, pk))])
    S.never(r, "err", "a valid first signature of a member is not refused", lambda c: other)

    def saved(c):
        n = c.new("signatures")
        v = n.get(sid, who)
        s = v.val
        raw = ITE(s.is_("Ecdsa"), s.as_("Ecdsa")._0.inner(), ITE(s.is_("EcdsaRecoverable"), s.as_("EcdsaRecoverable")._0.inner(), s.as_("Ed25519")._0))
        return AND(v.is_some, raw == sig.t, IFF(s.is_("Ed25519"), pk.is_("Ed25519")))
    S.ensures(r, "ok", "the signature is recorded for its signer", saved)
    k = S.any("k", sg.keys)
    S.ensures(r, "ok", "nobody else's signature changes", lambda c: IMP(NOT(AND(k._0 == sid, k._1 == who)), c.new("signatures").get(k) == sg.get(k)))
    S.ensures(r, "ok", "the signer's participation is reported to the rewards contract, and nothing else is sent", lambda c: report(S, c, cf, sid, who))
    S.cover(r, "ok", "an ECDSA signature is accepted", lambda c: pk.is_("Ecdsa"))
    S.cover(r, "ok", "an Ed25519 signature is accepted", lambda c: pk.is_("Ed25519"))
    S.cover(r, "err", "a signature is refused")


def report(S, c, cf, sid, who):
    t = S.type("rewards::msg::ExecuteMsg")
    ev = S.mk(S.type("axelar_wasm_std::nonempty::string::String"), None, _0=S.uf("show:int", STR, sid))
    m = S.mk(t, "RecordParticipation", event_id=ev, worker_address=who)
    return c.msgs_are(S.submsg(S.wasm_exec(cf.val.rewards_contract.inner(), m)))


def verify(S):
    """Signature::verify in isolation"""
    r = S.call("multisig::key::Signature::verify", ["self", "msg", "pub_key"])
    s, pk, m = r.args["self"], r.args["pub_key"], r.args["msg"]
    raw = X(S, ITE(s.is_("Ecdsa"), s.as_("Ecdsa")._0.inner(), ITE(s.is_("EcdsaRecoverable"), s.as_("EcdsaRecoverable")._0.inner(), s.as_("Ed25519")._0)).t, BYTES)
    S.ensures(r, "ok", "a signature is verified only with a key of its own type", lambda c: IFF(s.is_("Ed25519"), pk.is_("Ed25519")))
    key = X(S, ITE(pk.is_("Ecdsa"), pk.as_("Ecdsa")._0, pk.as_("Ed25519")._0).t, BYTES)
    f = lambda n: S.uf("cosmwasm_crypto::" + n, BOOL, m.inner(), raw, key)
    S.ensures(r, "ok", "the answer is the cryptographic verification's", lambda c: IMP(IMP(s.is_("Ed25519"), raw.len == 64), c.ret.t == ITE(pk.is_("Ecdsa"), f("secp256k1_verify"), f("ed25519_verify"))))


def lengths(S):
    for key, names in (("PublicKey", 0), ("Signature", 0)):
        r = S.call("multisig::key::<%s as TryFrom<(KeyType,HexBinary)>>::try_from" % key, ["v"])
        v = r.args["v"]
        kt, b = v._0, v._1
        if key == "PublicKey":
            ok = ITE(kt.is_("Ecdsa"), OR(b.len == 33, b.len == 65), b.len == 32)
            S.ensures(r, "ok", "a key has its type's length", lambda c: AND(ok, IFF(c.ret.is_("Ecdsa"), kt.is_("Ecdsa")), ITE(c.ret.is_("Ecdsa"), c.ret.as_("Ecdsa")._0 == b, c.ret.as_("Ed25519")._0 == b)))
        else:
            ok = ITE(kt.is_("Ecdsa"), OR(b.len == 64, b.len == 65), b.len == 64)
            S.ensures(r, "ok", "a signature has its type's length", lambda c: AND(ok, IFF(c.ret.is_("Ed25519"), kt.is_("Ed25519")), IMP(c.ret.is_("Ed25519"), c.ret.as_("Ed25519")._0 == b),
                                                                               IMP(c.ret.is_("Ecdsa"), AND(b.len == 64, c.ret.as_("Ecdsa")._0.inner() == b)), IMP(c.ret.is_("EcdsaRecoverable"), AND(b.len == 65, c.ret.as_("EcdsaRecoverable")._0.inner() == b))))
        S.never(r, "err", "every key or signature of the right length is taken", lambda c: ok)


def kinds(S):
    S.entry(M, "execute", "SubmitSignature")
    S.others(M, ["SubmitSignature"], "signatures")


PARTS = [accept, verify, lengths, kinds]
