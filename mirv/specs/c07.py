from specs.common import *

M = "multisig"


def access(S):
    r = S.entry(M, "execute", "StartSigningSession")
    ac = S.old("authorized_callers")
    S.ensures(r, "ok", "only an authorized caller starts a signing session", lambda c: ac.get(c.sender.inner()).is_some)
    S.cover(r, "ok", "a session starts")
    for v, on in (("AuthorizeCaller", True), ("UnauthorizeCaller", False)):
        r = S.entry(M, "execute", v)
        cf, ac = S.old("config"), S.old("authorized_callers")
        S.ensures(r, "ok", "only governance changes the authorized callers", lambda c: AND(cf.is_some, c.sender == cf.val.governance))
        S.never(r, "err", "governance is not refused", lambda c: AND(cf.is_some, c.sender == cf.val.governance))
        k = S.any("k", ac.keys)
        S.ensures(r, "ok", "exactly the named caller changes", lambda c: ITE(
            k == c.m_contract_address.inner(), c.new("authorized_callers").get(k).is_some == z3.BoolVal(on), c.new("authorized_callers").get(k) == ac.get(k)))
        S.ensures(r, "ok", "nothing else changes", lambda c: AND(c.frame("authorized_callers"), c.msgs_are()))
        S.cover(r, "ok", "governance acts")
        S.cover(r, "err", "others are refused")
    for v in ("SubmitSignature", "RegisterWorkerSet", "RegisterPublicKey", "StartSigningSession"):
        r = S.entry(M, "execute", v)
        S.ensures(r, "ok", "the authorized callers and the configuration stay", lambda c: AND(c.new("authorized_callers") == ac, c.new("config") == cf))


def keys(S):
    S.entry(M, "execute", "SubmitSignature")
    r = S.entry(M, "execute", "RegisterPublicKey")
    pk = S.old("registered_pub_keys")
    kt = S.type("multisig::key::KeyType")
    k = S.any("k", pk.keys)

    def reg(c):
        p = c.m_public_key
        mine = AND(k._0.inner() == c.sender.inner(), IFF(k._1.is_("Ecdsa"), p.is_("Ecdsa")))
        raw = ITE(p.is_("Ecdsa"), p.as_("Ecdsa")._0, p.as_("Ed25519")._0)
        n = c.new("registered_pub_keys").get(k)
        return ITE(mine, AND(n.is_some, n.val == raw), n == pk.get(k))
    S.ensures(r, "ok", "a key is registered for its sender and its type, and for nobody else", reg)
    S.ensures(r, "ok", "registering a key changes nothing else", lambda c: AND(c.frame("registered_pub_keys"), c.msgs_are()))
    S.never(r, "err|panic", "anybody may register a key")
    r = S.entry(M, "query", "GetPublicKey")
    wk, ty = r.args["m_worker_address"], r.args["m_key_type"]

    def got(c):
        v = S.unjson(c.ret, S.type("multisig::key::PublicKey"))
        return AND(pk.get(wk, ty).is_some, IFF(v.is_("Ecdsa"), ty.is_("Ecdsa")),
                   ITE(v.is_("Ecdsa"), v.as_("Ecdsa")._0, v.as_("Ed25519")._0) == pk.get(wk, ty).val)
    S.ensures(r, "ok", "a worker's registered key is what is returned", got)
    S.cover(r, "ok", "a key is returned")
    for v in ("SubmitSignature", "RegisterWorkerSet", "AuthorizeCaller", "UnauthorizeCaller", "StartSigningSession"):
        r = S.entry(M, "execute", v)
        S.ensures(r, "ok", "nothing else registers a key", lambda c: c.new("registered_pub_keys") == pk)


def sets(S):
    S.entry(M, "execute", "SubmitSignature")
    ws = S.old("worker_sets")
    wt = ws.ty[2][1]
    a = S.any("ka", STR)
    ids = []
    q = S.call("multisig::worker_set::WorkerSet::id", ["self"])
    q2 = S.call("multisig::worker_set::WorkerSet::id", ["self"])
    c1, c2 = q.of("ret")[0], q2.of("ret")[0]
    S.ensures(q, "ret", "signer sets with the same id are the same signer set (collision-free hash)",
              lambda c: IMP(c.ret == c2.ret, c.self == c2.self if False else c.args["self"] == q2.args["self"]))
    S.never(q, "panic", "every signer set has an id")
    hid = lambda x: X(S, z3.substitute(c1.ret.t, (q.args["self"].t, x.t)), STR)
    r = S.entry(M, "execute", "RegisterWorkerSet", pre=lambda args: [forall(a, IMP(ws.get(a).is_some, hid(ws.get(a).val) == a))])
    k = S.any("k", STR)
    S.ensures(r, "ok", "a signer set is registered under its own id", lambda c: c.new("worker_sets").get(hid(c.m_worker_set)) == S.some(c.m_worker_set))
    S.ensures(r, "ok", "every registered signer set stays under its own id", lambda c: IMP(c.new("worker_sets").get(k).is_some, hid(c.new("worker_sets").get(k).val) == k))
    S.ensures(r, "ok", "a registered signer set never changes", lambda c: IMP(ws.get(k).is_some, c.new("worker_sets").get(k) == ws.get(k)))
    S.ensures(r, "ok", "registering a signer set changes nothing else", lambda c: AND(c.frame("worker_sets"), c.msgs_are()))
    S.never(r, "err|panic", "any signer set can be registered")
    r = S.entry(M, "query", "GetWorkerSet")
    S.ensures(r, "ok", "the registered signer set is what is returned", lambda c: S.some(S.unjson(c.ret, wt)) == ws.get(c.m_worker_set_id))
    for v in ("SubmitSignature", "RegisterPublicKey", "AuthorizeCaller", "UnauthorizeCaller", "StartSigningSession"):
        r = S.entry(M, "execute", v)
        S.ensures(r, "ok", "nothing else registers a signer set", lambda c: c.new("worker_sets") == ws)


def init(S):
    S.entry(M, "execute", "SubmitSignature")
    r = S.entry(M, "instantiate")
    S.ensures(r, "ok", "the configuration is the given one", lambda c: (lambda v: AND(
        v.governance.inner() == c.m_governance_address, v.rewards_contract.inner() == c.m_rewards_address, v.grace_period == c.m_grace_period))(c.new("config").val))
    S.ensures(r, "ok", "nobody is authorized at the start", lambda c: c.frame("config", "signing_session_counter"))


def kinds(S):
    for v in ("AuthorizeCaller", "RegisterPublicKey", "RegisterWorkerSet"):
        S.entry(M, "execute", v)
    S.others(M, ["AuthorizeCaller", "UnauthorizeCaller"], "authorized_callers", "config")
    S.others(M, ["RegisterPublicKey"], "registered_pub_keys")
    S.others(M, ["RegisterWorkerSet"], "worker_sets")


PARTS = [access, keys, sets, init, kinds]
