from specs.common import *

M = "multisig"


def sess(m, i):
    return m.get(i)


def weight(S, sigs, wset, sid):
    """the weight of the signers with a signature in the session"""
    sub = S.sub(sigs, sid)
    return S.msum(sub, lambda k, v: wset.signers.get(k).val.weight)


def inv(S):
    """the invariant of the sessions: stored under their own id, below the counter"""
    i = S.any("iv", U64)
    ss = S.old("signing_sessions")
    return [forall(i, IMP(ss.get(i).is_some, ss.get(i).val.id == i))]


def submit(S):
    S.begin()
    r = S.entry(M, "execute", "SubmitSignature")
    ss, ws, sg = S.old("signing_sessions"), S.old("worker_sets"), S.old("signatures")
    sid = r.m_session_id if hasattr(r, "m_session_id") else r.args["m_session_id"]
    me = ss.get(sid)
    w = ws.get(me.val.worker_set_id)
    return r, me, w, sid, ss, ws, sg


def completion(S):
    r, me, w, sid, ss, ws, sg = submit(S)
    h = r.args["height"]
    own = me.val.id == sid
    pend = me.val.state.is_("Pending")

    def state(c):
        n = c.new("signing_sessions").get(sid)
        tot = weight(S, c.new("signatures"), w.val, sid)
        done = AND(pend, tot >= w.val.threshold)
        return IMP(own, AND(n.is_some, IFF(n.val.state.is_("Completed"), OR(done, NOT(pend))),
                            IMP(done, n.val.state.as_("Completed").completed_at == h), IMP(NOT(pend), n.val.state == me.val.state)))
    S.ensures(r, "ok", "a pending session completes, now, exactly when the signed weight reaches the threshold; a completed one stays as it is", state)
    S.ensures(r, "ok", "the session's id, message and signer set do not change", lambda c: IMP(own, AND(
        (lambda n: AND(n.id == sid, n.msg == me.val.msg, n.worker_set_id == me.val.worker_set_id))(c.new("signing_sessions").get(sid).val))))
    j = S.any("j", U64)
    S.ensures(r, "ok", "no other session changes", lambda c: IMP(AND(own, j != sid), c.new("signing_sessions").get(j) == ss.get(j)))
    S.ensures(r, "ok", "nothing but the session and the signature changes", lambda c: c.frame("signing_sessions", "signatures"))
    S.cover(r, "ok", "a session completes", lambda c: AND(pend, own))
    others(S)


def others(S):
    for v in ("RegisterWorkerSet", "RegisterPublicKey", "AuthorizeCaller", "UnauthorizeCaller"):
        S.begin()
        S.entry(M, "execute", "SubmitSignature")
        r = S.entry(M, "execute", v)
        S.ensures(r, "ok", "no session, signature or session counter is touched", lambda c: AND(
            c.new("signing_sessions") == c.old("signing_sessions"), c.new("signatures") == c.old("signatures"),
            c.frame("worker_sets", "registered_pub_keys", "authorized_callers")))


def start(S):
    S.begin()
    S.entry(M, "execute", "SubmitSignature")
    r = S.entry(M, "execute", "StartSigningSession")
    cnt, ss, ws = S.old("signing_session_counter"), S.old("signing_sessions"), S.old("worker_sets")
    nid = cnt.val.inner() + 1

    def fresh(c):
        n = c.new("signing_sessions").get(nid)
        return AND(n.is_some, n.val.id.inner().t == nid.t, n.val.worker_set_id == c.m_worker_set_id, n.val.msg.inner() == c.m_msg, n.val.state.is_("Pending"))
    S.ensures(r, "ok", "a new session is pending, under the next id, for the given message and signer set", fresh)
    S.ensures(r, "ok", "the counter moves to the new id", lambda c: AND(c.new("signing_session_counter").is_some, c.new("signing_session_counter").val.inner().t == nid.t))
    j = S.any("j", U64)
    S.ensures(r, "ok", "no other session changes", lambda c: IMP(NOT(j.t == nid.t), c.new("signing_sessions").get(j) == ss.get(j)))
    S.ensures(r, "ok", "only the counter and the session change", lambda c: AND(c.frame("signing_sessions", "signing_session_counter"), c.new("signatures") == c.old("signatures")))
    S.ensures(r, "ok", "the signer set of a session is registered, and its message has 32 bytes", lambda c: AND(ws.get(c.m_worker_set_id).is_some, c.m_msg.len == 32))
    S.ensures(r, "ok", "the caller is told the session's id", lambda c: AND(c.data.is_some, c.data.val == S.json(c.new("signing_session_counter").val)))
    S.cover(r, "ok", "a session starts")
    r = S.entry(M, "instantiate")
    S.ensures(r, "ok", "ids start above zero", lambda c: c.new("signing_session_counter").val.inner() == 0)


def views(S):
    S.begin()
    S.entry(M, "execute", "SubmitSignature")
    r = S.entry(M, "query", "GetMultisig")
    ss, ws, sg = S.old("signing_sessions"), S.old("worker_sets"), S.old("signatures")
    me = ss.get(r.args["m_session_id"])
    w = ws.get(me.val.worker_set_id)
    ty = S.type("multisig::msg::Multisig")

    def shown(c):
        v = S.unjson(c.ret, ty)
        n, key = S.entries(w.val.signers)
        i = S.any("i", USIZE)
        sig = sg.get(me.val.id, key(i))
        return AND(me.is_some, w.is_some, v.state == me.val.state, v.quorum == w.val.threshold, v.signers.len == n,
                   IMP(AND(i >= 0, i < n), AND(v.signers.at(i)._0 == w.val.signers.get(key(i)).val, v.signers.at(i)._1 == sig)))
    S.ensures(r, "ok", "a session is shown with its state, its threshold, and every member of its signer set with that member's own signature", shown)
    S.cover(r, "ok", "a session can be queried")


def kinds(S):
    S.entry(M, "execute", "SubmitSignature")
    S.entry(M, "execute", "StartSigningSession")
    S.others(M, ["SubmitSignature", "StartSigningSession"], "signing_sessions", "signatures", "signing_session_counter")


PARTS = [completion, start, views, kinds]
