from specs.common import *
import lib
from types_ import tname
from specs import c18
from specs.c18 import MP, cfg, raw, dest, digest_of, session, transfer, encodes, each

IDS = VEC(("adt", "connection_router::state::CrossChainId", ()))


def id_text(S, cc):
    return S.uf("fmt:{}:{}", STR, cc.chain.inner(), cc.id.inner())


def bytes_of(S, x):
    return S.uf("utf8", BYTES, x)


def messages(S, c):
    """the gateway's answer about the requested messages"""
    q = S.mk(S.type("gateway::msg::QueryMsg"), "GetMessages", message_ids=c.m_message_ids)
    return S.query(cfg(S).gateway.inner(), q, VEC(S.type("connection_router::state::Message")))


def is_id_of(S, id, n, cc, extra=None):
    """id is the hash of the ids' texts in ascending order, separated by commas, with the hash of the worker set after them"""
    i, j = S.any("ii", MATH), S.any("ij", MATH)
    inr = lambda k: AND(k >= 0, k < n)
    m = n if extra is None else n + 1

    def of(s):
        joined = S.uf("join", STR, s, S.str(","))
        q = S.rank(s)
        shown = lambda i, j: AND(inr(j), s.at(j) == id_text(S, cc(i)))
        return AND(
            id.inner() == S.uf("keccak", BYTES, bytes_of(S, joined)), s.len == m,
            forall([i, j], IMP(AND(i >= 0, i < j, j < n), NOT(S.less(s.at(j), s.at(i))))),
            forall(i, IMP(inr(i), shown(i, q(i)) if q else exists(j, shown(i, j)))),
            forall(j, IMP(inr(j), exists(i, AND(inr(i), shown(i, j))))),
            True if extra is None else s.at(n) == extra)
    ws = S.args_of(id, "join")
    if ws:
        return OR(*[of(X(S, w, VEC(STR))) for w in ws])
    s = S.any("texts", VEC(STR))
    return exists(s, of(s))


MT = ("tuple", (STR, STR, BYTES, BYTES))


def approves(S, enc, cmd, m):
    """the command approves the message: [(name, clause)]"""
    ok, (tc, ts, td, th, te, tz) = S.abi(cmd.params, 6)
    h160 = S.uf("parse:H160", lib.H160, m.destination_address.inner())
    hexd = lambda x: S.uf("unhexlike", BYTES, x)
    dst = m.destination_address.inner()
    bare = S.uf("str::strip_prefix", STR, dst, S.str("0x"))
    return [
        ("a message's command approves a call under the hash of the message's id", AND(
            cmd.__getattr__("ty").is_("ApproveContractCall"), cmd.id == S.uf("keccak", BYTES, bytes_of(S, id_text(S, m.cc_id))))),
        ("EVM: the command names source chain, source address, destination contract and payload hash of the message", IMP(enc.is_("Abi"), AND(
            ok, tc == S.token("String", m.cc_id.chain.inner()), ts == S.token("String", m.source_address.inner()), td == S.token("Address", h160),
            th == S.token("FixedBytes", m.payload_hash)))),
        ("Sui: the command names source chain, source address, destination and payload hash of the message", IMP(enc.is_("Bcs"), (lambda b: AND(
            cmd.params == S.uf("bcs:" + tname(MT), BYTES, b), b._0 == m.cc_id.chain.inner(), b._1 == m.source_address.inner(),
            OR(b._2 == hexd(dst), b._2 == hexd(bare)), b._3 == m.payload_hash))(S.uf("unbcs:" + tname(MT), MT, cmd.params)))),
    ]


def setup(S):
    S.entry(MP, "execute", "ConfirmWorkerSet")
    S.entry(MP, "execute", "UpdateWorkerSet")
    S.entry(MP, "reply", None)


def construct(S):
    setup(S)
    old = S.old("command_batch")
    b = S.any("b", old.keys)
    r = S.entry(MP, "execute", "ConstructProof", pre=lambda a: [forall(b, IMP(old.get(b).is_some, old.get(b).val.id == b))])
    cf = cfg(S)
    cur, nxt = S.old("current_worker_set"), S.old("next_worker_set")
    id = lambda c: c.new("reply_tracker").val
    batch = lambda c: c.new("command_batch").get(id(c)).val
    made = lambda c: old.get(id(c)).is_none
    k, i = S.any("k", old.keys), S.any("i", USIZE)
    ms = lambda c: messages(S, c)[1]
    new_set = lambda c: batch(c).data.commands.len == ms(c).len + 1
    off = lambda c: ITE(new_set(c), 1, 0)
    ws = lambda c: c.new("next_worker_set").val

    S.ensures(r, "ok", "a proof is made only of messages the gateway has", lambda c: AND(
        messages(S, c)[0], ms(c).len == c.m_message_ids.len))
    S.ensures(r, "ok", "for this chain", lambda c: IMP(AND(i >= 0, i < ms(c).len), ms(c).at(i).destination_chain == cf.chain_name))
    S.ensures(r, "ok", "the batch asked for is stored, and the reply will be about it", lambda c: AND(
        c.new("reply_tracker").is_some, c.new("command_batch").get(id(c)).is_some))
    S.ensures(r, "ok", "a stored batch never changes", lambda c: IMP(old.get(k).is_some, c.new("command_batch").get(k) == old.get(k)))
    S.ensures(r, "ok", "no other batch appears", lambda c: IMP(k != id(c), c.new("command_batch").get(k) == old.get(k)))
    S.ensures(r, "ok", "batches are stored under their own id", lambda c: IMP(c.new("command_batch").get(k).is_some, c.new("command_batch").get(k).val.id == k))
    S.ensures(r, "ok", "a batch is used again only for the same messages", lambda c: IMP(NOT(made(c)), OR(
        is_id_of(S, id(c), c.m_message_ids.len, lambda i: c.m_message_ids.at(i)),
        is_id_of(S, id(c), ms(c).len, lambda i: ms(c).at(i).cc_id),
        is_id_of(S, id(c), ms(c).len, lambda i: ms(c).at(i).cc_id, S.uf("hex", STR, c18.ws_hash(S, ws(c)))))))
    b0 = lambda c: AND(batch(c).id == id(c), batch(c).encoder == cf.encoder, batch(c).data.destination_chain_id == cf.destination_chain_id)
    S.ensures(r, "ok", "a new batch is for the configured chain, in its encoding", lambda c: IMP(made(c), b0(c)))
    S.ensures(r, "ok", "a new batch has one command per message, after the command to hand over to the next set if there is one", lambda c: IMP(made(c), AND(
        OR(batch(c).data.commands.len == ms(c).len, new_set(c)), batch(c).message_ids.len == ms(c).len)))
    for nm, _ in approves(S, cf.encoder, batch(r.cases[0]).data.commands.at(0), ms(r.cases[0]).at(0)):
        S.ensures(r, "ok", nm, lambda c, nm=nm: IMP(AND(made(c), i >= 0, i < ms(c).len), dict(
            approves(S, cf.encoder, batch(c).data.commands.at(i + off(c)), ms(c).at(i)))[nm]))
    S.ensures(r, "ok", "the messages of a new batch are listed in order", lambda c: IMP(AND(made(c), i >= 0, i < ms(c).len),
              batch(c).message_ids.at(i) == ms(c).at(i).cc_id))
    for nm, _ in transfer(S, cf.encoder, batch(r.cases[0]).data.commands.at(0), ws(r.cases[0])):
        S.ensures(r, "ok", "with the messages: " + nm, lambda c, nm=nm: IMP(AND(made(c), new_set(c)), dict(
            transfer(S, cf.encoder, batch(c).data.commands.at(0), ws(c)))[nm]))
    S.ensures(r, "ok", "a next set is proposed exactly when the new batch hands over to it", lambda c: AND(
        IMP(AND(made(c), new_set(c)), ws(c).created_at == c.height), IMP(AND(made(c), NOT(new_set(c))), c.new("next_worker_set") == nxt)))
    S.ensures(r, "ok", "a new batch is stored under the hash of what it contains", lambda c: IMP(made(c), AND(
        IMP(NOT(new_set(c)), is_id_of(S, id(c), ms(c).len, lambda i: ms(c).at(i).cc_id)),
        IMP(new_set(c), is_id_of(S, id(c), ms(c).len, lambda i: ms(c).at(i).cc_id, S.uf("hex", STR, c18.ws_hash(S, ws(c))))))))
    dg = lambda c: S.unjson(c.msgs.at(0).msg.as_("Wasm")._0.as_("Execute").msg, S.type("multisig::msg::ExecuteMsg")).as_("StartSigningSession").msg
    S.ensures(r, "ok", "one signing session is opened for the batch, answered on success only", lambda c: AND(cur.is_some, c.msgs_are(session(S, c, cur.val, dg(c)))))
    S.ensures(r, "ok", "what is to be signed is the digest of the batch", lambda c: digest_of(S, dg(c), batch(c)))
    S.ensures(r, "ok", "nothing else changes", lambda c: c.frame("command_batch", "reply_tracker", "next_worker_set"))
    S.cover(r, "ok", "a batch used again", lambda c: NOT(made(c)))
    S.cover(r, "ok", "a batch with a new set", lambda c: AND(made(c), new_set(c)))
    S.cover(r, "ok", "a new batch on Sui", lambda c: AND(made(c), cf.encoder.is_("Bcs"), ms(c).len == 2))


def reply(S):
    setup(S)
    r = S.entry(MP, "reply", None)
    data = lambda c: S.uf("reply_data", S.type("cw_utils::MsgExecuteContractResponse"), c.reply).data.val
    sid = lambda c: S.unjson(data(c), ("int", "Uint64"))
    S.ensures(r, "ok", "the session the multisig contract opened is filed under the batch it was asked to sign, and nothing else happens", lambda c: AND(
        c.old("reply_tracker").is_some, c.msgs.len == 0, c.frame("multisig_session_batch"),
        c.new("multisig_session_batch") == c.old("multisig_session_batch").put(sid(c), c.old("reply_tracker").val)))
    S.cover(r, "ok", "a session")


def members(S, enc, signers, n, at):
    """the list (addresses and weights) has exactly the signers, in ascending order: [(name, clause)]"""
    i, j, e, f = S.any("mi", USIZE), S.any("mj", MATH), S.any("me", MATH), S.any("mf", USIZE)
    is_ = lambda j, s: AND(at(j)[0] == dest(S, enc, s._0.pub_key), at(j)[1] == s._0.weight)
    return [
        ("the proof has as many members as the session has signers", n == signers.len),
        ("every signer is a member of the proof with its weight", IMP(AND(i >= 0, i < signers.len), exists(j, AND(j >= 0, j < n, is_(j, signers.at(i)))))),
        ("every member of the proof is a signer with its weight", IMP(AND(f >= 0, f < n), exists(e, AND(e >= 0, e < signers.len, is_(f, signers.at(e)))))),
        ("the members of the proof are in ascending order", IMP(AND(f >= 0, f < i, i < n), NOT(S.less(at(i)[0], at(f)[0])))),
    ]


XT = ("tuple", (BYTES, BYTES))
PF = ("tuple", (VEC(BYTES), VEC(("int", "u128")), ("int", "u128"), VEC(BYTES)))


def proof(S):
    setup(S)
    r = S.entry(MP, "query", "GetProof")
    cf = cfg(S)
    id = lambda c: c.old("multisig_session_batch").get(c.m_multisig_session_id)
    batch = lambda c: c.old("command_batch").get(id(c).val)
    ms = lambda c: S.query(cf.multisig.inner(), S.mk(S.type("multisig::msg::QueryMsg"), "GetMultisig", session_id=c.m_multisig_session_id), S.type("multisig::msg::Multisig"))
    res = lambda c: S.unjson(c.ret, S.type("multisig_prover::msg::GetProofResponse"))
    done = lambda c: res(c).status.is_("Completed")
    ex = lambda c: res(c).status.as_("Completed").execute_data
    S.ensures(r, "ok", "a proof is of a session this contract opened, and shows the batch that session signs", lambda c: AND(
        id(c).is_some, batch(c).is_some, res(c).multisig_session_id == c.m_multisig_session_id, res(c).message_ids == batch(c).val.message_ids, res(c).data == batch(c).val.data))
    S.ensures(r, "ok", "a proof is complete exactly when the multisig contract says that the session is", lambda c: AND(ms(c)[0], IFF(done(c), ms(c)[1].state.is_("Completed"))))

    sel = S.uf("selector(Bytes)", BYTES, S.str("execute"))
    un = lambda kind, ty, t: S.uf("unToken::" + kind + ":" + tname(ty), ty, t)
    U256 = ("int", "U256")

    def evm(c):
        """(the layout is right, data, members, number of members, quorum, signatures)"""
        args = S.uf("unconcat2", BYTES, sel, ex(c))
        ok1, (t,) = S.abi(args, 1)
        p = un("Bytes", BYTES, t)
        ok2, (td, tp) = S.abi(p, 2)
        d, q = un("Bytes", BYTES, td), un("Bytes", BYTES, tp)
        ok3, (ta, tw, tq, ts) = S.abi(q, 4)
        (oka, a), (okw, w), (oks, g) = S.tokens(ta), S.tokens(tw), S.tokens(ts)
        i = S.any("li", USIZE)
        ua = lambda i: S.uf("unh160", BYTES, un("Address", lib.H160, a.at(i)))
        uw = lambda i: un("Uint", U256, w.at(i))
        ug = lambda i: un("Bytes", BYTES, g.at(i))
        ok = AND(ex(c) == S.uf("concat2", BYTES, sel, args), ok1, t == S.token("Bytes", p), ok2, td == S.token("Bytes", d), tp == S.token("Bytes", q), ok3, oka, okw, oks,
                 a.len == w.len, tq == S.uf("Token::Uint:U256", lib.TOKEN, ms(c)[1].quorum),
                 IMP(AND(i >= 0, i < a.len), AND(a.at(i) == S.token("Address", S.uf("h160", lib.H160, ua(i))), w.at(i) == S.uf("Token::Uint:U256", lib.TOKEN, uw(i)))),
                 IMP(AND(i >= 0, i < g.len), g.at(i) == S.token("Bytes", ug(i))))
        return ok, d, lambda i: (ua(i), uw(i)), a.len, ug, g.len

    def sui(c):
        b = S.uf("unbcs:" + tname(XT), XT, ex(c))
        p = S.uf("unbcs:" + tname(PF), PF, b._1)
        ok = AND(ex(c) == S.uf("bcs:" + tname(XT), BYTES, b), b._1 == S.uf("bcs:" + tname(PF), BYTES, p), p._0.len == p._1.len, p._2 == ms(c)[1].quorum)
        return ok, b._0, lambda i: (p._0.at(i), p._1.at(i)), p._0.len, p._3.at, p._3.len

    def form(enc, sg, pk, d):
        """a signature as the destination chain takes it"""
        s = S.uf("k256:sig", ("opaque", "k256:Signature"), sg.as_("Ecdsa")._0.inner())
        rec = S.uf("k256:recoverybyte", ("int", "u8"), S.uf("k256:recovery", ("opaque", "k256:RecoveryId"), S.uf("k256:key", ("opaque", "k256:PublicKey"), raw(S, pk)), d, s))
        return ITE(sg.is_("Ecdsa"), S.uf("bytepush", BYTES, S.uf("k256:sigbytes", BYTES, s), rec + (27 if enc == "Abi" else 0)),
                   ITE(sg.is_("EcdsaRecoverable"), sg.as_("EcdsaRecoverable")._0.inner(), sg.as_("Ed25519")._0))

    for enc, nm, lay in (("Abi", "EVM: ", evm), ("Bcs", "Sui: ", sui)):
        when = lambda c, enc=enc: AND(done(c), cf.encoder.is_(enc))
        e_ = S.mk(cf.encoder.ty, enc)
        S.ensures(r, "ok", nm + "the proof is laid out as the gateway expects, with the session's quorum", lambda c, lay=lay, when=when: IMP(when(c), lay(c)[0]))
        S.ensures(r, "ok", nm + "the proof is about the batch", lambda c, lay=lay, when=when, e_=e_: IMP(when(c), encodes(S, e_, lay(c)[1], batch(c).val.data)))
        sg = lambda c: ms(c)[1].signers
        get = lambda c, lay=lay, e_=e_: (lambda l: members(S, e_, sg(c), l[3], l[2]))(lay(c))
        for n2, _ in get([c for c in r.cases if c.kind == "ok"][0]):
            S.ensures(r, "ok", nm + n2, lambda c, get=get, when=when, n2=n2: IMP(when(c), dict(get(c))[n2]))
        i, j = S.any("gi", USIZE), S.any("gj", MATH)
        kc = lambda x: S.uf("keccak", BYTES, x)
        pre = lambda t: S.uf("utf8", BYTES, S.str(t))
        dg = lambda enc, d: kc(S.uf("concat2", BYTES, pre("\x19Ethereum Signed Message:\n32"), kc(d)) if enc == "Abi" else
                               S.uf("concat2", BYTES, pre("\x19Sui Signed Message:\n"), d))
        S.ensures(r, "ok", nm + "every signature in the proof is the signature of a signer", lambda c, lay=lay, when=when, enc=enc: IMP(AND(when(c), i >= 0, i < lay(c)[5]), exists(j, (lambda s: AND(
            j >= 0, j < sg(c).len, s._1.is_some, lay(c)[4](i) == form(enc, s._1.val, s._0.pub_key, dg(enc, lay(c)[1]))))(sg(c).at(j)))))
        i2, j2, e, e2 = S.any("gi2", USIZE), S.any("gj2", MATH), S.any("ge", MATH), S.any("ge2", MATH)

        def order(c, lay=lay, enc=enc, e_=e_):
            _, d, at, n, g, m = lay(c)

            def its(i, j, e):
                s = sg(c).at(j)
                return AND(j >= 0, j < sg(c).len, e >= 0, e < n, s._1.is_some, at(e)[0] == dest(S, e_, s._0.pub_key), at(e)[1] == s._0.weight,
                           g(i) == form(enc, s._1.val, s._0.pub_key, dg(enc, d)))
            inr = AND(i >= 0, i < i2, i2 < m)
            src = S.sources(c.ret)
            if src:
                # show it with the members that the signatures were taken from
                return IMP(inr, OR(*[AND(f(i) < f(i2), exists(j, its(i, j, f(i))), exists(j2, its(i2, j2, f(i2)))) for f in src]))
            return IMP(inr, exists([j, j2, e, e2], AND(e < e2, its(i, j, e), its(i2, j2, e2))))
        S.ensures(r, "ok", nm + "the signatures are in the order of the members they are of", lambda c, order=order, when=when: IMP(when(c), order(c)))
    S.cover(r, "ok", "EVM", lambda c: AND(done(c), cf.encoder.is_("Abi")))


def quorum(S):
    """the signatures kept for a proof reach the quorum whenever all of them do"""
    m = S.any("session", S.type("multisig::msg::Multisig"))
    sg, q = m.signers, m.quorum
    w = lambda e: ITE(e._1.is_some, e._0.weight, 0)
    S.invariant("what is kept so far reaches the quorum, or all of it is kept", lambda ty: ty == q.ty, lambda v, j: OR(v >= q, *[
        v == S.psum(s, w, j) for s, _ in S.sorted_lists(sg.ty)]))
    r = S.call("multisig_prover::query::optimize_signers", ["signers", "quorum"], args={"signers": sg, "quorum": q})
    S.psum_sorted(sg.ty, w)
    S.ensures(r, "ret", "the weight of the signatures kept reaches the quorum if that of all of them does", lambda c: IMP(S.psum(sg, w) >= q, S.psum(c.ret, w) >= q))


def others(S):
    setup(S)
    old = S.old("command_batch")
    k, b = S.any("k", old.keys), S.any("b", old.keys)
    r = S.entry(MP, "execute", "UpdateWorkerSet", pre=lambda a: [forall(b, IMP(old.get(b).is_some, old.get(b).val.id == b))])
    new = lambda c: c.new("command_batch")
    S.ensures(r, "ok", "no session changes its batch, and batches stay under their own id", lambda c: AND(
        c.new("multisig_session_batch") == c.old("multisig_session_batch"), c.new("config") == c.old("config"), IMP(new(c).get(k).is_some, new(c).get(k).val.id == k)))
    S.ensures(r, "ok", "at most the batch that is asked to be signed is written", lambda c: IMP(new(c).get(k) != old.get(k), c.new("reply_tracker") == S.some(k)))
    r = S.entry(MP, "execute", "ConfirmWorkerSet")
    S.ensures(r, "ok", "confirming a set touches no batch and no session", lambda c: c.frame("current_worker_set", "next_worker_set"))
    r = S.entry(MP, "instantiate", None)
    S.ensures(r, "ok", "there are no batches at first", lambda c: c.frame("config"))


def kinds(S):
    """kinds of messages the contracts above do not name, if there are any"""
    own = ["ConstructProof", "UpdateWorkerSet", "ConfirmWorkerSet"]
    if set(S.kinds(MP, "execute")) <= set(own):
        return
    for v in ("ConstructProof", "UpdateWorkerSet"):
        S.entry(MP, "execute", v)
    S.entry(MP, "reply", None)
    S.others(MP, own, "command_batch", "multisig_session_batch", "reply_tracker", "config")


PARTS = [construct, reply, proof, quorum, others, kinds]
