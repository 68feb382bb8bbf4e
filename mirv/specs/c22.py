from specs.common import *

A = "aggregate_verifier"


def verify(S):
    r = S.entry(A, "execute", "VerifyMessages")
    cf, ms = S.old("config"), r.args["m_messages"]
    t = S.type("voting_verifier::msg::ExecuteMsg")
    S.ensures(r, "ok", "exactly the given messages go to the verifier, with no funds; its failure is a failure, its answer is passed on", lambda c: AND(
        cf.is_some, c.msgs_are(S.submsg(S.wasm_exec(cf.val.verifier.inner(), S.mk(t, "VerifyMessages", messages=ms)), 0, "Success"))))
    S.ensures(r, "ok", "asking for verification changes no state", lambda c: c.frame())
    S.never(r, "err", "anyone can have messages verified", lambda c: cf.is_some)
    S.never(r, "panic", "no panic")
    S.cover(r, "ok", "asked", lambda c: c.msgs.len == 1)


def answer(S):
    S.entry(A, "instantiate", None)
    r = S.entry(A, "reply", None)
    m = r.args["reply"]
    t = S.type("cw_utils::MsgExecuteContractResponse")
    S.ensures(r, "ok", "an answer changes no state and sends nothing", lambda c: AND(c.frame(), c.msgs.len == 0))
    d = S.uf("reply_data", t, m).data
    S.ensures(r, "ok", "the verifier's answer is passed on as it is", lambda c: AND(c.data.is_some, d.is_some, d.val == c.data.val))
    l = S.any("verdicts", VEC(("tuple", (S.type("connection_router::state::CrossChainId"), BOOL))))
    S.never(r, "err", "a list of verdicts is passed on", lambda c: AND(S.uf("reply_data:ok", BOOL, m), d.is_some, d.val == S.json(l)))
    S.never(r, "panic", "no panic")
    S.cover(r, "ok", "answered", lambda c: c.data.is_some)


def query(S):
    r = S.entry(A, "query", "IsVerified")
    cf, ms = S.old("config"), r.args["m_messages"]
    t = VEC(("tuple", (S.type("connection_router::state::CrossChainId"), BOOL)))
    ok, v = S.query(cf.val.verifier.inner(), S.mk(S.type("voting_verifier::msg::QueryMsg"), "IsVerified", messages=ms), t)
    S.ensures(r, "ok", "the verdicts reported are the verifier's", lambda c: AND(cf.is_some, ok, c.ret == S.json(v)))
    S.never(r, "err", "the verifier's answer is not refused", lambda c: AND(cf.is_some, ok))
    S.never(r, "panic", "no panic")


def inst(S):
    r = S.entry(A, "instantiate", None)
    S.ensures(r, "ok", "the verifier is the one given", lambda c: (lambda n: AND(n.is_some, n.val.verifier.inner() == r.args["m_verifier_address"]))(c.new("config")))
    S.ensures(r, "ok", "nothing else is stored and nothing is sent", lambda c: AND(c.frame("config"), c.msgs.len == 0))


PARTS = [verify, answer, query, inst]
