from specs.common import *

B = "batching"


def dispatch(S):
    r = S.entry(B, "execute", "Batch")
    b = r.args["m_f0"]
    must, can = b.must_succeed_msgs, b.can_fail_msgs
    i = S.any("i", USIZE)
    sub = lambda m, reply, id: S.mk(S.cw("SubMsg"), None, id=id, msg=m, gas_limit=S.none(U64), reply_on=S.mk(S.cw("ReplyOn"), reply))
    S.ensures(r, "ok", "every message is sent, and nothing else", lambda c: c.msgs.len == must.len + can.len)
    S.ensures(r, "ok", "messages that must succeed come first, in order, and their failure is the batch's", lambda c: IMP(
        AND(i >= 0, i < must.len), c.msgs.at(i) == sub(must.at(i), "Never", 0)))
    S.ensures(r, "ok", "messages that may fail follow, in order, and are answered under their place", lambda c: IMP(
        AND(i >= 0, i < can.len), c.msgs.at(must.len + i) == sub(can.at(i), "Always", i)))
    S.never(r, "err", "a batch is dispatched")
    S.never(r, "panic", "no panic")
    S.cover(r, "ok", "both kinds of messages", lambda c: AND(must.len > 0, can.len > 0))


def answer(S):
    r = S.entry(B, "reply", None)
    S.never(r, "err", "no answer makes the batch fail")
    S.never(r, "panic", "no panic")
    S.ensures(r, "ok", "an answer sends nothing", lambda c: c.msgs.len == 0)


PARTS = [dispatch, answer]
