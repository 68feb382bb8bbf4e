"""definitions shared by the property files"""
from spec import *

VOTES = ["SucceededOnChain", "FailedOnChain", "NotFound"]


def vote_name(S, v):
    """the tally key of a vote"""
    return ITE(v.is_(VOTES[0]), S.str(VOTES[0]), ITE(v.is_(VOTES[1]), S.str(VOTES[1]), S.str(VOTES[2])))


def forall(vs, body):
    vs = [v.t if isinstance(v, X) else v for v in (vs if isinstance(vs, (list, tuple)) else [vs])]
    return z3.ForAll(vs, tb(body))


def exists(vs, body):
    vs = [v.t if isinstance(v, X) else v for v in (vs if isinstance(vs, (list, tuple)) else [vs])]
    return z3.Exists(vs, tb(body))
