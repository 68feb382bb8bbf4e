"""Contracts over workspace functions and the discharge of their obligations.

A property file states, for each function under contract, its preconditions and its postconditions over the arguments,
the storage before and after, the returned value and the messages sent.  Spec.call executes the function's MIR on
arbitrary arguments and an arbitrary storage; every (path, clause) pair is one obligation for the solver."""
import re
import multiprocessing
import multiprocessing.connection
import shutil
import signal
import subprocess
import os
import sys
import time
import traceback

import z3

from engine import (T, Agg, ListV, Ref, PyV, Handle, It, State, Outcome, PANIC, RET, Unsupported, UNITV, V, has_quant)
from types_ import *
from types_ import Types
import lib
import seq

MATH = ("int", "math")
_anyc = [0]


class Lost(Exception):
    """a function, type, field or storage item a contract is attached to is not there any more"""


_coerce0 = z3.z3._coerce_exprs


def _coerce(a, b, ctx=None):
    return _coerce0(a.t if isinstance(a, X) else a, b.t if isinstance(b, X) else b, ctx)


z3.z3._coerce_exprs = _coerce


def AND(*xs):
    xs = [tb(x) for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    return z3.And(*xs) if xs else z3.BoolVal(True)


def OR(*xs):
    xs = [tb(x) for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    return z3.Or(*xs) if xs else z3.BoolVal(False)


def NOT(x):
    return z3.Not(tb(x))


def IMP(a, b):
    return z3.Implies(tb(a), tb(b))


def IFF(a, b):
    return tb(a) == tb(b)


def ITE(c, a, b):
    r = z3.If(tb(c), tz(a), tz(b))
    for x in (a, b):
        if isinstance(x, X):
            return X(x.sp, r, x.ty if x.ty[0] != "int" else MATH)
    return r


def tb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, X):
        return x.t
    return x


def tz(x):
    if isinstance(x, X):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


_sym = {}


def symbols(e):
    """names of the uninterpreted symbols of a term"""
    k = e.get_id()
    if k in _sym:
        return _sym[k][1]
    if z3.is_quantifier(e):
        r = symbols(e.body())
    elif z3.is_var(e):
        r = frozenset()
    else:
        r = frozenset().union(*[symbols(c) for c in e.children()]) if e.num_args() else frozenset()
        d = e.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            r = r | {d.name()}
    _sym[k] = (e, r)
    return r


def has_var(e):
    return z3.is_var(e) or z3.is_quantifier(e) or any(has_var(c) for c in e.children())


def other_z3(s, tmo):
    """whether the older release of z3 proves what this one could not (it instantiates differently)"""
    exe = shutil.which("z3")
    if not exe:
        return False
    try:
        r = subprocess.run([exe, "-in", "-T:%d" % max(1, tmo // 1000), "smt.mbqi=false"], input=s.to_smt2(), capture_output=True, text=True, timeout=tmo / 1000 + 5)
    except (subprocess.SubprocessError, OSError):
        return False
    return r.stdout.split() == ["unsat"]


def trigger(f):
    """the symbols of a quantified axiom's pattern"""
    if not z3.is_quantifier(f) or f.num_patterns() == 0:
        return None
    return symbols(f.pattern(0)) - {"pattern"}


class X:
    """typed view of a term, for writing clauses"""

    def __init__(self, sp, t, ty):
        self.__dict__.update(sp=sp, t=t, ty=ty)
        if ty[0] == "int" and not z3.is_int_value(t):
            lo, hi = INT_BOUNDS.get(ty[1], (None, None))
            if lo is not None:
                sp.facts.append(z3.And(t >= lo, t <= hi))
        if ty[0] == "adt" and ty[1] == "Vec":
            sp.facts.append(sp.eng.seq_len(t) >= 0)

    # fields
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        n = name[1:] if name[:1] == "_" and name[1:].isdigit() else name
        vs = self.sp.eng.ty.variants(self.ty)
        if vs is None or len(vs) != 1:
            raise Lost("%s has no field %s" % (tname(self.ty), n))
        return self._fld(vs[0], n)

    def _fld(self, var, n):
        if n not in var[2]:
            raise Lost("%s has no field %s" % (tname(self.ty), n))
        con, rec, acc, ft, fn = self.sp.eng.ty.constructor(self.ty, var[0])
        i = fn.index(n)
        return X(self.sp, acc[i](self.t), ft[i])

    def inner(self):
        """the only field of a newtype, down to a non-struct"""
        x = self
        while True:
            vs = self.sp.eng.ty.variants(x.ty)
            if vs is None or len(vs) != 1 or len(vs[0][1]) != 1:
                return x
            x = x._fld(vs[0], vs[0][2][0])

    def is_(self, variant):
        try:
            con, rec, acc, ft, fn = self.sp.eng.ty.constructor(self.ty, variant)
        except (KeyError, TypeError):
            raise Lost("%s has no variant %s" % (tname(self.ty), variant))
        return rec(self.t)

    def as_(self, variant):
        vs = self.sp.eng.ty.variants(self.ty) or []
        for v in vs:
            if v[0] == variant:
                return Payload(self, v)
        raise Lost("%s has no variant %s" % (tname(self.ty), variant))

    @property
    def is_some(self):
        return self.is_("Some")

    @property
    def is_none(self):
        return self.is_("None")

    @property
    def val(self):
        return self.as_("Some")._0

    # sequences and maps
    @property
    def len(self):
        e = self.sp.eng
        if self.ty == STR:
            return X(self.sp, lib.strlen(e)(self.t), USIZE)
        if self.ty == BYTES:
            return X(self.sp, z3.Function("byteslen", e.ty.sort(BYTES), z3.IntSort())(self.t), USIZE)
        return X(self.sp, e.seq_len(self.t), USIZE)

    def at(self, i):
        return X(self.sp, self.sp.eng.seq_at(self.t, tz(i)), self.ty[2][0])

    def _key(self, ks):
        kt = self.ty[2][0]
        if len(ks) == 1:
            return self.sp.fit(ks[0], kt)
        if kt[0] != "tuple" or len(kt[1]) != len(ks):
            raise Lost("key %s" % tname(kt))
        return self.sp.eng.ty.sort(kt).constructor(0)(*[self.sp.fit(k, t) for k, t in zip(ks, kt[1])])

    def get(self, *ks):
        if not (self.ty[0] == "adt" and self.ty[1] in ("Map", "Set")):
            raise Lost("%s is not a map" % tname(self.ty))
        k = self._key(ks)
        if self.ty[1] == "Set":
            return z3.Select(self.t, k)
        return X(self.sp, z3.Select(self.t, k), OPT(self.ty[2][1]))

    def put(self, k, v):
        some = self.sp.eng.ty.constructor(OPT(self.ty[2][1]), "Some")[0]
        ks = k if isinstance(k, tuple) else (k,)
        return X(self.sp, z3.Store(self.t, self._key(ks), some(self.sp.fit(v, self.ty[2][1]))), self.ty)

    @property
    def keys(self):
        return self.ty[2][0]

    # operators
    def __eq__(self, o):
        if isinstance(o, X) and o.t.sort() != self.t.sort():
            a, b = self.inner(), o.inner()
            if a.t.sort() != b.t.sort():
                raise Lost("comparison of %s with %s" % (tname(self.ty), tname(o.ty)))
            return a.t == b.t
        if isinstance(o, (str, int)) and not isinstance(o, bool) and self.ty[0] == "adt" and self.ty != STR:
            return self.inner() == o
        return self.t == tz(self.sp.lift(o, self.ty))

    def __ne__(self, o):
        return z3.Not(self == o)

    __hash__ = object.__hash__

    def __lt__(self, o):
        return self.t < tz(o)

    def __le__(self, o):
        return self.t <= tz(o)

    def __gt__(self, o):
        return self.t > tz(o)

    def __ge__(self, o):
        return self.t >= tz(o)

    def _math(self, t):
        return X(self.sp, t, MATH)

    def __add__(self, o):
        return self._math(self.t + tz(o))

    __radd__ = __add__

    def __sub__(self, o):
        return self._math(self.t - tz(o))

    def __rsub__(self, o):
        return self._math(tz(o) - self.t)

    def __mul__(self, o):
        return self._math(self.t * tz(o))

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self._math(self.t / tz(o))

    def __mod__(self, o):
        return self._math(self.t % tz(o))

    def __repr__(self):
        return "X(%s)" % (self.t,)


class Payload:
    def __init__(self, x, var):
        self.__dict__.update(x=x, var=var)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        n = name[1:] if name[:1] == "_" and name[1:].isdigit() else name
        return self.x._fld(self.var, n)


class Case:
    """one path of a function under contract"""

    def __init__(self, sp, run, o, kind, ret, st):
        self.sp, self.run, self.kind, self.st = sp, run, kind, st
        self.o = o
        self.retv = ret
        self.args = run.args
        self.pathno = 0

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        a = self.__dict__.get("args", {})
        if name in a:
            return a[name]
        raise Lost("no argument %s of %s" % (name, self.run.key))

    @property
    def ret(self):
        if self.retv is None:
            raise Lost("no return value")
        return self.sp.x(self.st, self.retv)

    def old(self, ns):
        return self.sp.old(ns)

    def new(self, ns):
        e = self.sp.eng
        if ns not in e.store_types:
            raise Lost("storage item %s" % ns)
        return X(self.sp, e.store_get(self.st, ns), e.store_type(ns))

    def frame(self, *but):
        """every storage item but those named is unchanged"""
        e = self.sp.eng
        return AND([t == e.store_init(ns) for ns, t in self.st.storage.items() if ns not in but])

    @property
    def msgs(self):
        r = self.sp.eng.deref(self.st, self.retv)
        r = r if isinstance(r, Agg) else self.sp.eng.expand(self.st, r)
        m = self.sp.eng.deref(self.st, r.f[0])
        return self.sp.x(self.st, m)

    @property
    def data(self):
        r = self.sp.eng.deref(self.st, self.retv)
        r = r if isinstance(r, Agg) else self.sp.eng.expand(self.st, r)
        return self.sp.x(self.st, r.f[3])

    def queries(self, ty):
        """the requests whose answers (of type ty) this path depends on"""
        nm, seen, out = "query:" + tname(ty), set(), []
        todo = list(self.st.pc) + list(self.st.facts)
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x) and x.decl().name() == nm:
                out.append(X(self.sp, x.arg(0), self.sp.cw("QueryRequest")))
            todo.extend(x.children())
        return out

    def msgs_are(self, *ms):
        m = self.msgs
        return AND([m.len == len(ms)] + [m.at(i) == x for i, x in enumerate(ms)])

    def deref(self, name):
        """the value of a &mut argument on exit"""
        return self.sp.x(self.st, self.st.cells[self.run.mut[name]])


class Run:
    def __init__(self, sp, key):
        self.sp, self.key = sp, key
        self.args = {}
        self.mut = {}
        self.cases = []
        self.pre = []
        self.base = 0

    def of(self, *kinds):
        return [c for c in self.cases if c.kind in kinds]


_nl = {}


def nonlinear(e):
    """does the term contain a product or quotient of two unknowns"""
    k = e.get_id()
    if k in _nl:
        return _nl[k][1]
    r = False
    if z3.is_quantifier(e):
        r = nonlinear(e.body())
    elif z3.is_app(e):
        kd = e.decl().kind()
        if kd in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV):
            r = not z3.is_int_value(e.arg(1))
        elif kd == z3.Z3_OP_MUL:
            r = sum(not z3.is_int_value(c) for c in e.children()) > 1
        r = r or any(nonlinear(c) for c in e.children())
    _nl[k] = (e, r)
    return r


class Obl:
    __slots__ = ("aux", "part", "name", "facts", "pc", "goal", "vac", "status", "secs", "model", "solver", "fn", "sp")


class Spec:
    def __init__(self, eng, pid, tier="quick"):
        self.eng, self.pid, self.tier = eng, pid, tier
        self.facts = []
        self.obls = []
        self.functions = {}
        self.undecided = []
        self.covers = []
        self.settled = None
        self.timeout = 20000 if tier == "quick" else 120000
        self.lemmas = []
        self._psums = {}
        self.before = set()

    # ------------------------------------------------------------------ terms
    def x(self, st, v, ty=None):
        v = self.eng.deref(st, v)
        if isinstance(v, PyV) and v.ty[0] == "opaque" and "term" not in v.d:
            return X(self, z3.Const("obj:%s" % v.kind, self.eng.ty.sort(v.ty)), v.ty)
        n = len(st.facts)
        t = self.eng.term(st, v, ty)
        return X(self, t, ty or v.ty)

    def lift(self, o, ty):
        if isinstance(o, str):
            if ty == BYTES:
                raise Lost("string for bytes")
            return self.eng.str_const(o).t
        if isinstance(o, int) and not isinstance(o, bool) and ty[0] == "adt":
            raise Lost("integer for %s" % tname(ty))
        if isinstance(o, X) and o.t.sort() != self.eng.ty.sort(ty):
            raise Lost("comparison of %s with %s" % (tname(ty), tname(o.ty)))
        return o

    def fit(self, o, ty):
        """the term of o as a value of type ty, through newtypes"""
        o = self.lift(o, ty) if not isinstance(o, X) else o
        s = self.eng.ty.sort(ty)
        t = tz(o)
        if t.sort() == s:
            return t
        if isinstance(o, X):
            vs = self.eng.ty.variants(o.ty)
            if vs is not None and len(vs) == 1 and len(vs[0][1]) == 1:
                return self.fit(o._fld(vs[0], vs[0][2][0]), ty)
        vs = self.eng.ty.variants(ty)
        if vs is not None and len(vs) == 1 and len(vs[0][1]) == 1:
            return self.eng.ty.constructor(ty, vs[0][0])[0](self.fit(o, vs[0][1][0]))
        raise Lost("%s for %s" % (tname(o.ty) if isinstance(o, X) else t.sort(), tname(ty)))

    def any(self, name, ty):
        """an arbitrary value (universally quantified in the obligation)"""
        _anyc[0] += 1
        return X(self, z3.Const("%s?%d" % (name, _anyc[0]), self.eng.ty.sort(ty)), ty)

    def str(self, s):
        return X(self, self.eng.str_const(s).t, STR)

    def old(self, ns):
        if ns not in self.eng.store_types:
            raise Lost("storage item %s" % ns)
        return X(self, self.eng.store_init(ns), self.eng.store_type(ns))

    def type(self, path, *args):
        segs = path.split("::")
        t = self.eng.ty.canon_path(segs, tuple(args), segs[0])
        if t[0] == "adt" and self.eng.ty.variants(t) is None and t[1] not in ("Vec", "Map", "Set", "String", "Bytes"):
            raise Lost("type %s" % path)
        return t

    def mk(self, ty, variant=None, **fs):
        if isinstance(ty, str):
            ty = self.type(ty)
        vs = self.eng.ty.variants(ty) or []
        v = [x for x in vs if x[0] == variant] if variant else vs
        if len(v) != 1:
            raise Lost("%s::%s" % (tname(ty), variant))
        fs = {(k[1:] if k[:1] == "_" and k[1:].isdigit() else k): x for k, x in fs.items()}
        if set(fs) != set(v[0][2]):
            raise Lost("fields of %s::%s: %s" % (tname(ty), variant, v[0][2]))
        con = self.eng.ty.constructor(ty, v[0][0])[0]
        ts = []
        for n, t in zip(v[0][2], v[0][1]):
            ts.append(self.fit(fs[n], t))
        return X(self, con(*ts), ty)

    def some(self, x, ty=None):
        ty = ty or x.ty
        return X(self, self.eng.ty.constructor(OPT(ty), "Some")[0](self.fit(x, ty)), OPT(ty))

    def none(self, ty):
        return X(self, self.eng.ty.constructor(OPT(ty), "None")[0](), OPT(ty))

    def seq(self, ty, *xs):
        s = self.eng.ty.sort(VEC(ty))
        arr = z3.K(z3.IntSort(), self.eng.dflt(self.eng.ty.sort(ty)))
        for i, x in enumerate(xs):
            arr = z3.Store(arr, i, self.fit(x, ty))
        return X(self, s.constructor(0)(z3.IntVal(len(xs)), arr), VEC(ty))

    def uf(self, name, ret, *args):
        ts = [tz(a) for a in args]
        f = z3.Function(name, *[t.sort() for t in ts], self.eng.ty.sort(ret))
        return X(self, f(*ts), ret)

    def psum(self, s, f, n=None):
        """the sum of f over a sequence (defined by psum's recursion equations)"""
        i = z3.Int("ps?i")
        n0 = len(self.facts)
        b = tz(f(X(self, self.eng.seq_at(s.t, i), s.ty[2][0])))
        del self.facts[n0:]
        k = b.get_id()
        if k not in self._psums:
            _anyc[0] += 1
            a = z3.Const("ps?%d" % _anyc[0], z3.ArraySort(z3.IntSort(), z3.IntSort()))
            self._psums[k] = (a, b, z3.ForAll([i], z3.Select(a, i) == b, patterns=[z3.Select(a, i)]))
        a = self._psums[k][0]
        return X(self, lib.psum()(a, self.eng.seq_len(s.t) if n is None else tz(n)), MATH)

    def sorted_lists(self, ty):
        """the lists of that type that were sorted, each with the one it was made of"""
        return [(X(self, nv, t), X(self, v, t)) for k, (nv, _, v, t, top) in self.eng.ranks.items() if top and t == ty and k not in self.before]

    def psum_sorted(self, ty, f):
        """a sum over a list does not depend on its order (rules.lean: psum_perm)"""
        for a, b in self.sorted_lists(ty):
            n = z3.Int("pn?")
            l, r = self.psum(a, f, n).t, self.psum(b, f, n).t
            self.facts.append(z3.ForAll([n], z3.Implies(n == tz(a.len), l == r), patterns=[l]))

    def psum_fn(self, f, n):
        """f(0) + ... + f(n-1)"""
        i = z3.Int("ps?i")
        n0 = len(self.facts)
        b = tz(f(X(self, i, MATH)))
        del self.facts[n0:]
        k = b.get_id()
        if k not in self._psums:
            _anyc[0] += 1
            a = z3.Const("ps?%d" % _anyc[0], z3.ArraySort(z3.IntSort(), z3.IntSort()))
            self._psums[k] = (a, b, z3.ForAll([i], z3.Select(a, i) == b, patterns=[z3.Select(a, i)]))
        return X(self, lib.psum()(self._psums[k][0], tz(n)), MATH)

    def sub(self, m, *first):
        """the entries of a map keyed by tuples whose components but the last are given, as a map keyed by the last"""
        kts = m.ty[2][0][1]
        mt = ("adt", "Map", (kts[-1], m.ty[2][1]))
        pre = [z3.simplify(self.fit(x, t)) for x, t in zip(first, kts)]
        r = X(self, z3.Function("sub:" + tname(m.ty[2][0]) + tname(m.ty[2][1]), m.t.sort(), *[x.sort() for x in pre], self.eng.ty.sort(mt))(m.t, *pre), mt)
        k = z3.Const("subk", self.eng.ty.sort(kts[-1]))
        con = self.eng.ty.sort(m.ty[2][0]).constructor(0)
        self.facts.append(z3.ForAll([k], z3.Select(r.t, k) == z3.Select(m.t, con(*pre, k)), patterns=[z3.Select(r.t, k)]))
        return r

    def pair(self, a, b):
        ty = ("tuple", (a.ty, b.ty))
        return X(self, self.eng.ty.sort(ty).constructor(0)(a.t, b.t), ty)

    def entries(self, m):
        """an enumeration of a map's entries: (how many, the i-th key)"""
        st = State()
        ln, key = seq.ents(self.eng, st, T(m.t, m.ty))
        self.facts.extend(st.facts)
        return X(self, ln, USIZE), lambda i: X(self, key(tz(i)), m.ty[2][0])

    def msum(self, m, f):
        """the sum of f(key, value) over a map's entries"""
        n, key = self.entries(m)
        i = z3.Int("ps?i")
        n0 = len(self.facts)
        k = key(i)
        b = tz(f(k, m.get(k).val))
        del self.facts[n0:]
        kk = b.get_id()
        if kk not in self._psums:
            _anyc[0] += 1
            a = z3.Const("ps?%d" % _anyc[0], z3.ArraySort(z3.IntSort(), z3.IntSort()))
            self._psums[kk] = (a, b, z3.ForAll([i], z3.Select(a, i) == b, patterns=[z3.Select(a, i)]))
        return X(self, lib.psum()(self._psums[kk][0], n.t), MATH)

    def json(self, x):
        f, _ = lib.injective(self.eng, "json:" + tname(x.ty), x.ty, BYTES)
        return X(self, f(x.t), BYTES)

    def unjson(self, x, ty):
        """the value a JSON document encodes"""
        _, g = lib.injective(self.eng, "json:" + tname(ty), ty, BYTES)
        return X(self, g(x.t), ty)

    def query(self, addr, msg, ty):
        """what a contract answers to a smart query within the execution: (answers without error, the answer)"""
        smart = self.mk(self.cw("WasmQuery"), "Smart", contract_addr=addr, msg=self.json(msg))
        req = self.mk(self.cw("QueryRequest"), "Wasm", _0=smart)
        n = tname(ty)
        return X(self, z3.Function("query_ok:" + n, req.t.sort(), z3.BoolSort())(req.t), BOOL), X(self, z3.Function("query:" + n, req.t.sort(), self.eng.ty.sort(ty))(req.t), ty)

    # cosmwasm values
    def cw(self, name):
        return ("adt", self.eng.ty.cw(name), ())

    def args_of(self, x, fn, n=0):
        """the n-th arguments of the applications of a function in a term: candidates to show an existence with"""
        out, seen, todo = [], set(), [z3.simplify(x.t)]
        while todo:
            t = todo.pop()
            if t.get_id() in seen or not z3.is_app(t):
                continue
            seen.add(t.get_id())
            todo.extend(t.children())
            if t.decl().name() == fn and t.num_args() > n:
                out.append(t.arg(n))
        return out

    def _witness(self, table, x):
        if isinstance(x, Case):
            todo = [f for f in list(x.st.facts) + list(x.st.pc)]
            todo = [f.body() if z3.is_quantifier(f) else f for f in todo]
        else:
            todo = [x.t]
        out, seen = [], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if t.get_id() in table:
                q = table[t.get_id()][1]
                out.append(lambda i, q=q: X(self, q(tz(i)), MATH))
            todo.extend([t.body()] if z3.is_quantifier(t) else t.children())
        return out

    def sources(self, x):
        """where the elements of the filtered sequences in a term (or in a path) came from"""
        return self._witness(self.eng.sources, x)

    def places(self, x):
        """where the elements that were kept went, for the filtered sequences in a term (or in a path)"""
        return self._witness(self.eng.places, x)

    def rank(self, s):
        """where the elements of the sequence that was sorted to get s went (None when s was not made by sorting)"""
        todo = [s.t if isinstance(s, X) else s]
        while todo:
            t = todo.pop()
            if t.get_id() in self.eng.ranks:
                q = self.eng.ranks[t.get_id()][1]
                return lambda i: X(self, q(tz(i)), MATH)
            todo.extend(t.children())
        return None

    def less(self, a, b):
        """a < b in the type's order"""
        st = State()
        t = lib.lt(self.eng, st, T(a.t, a.ty), T(b.t, b.ty))
        self.facts.extend(st.facts)
        return t

    def token(self, kind, x):
        """an ABI token"""
        return self.uf("Token::" + kind + ":" + tname(x.ty), lib.TOKEN, x)

    def tokens(self, t):
        """the sequence an array token is made of: (it is one, the sequence)"""
        ty = VEC(lib.TOKEN)
        q = self.uf("unToken::Array:" + tname(ty), ty, t)
        return self.token("Array", q) == t, q

    def abi(self, b, n):
        """the n tokens an ABI encoding is made of: (it is one, the tokens)"""
        ts = [self.uf("unabi%d_%d" % (n, k), lib.TOKEN, b) for k in range(n)]
        return self.uf("abi%d" % n, BYTES, *ts) == b, ts

    def num(self, n):
        return X(self, z3.IntVal(n), MATH)

    def int(self, n, ty):
        return X(self, z3.IntVal(n), ty)

    def char(self, c):
        return X(self, z3.IntVal(ord(c)), ("int", "char"))

    def fields(self, ty):
        """(name, type) of the fields of a struct"""
        v = self.eng.ty.variants(ty)[0]
        return list(zip(v[2], v[1]))

    def wrap(self, ty, x):
        """a one-field struct"""
        return self.mk(ty, None, **{"_0": x})

    def custom(self, x):
        f, _ = lib.injective(self.eng, "custom:" + tname(x.ty), x.ty, ("adt", "T", ()))
        return self.mk(self.cw("CosmosMsg"), "Custom", _0=X(self, f(x.t), ("adt", "T", ())))

    def coin(self, denom, amount):
        return self.mk(self.cw("Coin"), None, denom=denom, amount=amount)

    def submsg(self, cosmos, id=0, reply="Never"):
        return self.mk(self.cw("SubMsg"), None, id=id, msg=cosmos, gas_limit=self.none(U64), reply_on=self.mk(self.cw("ReplyOn"), reply))

    def wasm_exec(self, addr, msg, funds=(), raw=False):
        coins = self.seq(self.cw("Coin"), *funds)
        w = self.mk(self.cw("WasmMsg"), "Execute", contract_addr=addr, msg=msg if raw else self.json(msg), funds=coins)
        return self.mk(self.cw("CosmosMsg"), "Wasm", _0=w)

    def bank_send(self, to, *coins):
        b = self.mk(self.cw("BankMsg"), "Send", to_address=to, amount=self.seq(self.cw("Coin"), *coins))
        return self.mk(self.cw("CosmosMsg"), "Bank", _0=b)

    # ------------------------------------------------------------------ running functions
    def find(self, key):
        if key.startswith("deserialize:"):
            return self.find_derived("deserialize", key.split(":", 1)[1])
        crate = key.split("::")[0]
        if crate not in self.eng.mods:
            raise Lost("crate %s" % crate)
        r = [f for f in self.eng.mods[crate].all_fns if "{" not in f.name and re.sub(r"<'\w+>", "", self.eng.contract_key(crate, f)) == key]
        u = {(f.name, str(f.args)): f for f in r}
        r = list(u.values())
        if len(r) != 1:
            raise Lost("function %s (%d found)" % (key, len(r)))
        return crate, r[0]

    def find_derived(self, method, path):
        """the derived method of a type, found by what it returns"""
        crate = path.split("::")[0]
        want = tname(self.type(path[:-3], ("adt", "T", ())) if path.endswith("<T>") else self.type(path))
        r = []
        for f in self.eng.mods[crate].all_fns:
            if "{" in f.name or not f.name.endswith("::" + method) or "<impl at" not in f.name.split("::" + method)[0]:
                continue
            self.eng.mods[crate].parse(f)
            t = self.eng.ty.canon(f.ret, crate, {})
            if t[0] == "adt" and t[1] == "Result" and tname(t[2][0]) == want:
                r.append(f)
        if len(r) != 1:
            raise Lost("%s of %s (%d found)" % (method, path, len(r)))
        return crate, r[0]

    def begin(self, crate=None):
        """start on a contract: the storage items of different contracts are unrelated"""
        self.eng.store_types = {}
        self.eng.opaque = {}
        self.eng.invariants = []
        self.before = set(self.eng.ranks)

    def modular(self, key, contract=None, reads=None, vals=None):
        """calls of key are replaced by a function of its arguments (those in vals) known only through its contract (proved elsewhere); one that
        reads storage may be called only while what it reads is unchanged"""
        try:
            self.find(key)
        except Lost:
            if reads is not None:
                return None         # gone: whatever replaces it is executed
            raise
        name = "fn:" + key

        def h(eng, st, args, rty):
            for ns in reads or ():
                if ns in st.storage and not z3.eq(st.storage[ns], eng.store_init(ns)):
                    raise Unsupported("%s after a change of %s" % (key, ns))
            vs = [eng.deref(st, a) for i, a in enumerate(args) if vals is None or i in vals]
            r = lib.ufv(eng, st, name, vs, rty)
            if contract:
                n0 = len(self.facts)
                fs = contract([self.x(st, v) for v in vs], self.x(st, r))
                st.facts.extend(self.facts[n0:] + [tb(f) for f in fs])
                del self.facts[n0:]
            return r
        self.eng.opaque[key] = h
        return lambda rty, *xs: self.uf(name, rty, *xs)

    def invariant(self, name, select, prop, everywhere=False):
        """prop(value, j) holds of the selected loop variable after j iterations: proved by induction for every loop that has such a
        variable, and used after the loop (or of the variable's value after any number of iterations)"""
        def h(eng, st, info, reuse):
            if reuse or info["st"].binders:
                return
            for key, (F, init, ty) in info["state"].items():
                if not select(ty):
                    continue
                n, i = info["n"], info["i"]
                n0 = len(self.facts)
                at = lambda j: tb(prop(X(self, F(j), ty), X(self, j, MATH)))
                j = z3.Int("ij!%d" % next(eng.cnt))
                base, hyp, step, fin = at(z3.IntVal(0)), at(j), at(j + 1), at(n)
                loc = self.facts[n0:]
                del self.facts[n0:]
                good = z3.Or(*[c.cond for c in info["good"]])
                for nm, goal, pc in (("at the start", base, []), ("by an iteration", step, [j >= 0, j < n, hyp, z3.substitute(good, (i, j))])):
                    o = Obl()
                    o.name = "invariant/%s/%s#%d" % (name, nm, len(self.obls))
                    o.fn = "invariant"
                    o.aux = True
                    fs, pcs = list(info["st"].facts) + list(info["facts"]) + loc, list(info["st"].pc) + pc
                    if nm == "by an iteration":
                        # the iteration's own step of every sum that the invariant mentions
                        syms = symbols(goal)
                        for a, b, _ in self._psums.values():
                            if a.decl().name() in syms:
                                fs += [z3.Select(a, j) == z3.substitute(b, (z3.Int("ps?i"), j)), lib.psum()(a, j + 1) == lib.psum()(a, j) + z3.Select(a, j)]
                        # the iteration's own instance of every quantified fact of the loop
                        for f in info["facts"]:
                            if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == z3.IntSort():
                                fs.append(z3.substitute_vars(f.body(), j))
                    if not z3.is_const(n) and not z3.is_int_value(n):
                        nn = z3.Int("iters!%d" % next(eng.cnt))
                        cut = lambda e: z3.substitute(e, (n, nn))
                        fs, pcs, goal = [cut(f) for f in fs], [cut(f) for f in pcs] + [z3.Implies(z3.BoolVal(True), nn == nn)], cut(goal)
                    o.facts, o.pc, o.goal = fs, pcs, goal
                    o.status = o.model = o.solver = None
                    o.secs = 0
                    o.sp = None
                    self.obls.append(o)
                st.facts.extend(loc)
                st.facts.append(z3.Implies(n >= 0, fin))
                if everywhere:
                    st.facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= n), hyp), patterns=[F(j)]))
        self.eng.invariants.append(h)

    def storage_items(self, crate):
        """evaluates every storage item constant of the crate, so that the items have a type"""

    def call(self, key, names, args=None, pre=None, subst=None, max_cases=4000):
        """executes key on arbitrary arguments (those in args fixed); names: the contract's names of the parameters, in order"""
        e = self.eng
        crate, f = self.find(key)
        e.mods[crate].parse(f)
        if len(f.args) != len(names):
            raise Lost("parameters of %s" % key)
        run = Run(self, key)
        st = State()
        vals = []
        for (n, t), nm in zip(f.args, names):
            ct = e.ty.canon(t, crate, subst or {})
            if args and nm in args:
                a = args[nm]
                v = a(st) if callable(a) else T(a.t, a.ty) if isinstance(a, X) else a
            elif ct == ("adt", "T", ()) or ct[0] == "dyn":
                v = Handle(ct[1])
            else:
                v = e.fresh_v(st, "arg:" + nm, ct)
            try:
                run.args[nm] = self.x(st, v)
            except Unsupported:
                pass
            if t[0] == "ref" and t[1] and ct[0] != "dyn":
                st.cells[("arg", n)] = v
                run.mut[nm] = ("arg", n)
                v = Ref(("arg", n), ())
            vals.append(v)
        if pre:
            for c in (pre(run.args) or []):
                st.pc.append(tb(c))
        run.pre = list(st.pc)
        run.st0 = st
        t0 = time.time()
        outs = e.call_fn(st, crate, f, vals, subst or {}, 0)
        for o in outs:
            if o.kind == PANIC:
                run.cases.append(Case(self, run, o, "panic", None, o.st))
                continue
            ty = getattr(o.v, "ty", None)
            if ty is not None and ty[0] == "adt" and ty[1] == "Result":
                for s, vn, p in lib.arms(e, o.st, o.v):
                    run.cases.append(Case(self, run, o, "ok" if vn == "Ok" else "err", p, s))
            else:
                run.cases.append(Case(self, run, o, "ret", o.v, o.st))
        for i, c in enumerate(run.cases):
            c.pathno = i
        if len(run.cases) > max_cases:
            raise Unsupported("too many paths")
        self.functions[key] = self.functions.get(key, 0) + len(run.cases)
        return run

    def entry(self, crate, which, variant=None, extra=None, pre=None, msg_ty=None):
        """an entry point on one message variant.  Argument names: deps env info msg (execute/instantiate), deps env msg (query), deps env reply"""
        e = self.eng
        key = "%s::contract::%s" % (crate, which)
        names = {"execute": ["deps", "env", "info", "msg"], "instantiate": ["deps", "env", "info", "msg"], "query": ["deps", "env", "msg"],
                 "reply": ["deps", "env", "reply"]}[which]
        _, f = self.find(key)
        e.mods[crate].parse(f)
        if len(f.args) != len(names):
            raise Lost("parameters of %s" % key)
        args = {}
        if variant is not None:
            mt = e.ty.canon(f.args[names.index("msg")][1], crate, {})
            vs = [v for v in (e.ty.variants(mt) or []) if v[0] == variant]
            if not vs:
                raise Lost("%s has no variant %s" % (tname(mt), variant))

            def mkmsg(st):
                return Agg(mt, variant, [e.fresh_v(st, "msg." + n, t) for n, t in zip(vs[0][2], vs[0][1])])
            args["msg"] = mkmsg
        r = self.call(key, names, args, pre)
        r.variant = variant
        r.key = key + ("[%s]" % variant if variant else "")
        if variant is not None:
            m = r.args["msg"]
            p = m.as_(variant)
            for n in vs[0][2]:
                r.args["m_" + ("f" + n if n.isdigit() else n)] = getattr(p, n if not n.isdigit() else "_" + n)
        elif "msg" in r.args:
            m = r.args["msg"]
            v = e.ty.variants(m.ty)
            if v and len(v) == 1:
                for n in v[0][2]:
                    r.args["m_" + n] = getattr(m, n)
        for nm in ("info", "env"):
            if nm in r.args:
                if nm == "info":
                    r.args["sender"] = r.args["info"].sender
                    r.args["funds"] = r.args["info"].funds
                else:
                    r.args["height"] = r.args["env"].block.height
                    r.args["self_addr"] = r.args["env"].contract.address
        return r

    def kinds(self, crate, which):
        """the message kinds an entry point takes, on this tree"""
        e = self.eng
        _, f = self.find("%s::contract::%s" % (crate, which))
        e.mods[crate].parse(f)
        mt = e.ty.canon(f.args[-1][1], crate, {})
        return [v[0] for v in e.ty.variants(mt) or []]

    def others(self, crate, own, *ns, silent=False, clause=None):
        """no execute message but the kinds in own (all of which the contracts name) changes any of the storage items ns"""
        for v in self.kinds(crate, "execute"):
            if v in own:
                continue
            r = self.entry(crate, "execute", v)
            self.ensures(r, "ok", "no message of this kind changes %s" % ", ".join(ns), lambda c: AND(
                *[c.new(n) == c.old(n) for n in ns], *([c.msgs.len == 0] if silent else [])))

    # ------------------------------------------------------------------ obligations
    def ensures(self, run, kinds, name, clause, steps=None):
        """clause(case) must hold at the end of every path of the given kinds; steps(case): intermediate assertions, each proved
        from the ones before it, that the clause may use"""
        if steps:
            cs = run.of(*(kinds.split("|") if isinstance(kinds, str) else kinds))
            k = len(steps(cs[0])) if cs else 0
            for j in range(k):
                self.ensures(run, kinds, "%s, step %d" % (name, j + 1), lambda c: IMP(AND(steps(c)[:j]), steps(c)[j]))
            g0 = clause
            clause = lambda c: IMP(AND(steps(c)), g0(c))
        if isinstance(kinds, str):
            kinds = kinds.split("|")
        n = 0
        for c in run.of(*kinds):
            n0 = len(self.facts)
            g = clause(c)
            loc = self.facts[n0:]
            del self.facts[n0:]
            if g is None:
                continue
            gs = g if isinstance(g, (list, tuple)) else [g]
            for g in gs:
                o = Obl()
                o.name = "%s/%s#%d" % (run.key, name, c.pathno)
                o.fn = run.key
                o.facts = list(c.st.facts) + loc
                o.pc = list(c.st.pc)
                o.goal = tb(g)
                o.status = None
                o.model = None
                o.solver = None
                o.secs = 0
                o.sp = c
                self.obls.append(o)
                n += 1
        return n

    def never(self, run, kinds, name, cond=None, steps=None):
        """no path of the given kinds is feasible when cond(case) holds"""
        self.ensures(run, kinds, name, (lambda c: NOT(cond(c))) if cond else (lambda c: z3.BoolVal(False)), steps)

    def lemma(self, name, goal, hyps=()):
        o = Obl()
        o.name = "lemma/" + name
        o.fn = "lemma"
        o.facts, o.pc, o.goal = [], [tb(h) for h in hyps], tb(goal)
        o.status = o.model = o.solver = None
        o.secs = 0
        o.sp = None
        self.obls.append(o)

    def cover(self, run, kinds, name, cond=None):
        if cond is not None:
            # evaluated now, while the contract's storage items are known
            vals = {}
            for c in run.of(*(kinds.split("|") if isinstance(kinds, str) else kinds)):
                vals[id(c)] = cond(c)
            cond = lambda c: vals[id(c)]
        """vacuity guard: some path of the given kinds is feasible (with cond)"""
        if isinstance(kinds, str):
            kinds = kinds.split("|")
        self.covers.append((run, kinds, name, cond))

    # ------------------------------------------------------------------ discharge
    def relevant(self, o):
        """the background facts that share a symbol with the obligation (dropping hypotheses is sound)"""
        have = set()
        for f in o.facts + o.pc + [o.goal]:
            have |= symbols(f)
        out = []
        pend = [(f, symbols(f), trigger(f)) for f in self.facts + [d for _, _, d in self._psums.values()] + self.eng.global_facts()]
        ch = True
        while ch:
            ch = False
            rest = []
            for f, sy, tr in pend:
                if (tr <= have) if tr is not None else (sy & have or not sy):
                    out.append(f)
                    if not sy <= have and tr is not None:
                        have |= sy
                        ch = True
                else:
                    rest.append((f, sy, tr))
            pend = rest
        return out

    def arith_only(self, o, base, tmo=5000, goal=None):
        """the arithmetic part of an obligation, other terms abstracted to variables, for the nonlinear solver"""
        cache = {}
        seen = [False]
        AR = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE,
              z3.Z3_OP_GT, z3.Z3_OP_ANUM, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE}
        names = {}

        def ab(e):
            k = e.get_id()
            if k in cache:
                return cache[k][1]
            r = None
            if z3.is_quantifier(e) or z3.is_var(e):
                r = None
            elif z3.is_app(e):
                kd = e.decl().kind()
                ari = all(c.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT) for c in e.children())
                if kd in AR or (kd in (z3.Z3_OP_EQ, z3.Z3_OP_ITE, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT) and ari):
                    cs = [ab(c) for c in e.children()]
                    if all(c is not None for c in cs):
                        if kd in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) or (kd == z3.Z3_OP_MUL and sum(not z3.is_int_value(c) for c in cs) > 1):
                            seen[0] = True
                        r = e.decl()(*cs) if cs and kd not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB) else (
                            e if not cs else z3.And(cs) if kd == z3.Z3_OP_AND else z3.Or(cs) if kd == z3.Z3_OP_OR else z3.Sum(cs) if kd == z3.Z3_OP_ADD
                            else z3.Product(cs) if kd == z3.Z3_OP_MUL else cs[0] - z3.Sum(cs[1:]))
                elif e.sort().kind() == z3.Z3_INT_SORT:
                    r = names.setdefault(k, z3.Int("ab!%d" % k))
                elif e.sort().kind() == z3.Z3_BOOL_SORT:
                    if not has_quant(e):
                        r = names.setdefault(k, z3.Bool("ab!%d" % k))
            cache[k] = (e, r)
            return r

        def conj(f):
            if z3.is_and(f):
                for c in f.children():
                    yield from conj(c)
            else:
                yield f
        simp = lambda f: z3.simplify(f, som=False, arith_lhs=False)
        g = ab(simp(o.goal if goal is None else goal))
        if g is None:
            return False
        hs = []
        for f in list(base) + o.facts + o.pc:
            if z3.is_quantifier(f):
                continue
            for c in conj(simp(f)):
                x = ab(c)
                if x is not None:
                    hs.append(x)
        if not seen[0]:
            return False
        for mk in (lambda: z3.SolverFor("QF_NIA"), z3.Solver):
            s = mk()
            s.set("timeout", tmo)
            s.add(*hs)
            s.add(z3.Not(g))
            if s.check() == z3.unsat:
                return True
        return False

    def solve(self, o, timeout, k=1):
        """k: a second attempt has k times the time, and another seed"""
        z3.set_param("smt.random_seed", k - 1)
        base = self.relevant(o)
        # facts used only where sums are to be compared
        onsums = lambda f: z3.is_quantifier(f) and f.qid() == "sums"
        rest = [f for f in list(base) + o.facts if onsums(f)]
        base = [f for f in base if not onsums(f)]
        ofacts = [f for f in o.facts if not onsums(f)]
        t0 = time.time()
        why, model = "", None
        sat_em = False
        lin = [f for f in ofacts + o.pc if not nonlinear(f)]
        if len(lin) < len(ofacts) + len(o.pc) and not nonlinear(o.goal):
            # without the nonlinear hypotheses
            s = z3.Solver()
            s.set("timeout", 2500 * k)
            s.set("smt.mbqi", False)
            s.add(*base, *lin, z3.Not(o.goal))
            if s.check() == z3.unsat:
                return "unsat", "", None, time.time() - t0
        if self.arith_only(o, base):
            return "unsat", "nonlinear", None, time.time() - t0
        extra, goal, more = [], o.goal, []
        sums = any(n.startswith("ps?") for n in symbols(o.goal))
        if sums:
            s = z3.Solver()
            s.set("timeout", 1000 * k)
            s.set("smt.mbqi", False)
            s.add(*base, *rest, z3.Not(o.goal))
            if s.check() == z3.unsat:
                return "unsat", "", None, time.time() - t0
            if other_z3(s, 2000 * k):
                return "unsat", "z3 4", None, time.time() - t0
        for mbqi, tmo in ((False, 2500 if sums else 6000), ("sums", 6000), (False, 6000), (True, timeout)):
            if mbqi is False and tmo == 6000 and extra == [] and not sums and why:
                continue
            if mbqi == "sums":
                # sums of sequences found to be equal element by element
                while z3.is_implies(goal):
                    more.append(goal.arg(0))
                    goal = goal.arg(1)
                extra = self.equal_sums(o, list(base) + rest + ofacts + o.pc + more, goal)
                if not extra and not (sums and rest):
                    continue
                extra = extra + more + rest
                mbqi = False
                s = z3.Solver()
                s.set("timeout", 3000 * k)
                s.add(*[f for f in list(base) + ofacts + o.pc if not has_quant(f)], *extra, z3.Not(goal))
                if s.check() == z3.unsat:
                    return "unsat", "", None, time.time() - t0
                if self.arith_only(o, list(base) + extra, goal=goal):
                    return "unsat", "nonlinear", None, time.time() - t0
            s = z3.Solver()
            s.set("timeout", tmo * k)
            if not mbqi:
                s.set("smt.mbqi", False)
            s.add(*base)
            s.add(*ofacts)
            s.add(*o.pc)
            s.add(*extra)
            s.add(z3.Not(goal if extra else o.goal))
            r = s.check()
            if r == z3.unsat:
                return "unsat", "", None, time.time() - t0
            if r == z3.sat and not (rest and not extra):
                return "sat", "", s.model(), time.time() - t0
            why = s.reason_unknown()
            if not mbqi and other_z3(s, tmo * k):
                return "unsat", "z3 4", None, time.time() - t0
            if not mbqi and "incomplete" in why:
                # instantiation by patterns saturates without a proof; look for a model or a proof by model-based instantiation
                sat_em = True
        try:
            model = s.model()
        except z3.Z3Exception:
            pass
        return ("saturated" if sat_em else "unknown"), why, model, time.time() - t0

    def equal_sums(self, o, hyps, goal):
        """equal partial sums, for the pairs of summed arrays (one from the contract, one from the code) shown pointwise equal"""
        ps = lib.psum()
        found = {}
        seen = set()

        def walk(e):
            if e.get_id() in seen:
                return
            seen.add(e.get_id())
            if z3.is_app(e):
                if e.decl() == ps and z3.is_const(e.arg(0)) and e.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    found.setdefault(e.arg(0).decl().name(), (e.arg(0), []))[1].append(e.arg(1))
                for c in e.children():
                    walk(c)
            elif z3.is_quantifier(e):
                walk(e.body())
        for f in hyps + [goal]:
            walk(f)
        mine = [v for k, v in found.items() if k.startswith("ps?")]
        code = [v for k, v in found.items() if not k.startswith("ps?")]
        out = []
        clean = [f for f in hyps if not (z3.is_quantifier(f) and "psum" in symbols(f))]
        i, m = z3.Int("eqs!i"), z3.Int("eqs!m")
        for a, ms in mine:
            for b, ns in code:
                for n in {n.get_id(): n for n in ns if not has_var(n)}.values():
                    s = z3.Solver()
                    s.set("timeout", 4000)
                    s.set("smt.mbqi", False)
                    s.add(*clean)
                    s.add(i >= 0, i < n, z3.Select(a, i) != z3.Select(b, i))
                    if s.check() == z3.unsat:
                        out.append(ps(a, n) == ps(b, n))
                        for m_ in {x.get_id(): x for x in ms if not has_var(x)}.values():
                            s = z3.Solver()
                            s.set("timeout", 4000)
                            s.set("smt.mbqi", False)
                            s.add(*clean)
                            s.add(m_ != n)
                            if not m_.eq(n) and s.check() == z3.unsat:
                                out += [m_ == n, ps(a, m_) == ps(a, n)]
                        out.append(z3.ForAll([m], z3.Implies(z3.And(m >= 0, m <= n), ps(a, m) == ps(b, m)), patterns=[ps(a, m), ps(b, m)]))
        return out

    def discharge(self, jobs=8):
        """checks every obligation; fills o.status with proved/failed/unknown"""
        t0 = time.time()
        deadline = t0 + (480 if self.tier == "quick" else 780)
        self.round(list(range(len(self.obls))), jobs, deadline, 1)
        for k in (2, 4):
            if self.settled is not None and self.settled():
                break
            # a loaded machine makes stages run out of their time
            left = [i for i, o in enumerate(self.obls) if o.status == "unknown"]
            if not left or len(left) > 8 or any(o.status in ("failed", "saturated") for o in self.obls) or time.time() > (t0 + 240 if self.tier == "quick" else deadline - 120):
                break
            self.round(left, jobs, deadline, k)

    def round(self, order, jobs, deadline, k):
        n = len(order)
        if n == 0:
            return
        nxt = multiprocessing.Value("i", 0)
        halt = multiprocessing.Value("i", 0)
        since = None

        def work(conn):
            while True:
                with nxt.get_lock():
                    i = nxt.value
                    nxt.value += 1
                if i >= n:
                    break
                i = order[i]
                o = self.obls[i]
                conn.send(("begin", i))
                try:
                    if time.time() > deadline or halt.value:
                        conn.send(("end", i, "unknown", "time budget", None, 0.0))
                        continue
                    st, why, model, secs = self.solve(o, self.timeout, k)
                    m = None
                    if model is not None or st == "sat":
                        m = self.show_model(o, model)
                    conn.send(("end", i, {"unsat": "proved", "sat": "failed", "saturated": "saturated"}.get(st, "unknown"), why, m, secs))
                except Exception as ex:
                    conn.send(("end", i, "unknown", "error: %r" % (ex,), None, 0.0))
        live = {}

        def start():
            a, b = multiprocessing.Pipe(False)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    a.close()
                    work(b)
                finally:
                    os._exit(0)
            b.close()
            live[a] = [pid, None, time.time()]

        def stop(c):
            pid = live.pop(c)[0]
            c.close()
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        for _ in range(max(1, min(jobs, n))):
            start()
        while live:
            for c in multiprocessing.connection.wait(list(live), 2):
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    i = live[c][1]
                    stop(c)
                    if i is not None:
                        self.obls[i].status, self.obls[i].solver = "unknown", "the solver process ended"
                        start()
                    continue
                if r[0] == "begin":
                    live[c][1:] = [r[1], time.time()]
                    continue
                _, i, st, why, m, secs = r
                live[c][1:] = [None, time.time()]
                o = self.obls[i]
                o.status, o.model, o.secs = st, m, secs + (o.secs or 0 if k > 1 else 0)
                o.solver = why
            now = time.time()
            if not halt.value and self.settled is not None and self.settled():
                # a failing input was found meanwhile: once an obligation has failed too, or after some time, nothing more is begun
                since = since or now
                if now - since > 120 or any(o.status in ("failed", "saturated") for o in self.obls):
                    halt.value = 1
                    deadline = min(deadline, now - 15)
            for c, (pid, i, t) in list(live.items()):
                # z3 does not always stop at its time limit
                if i is not None and (now - t > 150 * k or now > deadline + 45):
                    stop(c)
                    o = self.obls[i]
                    o.status, o.solver, o.secs = "unknown", "the solver did not stop", now - t
                    start()

    def show_model(self, o, model):
        out = []
        if model is None:
            return None
        try:
            if o.sp is not None:
                for n, x in o.sp.run.args.items():
                    if n in ("deps",):
                        continue
                    v = str(model.eval(x.t, model_completion=True)).replace("\n", " ")
                    out.append("%s = %s" % (n, v[:600]))
            for d in model.decls():
                if d.name().startswith("st0:"):
                    out.append("%s = %s" % (d.name(), str(model[d]).replace("\n", " ")[:600]))
        except Exception as ex:
            out.append("model: %r" % (ex,))
        return out

    def check_covers(self):
        bad = []
        for run, kinds, name, cond in self.covers:
            ok = False
            for c in run.of(*kinds):
                extra = [tb(cond(c))] if cond else []
                s = z3.Solver()
                s.set("timeout", 4000)
                s.add(*self.facts)
                s.add(*self.eng.global_facts())
                s.add(*c.st.facts)
                s.add(*c.st.pc)
                s.add(*extra)
                if s.check() != z3.unsat:
                    ok = True
                    break
            if not ok:
                bad.append("%s/%s" % (run.key, name))
        return bad
