"""Assumed contracts of the dependencies: std, cosmwasm-std, cw-storage-plus, error-stack, itertools.

Each model states what the dependency does, over the engine's terms.  They are the trusted base; evidence lists
the ones a run used."""
import re

import z3

from engine import (T, Agg, ListV, Ref, Discr, It, PyV, Handle, CwMap, FnV, Outcome, PANIC, RET, Unsupported, UNITV, V, has_quant, Frame)
from types_ import *
from mir import path_to_ty
import seq
from seq import conc, AND, OR, forall

MODELS = {}


def model(*keys):
    def d(f):
        for k in keys:
            MODELS[k] = f
        return f
    return d


def install(eng):
    eng.models = MODELS


def global_facts(eng):
    fs = []
    srt = eng.ty.sort(STR)
    s = z3.Const("gs", srt)
    n = z3.Int("gn")
    emp = eng.str_const("").t
    ln = strlen(eng)
    fs.append(z3.ForAll([s], ln(s) >= 0, patterns=[ln(s)]))
    fs.append(z3.ForAll([s], (ln(s) == 0) == (s == emp), patterns=[ln(s)]))
    for c in list(eng.strs):
        fs.append(ln(eng.strs[c]) == len(c.encode()))
    a = z3.Const("ga", z3.ArraySort(z3.IntSort(), z3.IntSort()))
    b = z3.Const("gb", z3.ArraySort(z3.IntSort(), z3.IntSort()))
    i = z3.Int("gi")
    ps = psum()
    fs.append(z3.ForAll([a], ps(a, 0) == 0, patterns=[ps(a, 0)]))
    fs.append(z3.ForAll([a, n], z3.Implies(n >= 0, ps(a, n + 1) == ps(a, n) + z3.Select(a, n)), patterns=[z3.MultiPattern(ps(a, n), z3.Select(a, n))]))
    # theorems, by induction on n, of rules.lean.  psum_pointwise: pointwise equal arrays have equal sums
    fs.append(z3.ForAll([a, b, n], z3.Or(ps(a, n) == ps(b, n), z3.Exists([i], z3.And(i >= 0, i < n, z3.Select(a, i) != z3.Select(b, i)))),
                        patterns=[z3.MultiPattern(ps(a, n), ps(b, n))]))
    m = z3.Int("gm")
    # psum_grows: partial sums of non-negative amounts grow
    fs.append(z3.ForAll([a, m, n], z3.Or(m < 0, m > n, ps(a, m) <= ps(a, n), z3.Exists([i], z3.And(i >= 0, i < n, z3.Select(a, i) < 0))),
                        patterns=[z3.MultiPattern(ps(a, m), ps(a, n))]))
    # psum_ones: a sum of ones is their number
    fs.append(z3.ForAll([a, n], z3.Or(n < 0, ps(a, n) == n, z3.Exists([i], z3.And(i >= 0, i < n, z3.Select(a, i) != 1))), patterns=[ps(a, n)], qid="sums"))
    for d in eng.extra_facts:
        fs.append(d)
    return fs


def psum():
    return z3.Function("psum", z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort())


def strlen(eng):
    return z3.Function("strlen", eng.ty.sort(STR), z3.IntSort())


def uf(eng, name, doms, rng):
    return z3.Function(name, *[eng.ty.sort(d) for d in doms], eng.ty.sort(rng))


def ufv(eng, st, name, args, rng):
    """uninterpreted function application on values"""
    ts = [eng.term(st, a) for a in args]
    f = z3.Function(name, *[t.sort() for t in ts], eng.ty.sort(rng))
    v = T(f(*ts), rng)
    eng.touch(st, v)
    return v


def injective(eng, name, dom, rng):
    """an uninterpreted injective function with its inverse"""
    ds, rs = eng.ty.sort(dom), eng.ty.sort(rng)
    f = z3.Function(name, ds, rs)
    g = z3.Function("un" + name, rs, ds)
    if name not in eng.inj:
        eng.inj.add(name)
        x = z3.Const("ix", ds)
        eng.extra_facts.append(z3.ForAll([x], g(f(x)) == x, patterns=[f(x)]))
    return f, g


# ----------------------------------------------------------------------------- basics used by the engine
def ext_field(eng, st, v, i):
    return None


def ext_aggregate(eng, st, ct, path, names, fs):
    last = ct[1].split("::")[-1] if ct[0] == "adt" else ""
    if ct[:2] == ("adt", "FlagSet") and len(fs) == 1:
        return fs[0]
    if last in ("RangeInclusive", "Range", "RangeFrom", "RangeTo", "RangeFull"):
        return PyV("range", {"kind": last, "f": fs, "names": names})
    if ct[0] == "int" and len(fs) == 1:
        return fs[0]
    if ct in (STR, BYTES) and len(fs) == 1:
        return T(eng.term(st, fs[0]), ct)
    if ct[0] == "adt" and ct[1].startswith("ethabi::Token::") and len(fs) == 1:
        # one injective constructor per kind of token
        v = eng.deref(st, fs[0])
        ft = v.ty
        t = eng.term(st, v, ft)
        return T(injective(eng, ct[1][8:] + ":" + tname(ft), ft, TOKEN)[0](t), TOKEN)
    if ct[0] == "adt":
        # a dependency's type without a known layout
        return PyV("ext:" + last, {"fields": fs}, ct)
    return None


TOKEN = ("adt", "ethabi::Token", ())


def named_const(eng, st, p, c, s, fr):
    if p[-1][0] == "seg" and p[-1][1] in ("MAX", "MIN"):
        q = p[-2] if len(p) > 1 else None
        t = None
        if q and q[0] == "implty":
            t = eng.ty.canon(q[1], fr.crate, fr.subst)
        elif q and q[0] == "seg":
            t = eng.ty.canon(path_to_ty(p[:-1]), fr.crate, fr.subst) if q[1] not in INT_BOUNDS else ("int", q[1])
        elif p[0][0] == "q":
            t = eng.ty.canon(p[0][1], fr.crate, fr.subst)
        if t and t[0] == "int":
            lo, hi = INT_BOUNDS[t[1]]
            return T(z3.IntVal(hi if p[-1][1] == "MAX" else lo), t)
    return None


def eq(eng, st, a, b):
    a, b = eng.deref(st, a), eng.deref(st, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.variant != b.variant:
            return z3.BoolVal(False)
        return AND([eq(eng, st, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Agg) and isinstance(b, T) and a.ty[0] != "closure":
        return eq_at(eng, st, a, b)
    if isinstance(b, Agg) and isinstance(a, T):
        return eq_at(eng, st, b, a)
    ty = a.ty if isinstance(a, T) else getattr(b, "ty", None)
    if isinstance(a, ListV) and isinstance(b, ListV):
        if len(a.items) != len(b.items):
            return z3.BoolVal(False)
        return AND([eq(eng, st, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, (ListV,)) or isinstance(b, (ListV,)):
        l, o = (a, b) if isinstance(a, ListV) else (b, a)
        if l.ty != BYTES:
            o = eng.as_T(st, o)
            return AND([eng.seq_len(o.t) == len(l.items)] + [eq(eng, st, x, T(eng.seq_at(o.t, i), l.elem)) for i, x in enumerate(l.items)])
    return eng.term(st, a, ty) == eng.term(st, b, ty)


def eq_at(eng, st, a, b):
    vs = eng.ty.variants(b.ty)
    if vs is None:
        return eng.term(st, a, b.ty) == b.t
    con, rec, acc, ft, fn = eng.ty.constructor(b.ty, a.variant)
    parts = [] if len(vs) == 1 else [rec(b.t)]
    return AND(parts + [eq(eng, st, x, T(g(b.t), t)) for x, g, t in zip(a.f, acc, ft)])


def lt(eng, st, a, b):
    """strict order: integers exactly, structures lexicographically, strings by an uninterpreted order"""
    a, b = eng.deref(st, a), eng.deref(st, b)
    ty = getattr(a, "ty", None)
    if ty[0] == "int":
        return a.t < b.t
    if ty[0] == "bool":
        return z3.And(z3.Not(a.t), b.t)
    vs = eng.ty.variants(ty)
    if vs is not None and len(vs) == 1:
        x, y = eng.expand(st, a), eng.expand(st, b)
        r = z3.BoolVal(False)
        for p, q in reversed(list(zip(x.f, y.f))):
            r = z3.Or(lt(eng, st, p, q), z3.And(eq(eng, st, p, q), r))
        return r
    ta, tb = eng.term(st, a), eng.term(st, b)
    return strict_order(eng, ta.sort())(ta, tb)


def strict_order(eng, s):
    f = z3.Function("lt:" + str(s), s, s, z3.BoolSort())
    key = "lt:" + str(s)
    if key not in eng.inj:
        eng.inj.add(key)
        x, y, z = [z3.Const("o%s" % c, s) for c in "xyz"]
        eng.extra_facts.append(z3.ForAll([x], z3.Not(f(x, x)), patterns=[f(x, x)]))
        eng.extra_facts.append(z3.ForAll([x, y], z3.Or(f(x, y), f(y, x), x == y), patterns=[f(x, y)]))
        eng.extra_facts.append(z3.ForAll([x, y], z3.Not(z3.And(f(x, y), f(y, x))), patterns=[f(x, y)]))
        eng.extra_facts.append(z3.ForAll([x, y, z], z3.Implies(z3.And(f(x, y), f(y, z)), f(x, z)), patterns=[z3.MultiPattern(f(x, y), f(y, z))]))
    return f


def bitop(eng, op, x, y, ty):
    f = z3.Function("bit" + op, z3.IntSort(), z3.IntSort(), z3.IntSort())
    return f(x, y)


def length(eng, st, v):
    v = eng.deref(st, v)
    if isinstance(v, ListV):
        return T(z3.IntVal(len(v.items)), USIZE)
    if isinstance(v, PyV) and v.kind == "bytelit":
        return T(z3.IntVal(len(eval(v.d["text"]))), USIZE)
    if v.ty == BYTES:
        r = ufv(eng, st, "byteslen", [v], USIZE)
        return r
    if v.ty == STR:
        t = strlen(eng)(v.t)
        st.facts.append(t <= 2**63)
        return T(t, USIZE)
    if v.ty[0] == "adt" and v.ty[1] == "Vec":
        eng.touch(st, v)
        return T(eng.seq_len(v.t), USIZE)
    if v.ty[0] == "adt" and v.ty[1] == "Map":
        n, _ = seq.ents(eng, st, v)
        return T(n, USIZE)
    if v.ty[0] == "adt" and v.ty[1] == "Set":
        return T(seq.set_iter(eng, st, v).n, USIZE)
    raise Unsupported("length of %s" % tname(v.ty))


def byte_at(eng, st, v, i):
    f = z3.Function("byteat", eng.ty.sort(BYTES), z3.IntSort(), z3.IntSort())
    x = T(f(eng.term(st, v), i if not isinstance(i, int) else z3.IntVal(i)), ("int", "u8"))
    eng.touch(st, x)
    return x


def bytes_lit(eng, st, v):
    ts = [eng.term(st, x) for x in v.items]
    if ts and all(z3.is_int_value(t) for t in ts):
        return z3.Const("bytes:" + bytes(t.as_long() for t in ts).hex(), eng.ty.sort(BYTES))
    if not ts:
        return z3.Const("bytes:", eng.ty.sort(BYTES))
    r = eng.fresh(st, "bytes", eng.ty.sort(BYTES))
    f = z3.Function("byteat", eng.ty.sort(BYTES), z3.IntSort(), z3.IntSort())
    for i, t in enumerate(ts):
        st.facts.append(f(r, i) == t)
    st.facts.append(z3.Function("byteslen", eng.ty.sort(BYTES), z3.IntSort())(r) == len(ts))
    return r


# ----------------------------------------------------------------------------- helpers
def arms(eng, st, v):
    """[(st, variant, payload or None)]"""
    v = eng.deref(st, v)
    if not isinstance(v, (Agg, T)):
        raise Unsupported("match on %r" % (v,))
    out = []
    for s, vn in eng.fork_variant(st, v):
        n = len(v.f) if isinstance(v, Agg) else len(eng.ty.constructor(v.ty, vn)[3])
        out.append((s, vn, eng.payload(s, v, vn) if n else None))
    return out


def arms_ref(eng, st, v):
    """like arms, but the payload of a place is a reference into it (Option<&mut T> from &mut Option<T>)"""
    out = []
    tgt = v
    vv = eng.deref(st, v)
    for s, vn in eng.fork_variant(st, vv):
        out.append((s, vn, Ref(tgt.cell, tgt.path + (("f", 0, vn),)) if isinstance(tgt, Ref) else eng.payload(s, vv, vn) if vn in ("Some", "Ok", "Err") else None))
    return out


def then(outs, f):
    """continue each returning outcome with f(st, v)"""
    r = []
    for o in outs:
        if o.kind == PANIC:
            r.append(o)
        else:
            x = f(o.st, o.v)
            if isinstance(x, V):
                r.append(Outcome(o.st, RET, x))
            elif isinstance(x, Outcome):
                r.append(x)
            else:
                r.extend(y if isinstance(y, Outcome) else Outcome(y[0], RET, y[1]) if len(y) == 2 else Outcome(*y) for y in x)
    return r


def panic(st):
    return Outcome(st, PANIC, None)


def vty(eng, st, v):
    return getattr(eng.deref(st, v), "ty", None)


def rty(info, i=0):
    r = info.ret
    if r is not None and r[0] == "adt" and len(r[2]) > i and usable(r[2][i]):
        return r[2][i]
    return None


def usable(t):
    return t is not None and t[0] != "opaque" and not (t[0] == "adt" and t[1].startswith("?"))


def optpay(eng, st, v):
    t = vty(eng, st, v)
    return t[2][0]


def fresh_err(eng, st, ty=None):
    return eng.fresh_v(st, "err", ty if ty is not None else ("adt", "cosmwasm_std::errors::std_error::StdError", ()))


def retv(eng, st, info, name="ext"):
    if info.ret is None:
        raise Unsupported("fresh value of unknown type for %s" % info.key)
    return eng.fresh_v(st, name, info.ret)


def as_str(eng, st, v):
    v = eng.deref(st, v)
    return v


# ----------------------------------------------------------------------------- identity-like
@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "ToOwned::to_owned", "Clone::clone", "String::as_str",
       "Addr::as_str", "Addr::into_string", "Addr::unchecked", "slice::to_vec", "slice::into_vec", "Vec::as_slice", "HexBinary::as_slice",
       "Binary::as_slice", "Binary::to_vec", "Box::new", "Uint64::new", "Uint128::new", "Uint256::new", "Uint64::u64", "Uint128::u128", "GenericArray::as_slice",
       "Timestamp::nanos", "Timestamp::from_nanos", "Option::as_deref", "Cow::into_owned", "Iterator::cloned", "Iterator::copied", "Option::cloned", "Option::copied",
       "Option::as_ref", "Result::as_ref", "str::to_owned", "String::into_boxed_str", "HexBinary::to_vec", "Borrow::borrow_mut", "Iterator::by_ref", "Arc::new", "Rc::new",
       "String::from", "Vec::into_iter_", "Iterator::peekable_", "Uint128::from_u128", "Uint256::from_u128", "Into::into_identity", "Uint256::from_uint128",
       "str::as_str", "Vec::into_boxed_slice", "vec::into_boxed_slice", "must_use", "hint::must_use", "Box::into_inner", "EncodedPoint::as_bytes")
def m_id(eng, st, args, info):
    a = args[0]
    name = info.key.split("::")[-1]
    if name in ("deref_mut", "as_mut", "borrow_mut", "by_ref"):
        return a
    v = eng.deref(st, a)
    if info.key == "Clone::clone" and isinstance(v, (Handle,)):
        return v
    if name in ("as_ref",) and info.ret is not None and info.ret[0] == "adt" and info.ret[1] == "Option" and isinstance(a, Ref) and vty(eng, st, a)[1] == "Option":
        return v
    if isinstance(v, T) and info.ret is not None and info.ret != v.ty and info.ret[0] in ("int",) and v.ty[0] == "int":
        return T(v.t, info.ret)
    return v


@model("Option::as_mut", "Result::as_mut")
def m_as_mut(eng, st, args, info):
    a = args[0]
    out = []
    v = eng.deref(st, a)
    ty = v.ty
    for s, vn in eng.fork_variant(st, v):
        if vn == "None":
            out.append((s, eng.none(ty[2][0])))
        else:
            out.append((s, Agg(ty, vn, (Ref(a.cell, a.path + (("f", 0, vn),)),))))
    return out


# ----------------------------------------------------------------------------- conversions
def convert(eng, st, v, src, dst, info):
    """library conversion src -> dst; list or value; None when unknown"""
    d = eng.deref(st, v)
    if src == dst or dst is None:
        return d
    if src[0] == "int" and dst[0] == "int":
        (a, b), (c, e) = INT_BOUNDS[src[1]], INT_BOUNDS[dst[1]]
        if a >= c and b <= e:
            return T(d.t, dst)
    if src[0] == "int" and dst == STR:
        return T(show(eng, d), STR)
    if src == STR and dst == BYTES:
        f, _ = injective(eng, "utf8", STR, BYTES)
        return T(f(eng.term(st, d)), BYTES)
    if {src, dst} == {STR}:
        return d
    if dst[0] == "adt" and dst[1].endswith("CosmosMsg"):
        for vn, ft, fn, _ in eng.ty.variants(dst):
            if len(ft) == 1 and ft[0] == src:
                return Agg(dst, vn, (d,))
    if dst[0] == "adt" and dst[1] == "Option" and dst[2][0] == src:
        return Agg(dst, "Some", (d,))
    if dst[0] == "dyn" or dst[0] == "opaque":
        return d
    if dst[0] == "adt" and dst[1] == "Map" and src[0] == "adt" and src[1] == "Vec":
        it = seq.list_iter(eng, st, d)
        return collect_into(eng, st, it, dst)
    if src == BYTES and dst == ("int", "U256"):
        return ufv(eng, st, "u256_be", [d], dst)
    if eng.ty.variants(dst) is None and dst[0] == "adt" and dst[1].split("::")[0] not in eng.mods and dst[1] not in ("Vec", "Map", "Set", "String", "Bytes"):
        r = eng.fresh_v(st, "conv", dst)
        return r
    # error conversions of dependencies
    if "Error" in tname(dst) or "Report" in tname(dst):
        return eng.fresh_v(st, "err", dst)
    return None


@model("Into::into")
def m_into(eng, st, args, info):
    src, dst = info.selfty(), info.trait_args()[0]
    s0 = vty(eng, st, args[0])
    if not usable(src):
        src = s0
    r = convert(eng, st, args[0], src, dst, info)
    if r is None and s0 is not None and s0 != src:
        r = convert(eng, st, args[0], s0, dst, info)
    if r is None:
        raise Unsupported("Into<%s> for %s" % (tname(dst), tname(src)))
    return r


# ---------------------------------------------------------------------------------- flagset 0.4
def _bv8(t):
    if z3.is_int_value(t):
        return z3.BitVecVal(t.as_long(), 8)
    if t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return z3.If(c, _bv8(a), _bv8(b))
    return z3.Int2BV(t, 8)


def flags_of(eng, st, v, fr):
    """impl Into<FlagSet<F>>: a FlagSet<F>, a flag F (its discriminant), or None"""
    d = eng.deref(st, v)
    if d.ty[:2] == ("adt", "FlagSet"):
        return eng.term(st, d)
    return _bv8(fr.cast_int(st, Discr(d), "u8").t)


def is_flags(t):
    return t[:2] == ("adt", "FlagSet")


FLAG_OPS = {"bitor": lambda a, b: a | b, "bitand": lambda a, b: a & b, "bitxor": lambda a, b: a ^ b,
            "sub": lambda a, b: a & ~b, "rem": lambda a, b: a ^ b}


@model("BitOr::bitor", "BitAnd::bitand", "BitXor::bitxor", "Rem::rem")
def m_flag_op(eng, st, args, info):
    a = eng.deref(st, args[0])
    ty = info.selfty()
    if is_flags(ty) or (info.ret is not None and is_flags(info.ret)):
        ty = ty if is_flags(ty) else info.ret
        return T(FLAG_OPS[info.key.split("::")[1]](flags_of(eng, st, a, info.fr), flags_of(eng, st, args[1], info.fr)), ty)
    raise Unsupported("%s on %s" % (info.key, tname(ty)))


@model("BitOrAssign::bitor_assign", "BitAndAssign::bitand_assign", "BitXorAssign::bitxor_assign")
def m_flag_assign(eng, st, args, info):
    r = args[0]
    a = eng.deref(st, r)
    if not is_flags(a.ty):
        raise Unsupported("%s on %s" % (info.key, tname(a.ty)))
    op = info.key.split("::")[1].replace("_assign", "")
    s = st.copy()
    eng.write(s, r.cell, r.path, T(FLAG_OPS[op](a.t, flags_of(eng, st, args[1], info.fr)), a.ty))
    return [(s, Agg(UNIT, "", []))]


@model("FlagSet::contains", "FlagSet::is_disjoint", "FlagSet::is_empty", "FlagSet::bits", "FlagSet::new_unchecked",
       "FlagSet::new_truncated", "FlagSet::clear", "FlagSet::is_full", "FlagSet::full")
def m_flagset(eng, st, args, info):
    op = info.key.split("::")[1]
    def full():
        t = info.selfty()
        ds = [v[3] for v in eng.ty.variants(t[2][0])]
        m = 0
        for x in ds:
            m |= x
        return m
    if op == "full":
        return T(z3.BitVecVal(full(), 8), info.selfty())
    if op == "new_unchecked":
        return T(_bv8(eng.deref(st, args[0]).t), info.selfty())
    if op == "new_truncated":
        return T(_bv8(eng.deref(st, args[0]).t) & full(), info.selfty())
    a = flags_of(eng, st, args[0], info.fr)
    if op == "contains":
        b = flags_of(eng, st, args[1], info.fr)
        return eng.boolv((a & b) == b)
    if op == "is_disjoint":
        return eng.boolv((a & flags_of(eng, st, args[1], info.fr)) == 0)
    if op == "is_empty":
        return eng.boolv(a == 0)
    if op == "is_full":
        return eng.boolv(a == full())
    if op == "bits":
        return T(z3.BV2Int(a), ("int", "u8"))
    if op == "clear":
        s = st.copy()
        eng.write(s, args[0].cell, args[0].path, T(z3.BitVecVal(0, 8), eng.deref(st, args[0]).ty))
        return [(s, Agg(UNIT, "", []))]


@model("From::from")
def m_from(eng, st, args, info):
    dst, src = info.selfty(), info.trait_args()[0]
    if is_flags(dst):
        return T(flags_of(eng, st, args[0], info.fr), dst)
    r = convert(eng, st, args[0], src, dst, info)
    if r is None:
        raise Unsupported("From<%s> for %s" % (tname(src), tname(dst)))
    return r


def try_convert(eng, st, v, src, dst, info):
    d = eng.deref(st, v)
    et = rty(info, 1) or ("opaque", "converr")
    if src[0] == "int" and dst[0] == "int":
        lo, hi = INT_BOUNDS[dst[1]]
        out = []
        for s, b in eng.fork(st, z3.And(d.t >= lo, d.t <= hi)):
            if b:
                out.append((s, Agg(RES(dst, et), "Ok", (T(d.t, dst),))))
            else:
                out.append((s, Agg(RES(dst, et), "Err", (eng.fresh_v(s, "err", et),))))
        return out
    if src == STR and dst[0] == "int":
        ok = ufv(eng, st, "parse_ok:" + dst[1], [d], BOOL)
        val = ufv(eng, st, "parse:" + dst[1], [d], dst)
        if "parse:" + dst[1] not in eng.inj:
            # the decimal text of a number parses to that number when it fits the type, and does not parse otherwise
            eng.inj.add("parse:" + dst[1])
            show_, _ = injective(eng, "show:int", ("int", "u128"), STR)
            x = z3.Int("shx")
            lo, hi = INT_BOUNDS[dst[1]]
            fits = z3.And(x >= lo, x <= hi)
            eng.extra_facts.append(z3.ForAll([x], z3.And(ok.t.decl()(show_(x)) == fits, z3.Implies(fits, val.t.decl()(show_(x)) == x)), patterns=[show_(x)]))
        out = []
        for s, b in eng.fork(st, ok.t):
            out.append((s, Agg(RES(dst, et), "Ok", (val,)) if b else Agg(RES(dst, et), "Err", (eng.fresh_v(s, "err", et),))))
        return out
    if src == dst == BYTES:
        # byte vector to array of N bytes: succeeds iff the length is N
        n = None
        m = re.search(r"\[u8; (?:const )?(\d+)", str(info.path) + str(info.text))
        ok = ufv(eng, st, "arr_ok", [d], BOOL) if not m else T(length(eng, st, d).t == int(m.group(1)), BOOL)
        out = []
        for s, b in eng.fork(st, ok.t):
            out.append((s, Agg(RES(dst, et), "Ok", (d,)) if b else Agg(RES(dst, et), "Err", (eng.fresh_v(s, "err", et),))))
        return out
    if src == dst:
        return Agg(RES(dst, et), "Ok", (d,))
    return None


@model("TryInto::try_into")
def m_try_into(eng, st, args, info):
    src, dst = info.selfty(), info.trait_args()[0]
    r = try_convert(eng, st, args[0], src, dst, info)
    if r is None:
        raise Unsupported("TryInto<%s> for %s" % (tname(dst), tname(src)))
    return r


@model("TryFrom::try_from")
def m_try_from(eng, st, args, info):
    dst, src = info.selfty(), info.trait_args()[0]
    r = try_convert(eng, st, args[0], src, dst, info)
    if r is None:
        raise Unsupported("TryFrom<%s> for %s" % (tname(src), tname(dst)))
    return r


@model("str::parse")
def m_parse(eng, st, args, info):
    dst = info.generics()[0]
    tgt = eng.find_impl("FromStr", (), dst, "from_str", args, info.fr)
    if tgt is not None and not (dst[0] == "adt" and eng.is_strum(dst)):
        return eng.call_fn(st, tgt[0], tgt[1], args, tgt[2], info.depth + 1)
    et = rty(info, 1) or ("opaque", "parseerr")
    d = eng.deref(st, args[0])
    vs = eng.ty.variants(dst)
    if vs is not None and eng.is_strum(dst):
        # strum's EnumString: the variant's name parses to the variant, nothing else parses
        out = []
        cur = st
        for vn, ft, fn, _ in vs:
            nxt = None
            for s, b in eng.fork(cur, d.t == eng.str_const(vn).t):
                if b:
                    out.append((s, Agg(RES(dst, et), "Ok", (Agg(dst, vn, ()),))))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        out.append((cur, Agg(RES(dst, et), "Err", (eng.fresh_v(cur, "err", et),))))
        return out
    r = try_convert(eng, st, args[0], STR, dst, info)
    if r is None:
        raise Unsupported("parse::<%s>" % tname(dst))
    return r


@model("FromStr::from_str")
def m_from_str(eng, st, args, info):
    ty = info.selfty()
    r = try_convert(eng, st, args[0], STR, ty, info)
    if r is None and ty[0] == "adt" and ty[1].split("::")[0] not in eng.ty.crates and eng.ty.variants(ty) is None:
        # a dependency's type: accepts a text or not, and as what, depending on the text only
        return opt_result(eng, st, "parse:" + ty[1].split("::")[-1], args[:1], ty, info)
    if r is None:
        raise Unsupported("from_str %s" % tname(info.selfty()))
    return r


# ----------------------------------------------------------------------------- Option / Result
@model("Try::branch")
def m_branch(eng, st, args, info):
    v = eng.deref(st, args[0])
    t = v.ty
    out = []
    inf = ("adt", "std::Infallible", ())
    for s, vn, p in arms(eng, st, v):
        if t[1] == "Result":
            cf = ("adt", "std::ControlFlow", (RES(inf, t[2][1]), t[2][0]))
            if vn == "Ok":
                out.append((s, Agg(cf, "Continue", (p,))))
            else:
                out.append((s, Agg(cf, "Break", (Agg(RES(inf, t[2][1]), "Err", (p,)),))))
        elif t[1] == "Option":
            cf = ("adt", "std::ControlFlow", (OPT(inf), t[2][0]))
            if vn == "Some":
                out.append((s, Agg(cf, "Continue", (p,))))
            else:
                out.append((s, Agg(cf, "Break", (Agg(OPT(inf), "None", ()),))))
        else:
            raise Unsupported("? on %s" % tname(t))
    return out


@model("FromResidual::from_residual")
def m_residual(eng, st, args, info):
    ret = info.selfty()
    v = eng.deref(st, args[0])
    if ret[1] == "Option":
        return eng.none(ret[2][0])
    e = eng.payload(st, v, "Err")
    src, dst = getattr(eng.deref(st, e), "ty", None), ret[2][1]
    if src == dst or not usable(dst):
        return Agg(ret, "Err", (e,))
    return then(conv_from(eng, st, e, src, dst, info), lambda s, x: Agg(ret, "Err", (x,)))


def conv_from(eng, st, v, src, dst, info):
    """<dst as From<src>>::from(v): the workspace's impl, or the library's"""
    if src == dst:
        return [Outcome(st, RET, v)]
    tgt = eng.find_impl("From", (src,), dst, "from", [v], info.fr)
    if tgt is not None:
        if eng.derived_err(tgt[1]):
            return eng.call_fn(st, tgt[0], tgt[1], [v], tgt[2], info.depth + 1)
        return eng.call_fn(st, tgt[0], tgt[1], [v], tgt[2], info.depth + 1)
    r = convert(eng, st, v, src, dst, info)
    if r is None:
        r = eng.fresh_v(st, "err", dst)
    return eng.wrap(st, r)


@model("Option::is_some", "Result::is_ok")
def m_is_some(eng, st, args, info):
    v = eng.deref(st, args[0])
    return eng.boolv(eng.is_variant(v, "Some" if v.ty[1] == "Option" else "Ok"))


@model("Option::is_none", "Result::is_err")
def m_is_none(eng, st, args, info):
    v = eng.deref(st, args[0])
    return eng.boolv(eng.is_variant(v, "None" if v.ty[1] == "Option" else "Err"))


@model("Option::map", "Result::map")
def m_map(eng, st, args, info):
    v = eng.deref(st, args[0])
    out = []
    for s, vn, p in arms(eng, st, v):
        if vn in ("Some", "Ok"):
            def k(s2, x, vn=vn):
                xt = vty(eng, s2, x) or rty(info)
                return Agg(OPT(xt) if vn == "Some" else RES(xt, v.ty[2][1]), vn, (x,))
            out.extend(then(eng.call_value(s, args[1], [p], info.depth), k))
        elif vn == "None":
            out.append(Outcome(s, RET, info.ret and Agg(info.ret, "None", ()) or eng.none(rty(info) or UNIT)))
        else:
            out.append(Outcome(s, RET, Agg(RES(rty(info) or UNIT, v.ty[2][1]), "Err", (p,))))
    return fix_types(eng, out, info)


def fix_types(eng, outs, info):
    """give sibling outcomes one common type"""
    ty = info.ret if info.ret is not None and usable(info.ret) and all(usable(a) for a in info.ret[2]) else None
    if ty is None:
        # take parameters from whichever outcome knows them
        best = [None, None]
        for o in outs:
            if o.kind == RET and isinstance(o.v, Agg) and o.v.ty[0] == "adt":
                for j, vn in enumerate({"Some": ["Some"], "None": ["Some"], "Ok": ["Ok", "Err"], "Err": ["Ok", "Err"]}.get(o.v.variant, [])):
                    if o.v.variant == vn:
                        best[j] = o.v.ty[2][j]
        for o in outs:
            if o.kind == RET and isinstance(o.v, Agg) and o.v.ty[0] == "adt" and o.v.ty[1] in ("Option", "Result"):
                a = tuple(best[j] if best[j] is not None else o.v.ty[2][j] for j in range(len(o.v.ty[2])))
                o.v = Agg((o.v.ty[0], o.v.ty[1], a), o.v.variant, o.v.f)
        return outs
    for o in outs:
        if o.kind == RET and isinstance(o.v, Agg) and o.v.ty[0] == "adt" and o.v.ty[1] == ty[1]:
            o.v = Agg(ty, o.v.variant, o.v.f)
    return outs


@model("Option::and_then", "Result::and_then")
def m_and_then(eng, st, args, info):
    v = eng.deref(st, args[0])
    out = []
    for s, vn, p in arms(eng, st, v):
        if vn in ("Some", "Ok"):
            out.extend(eng.call_value(s, args[1], [p], info.depth))
        elif vn == "None":
            out.append(Outcome(s, RET, eng.none(rty(info) or UNIT)))
        else:
            out.append(Outcome(s, RET, Agg(RES(rty(info) or UNIT, v.ty[2][1]), "Err", (p,))))
    return fix_types(eng, out, info)


@model("Result::map_err")
def m_map_err(eng, st, args, info):
    v = eng.deref(st, args[0])
    out = []
    for s, vn, p in arms(eng, st, v):
        if vn == "Ok":
            out.append(Outcome(s, RET, Agg(RES(v.ty[2][0], rty(info, 1) or v.ty[2][1]), "Ok", (p,))))
        else:
            out.extend(then(eng.call_value(s, args[1], [p], info.depth),
                            lambda s2, x: Agg(RES(v.ty[2][0], rty(info, 1) or vty(eng, s2, x)), "Err", (x,))))
    return fix_types(eng, out, info)


@model("Option::ok_or", "Option::ok_or_else")
def m_ok_or(eng, st, args, info):
    v = eng.deref(st, args[0])
    out = []
    lazy = info.key.endswith("else")
    for s, vn, p in arms(eng, st, v):
        if vn == "Some":
            out.append(Outcome(s, RET, Agg(RES(v.ty[2][0], rty(info, 1) or (vty(eng, s, args[1]) if not lazy else UNIT)), "Ok", (p,))))
        elif lazy:
            out.extend(then(eng.call_value(s, args[1], [], info.depth), lambda s2, x: Agg(RES(v.ty[2][0], vty(eng, s2, x)), "Err", (x,))))
        else:
            out.append(Outcome(s, RET, Agg(RES(v.ty[2][0], vty(eng, s, args[1])), "Err", (args[1],))))
    return fix_types(eng, out, info)


@model("Result::ok")
def m_ok(eng, st, args, info):
    v = eng.deref(st, args[0])
    return [(s, eng.some(p, v.ty[2][0]) if vn == "Ok" else eng.none(v.ty[2][0])) for s, vn, p in arms(eng, st, v)]


@model("Result::err")
def m_err(eng, st, args, info):
    v = eng.deref(st, args[0])
    return [(s, eng.some(p, v.ty[2][1]) if vn == "Err" else eng.none(v.ty[2][1])) for s, vn, p in arms(eng, st, v)]


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect")
def m_unwrap(eng, st, args, info):
    return [(s, RET, p) if vn in ("Some", "Ok") else (s, PANIC, None) for s, vn, p in arms(eng, st, args[0])]


@model("Option::unwrap_or", "Result::unwrap_or")
def m_unwrap_or(eng, st, args, info):
    return [(s, p if vn in ("Some", "Ok") else args[1]) for s, vn, p in arms(eng, st, args[0])]


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def m_unwrap_or_else(eng, st, args, info):
    out = []
    for s, vn, p in arms(eng, st, args[0]):
        if vn in ("Some", "Ok"):
            out.append(Outcome(s, RET, p))
        else:
            out.extend(eng.call_value(s, args[1], [] if vn == "None" else [p], info.depth))
    return out


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def m_unwrap_or_default(eng, st, args, info):
    out = []
    t = vty(eng, st, args[0])[2][0]
    for s, vn, p in arms(eng, st, args[0]):
        if vn in ("Some", "Ok"):
            out.append(Outcome(s, RET, p))
        else:
            out.extend(default_of(eng, s, t, info))
    return out


def default_of(eng, st, t, info):
    tgt = eng.find_impl_any("Default", t, "default", info.fr)
    if tgt is not None:
        return eng.call_fn(st, tgt[0], tgt[1], [], tgt[2], info.depth + 1)
    return [Outcome(st, RET, default_val(eng, st, t))]


def default_val(eng, st, t):
    if t[0] == "int":
        return T(z3.IntVal(0), t)
    if t == BOOL:
        return T(z3.BoolVal(False), t)
    if t == STR:
        return eng.str_const("")
    if t == BYTES:
        return ListV(("int", "u8"), [])
    if t[0] == "adt":
        if t[1] == "Option":
            return eng.none(t[2][0])
        if t[1] == "Vec":
            return ListV(t[2][0], [])
        if t[1] == "Map":
            return T(eng.empty_map(*t[2]), t)
        if t[1] == "Response":
            return new_response(eng, st)
    if t == UNIT:
        return UNITV
    d = eng.def_of(t)
    if d is not None and d.kind == "struct" and "Default" in str(d.attrs):
        vn, ft, fn, _ = eng.ty.variants(t)[0]
        return Agg(t, vn, [default_val(eng, st, x) for x in ft])
    raise Unsupported("default of %s" % tname(t))


@model("Default::default")
def m_default(eng, st, args, info):
    return default_of(eng, st, info.selfty() if info.path[0][0] == "q" else info.ret, info)


@model("Option::map_or", "Result::map_or")
def m_map_or(eng, st, args, info):
    out = []
    for s, vn, p in arms(eng, st, args[0]):
        if vn in ("Some", "Ok"):
            out.extend(eng.call_value(s, args[2], [p], info.depth))
        else:
            out.append(Outcome(s, RET, args[1]))
    return out


@model("Option::map_or_else", "Result::map_or_else")
def m_map_or_else(eng, st, args, info):
    out = []
    for s, vn, p in arms(eng, st, args[0]):
        if vn in ("Some", "Ok"):
            out.extend(eng.call_value(s, args[2], [p], info.depth))
        else:
            out.extend(eng.call_value(s, args[1], [] if vn == "None" else [p], info.depth))
    return out


@model("Option::filter")
def m_opt_filter(eng, st, args, info):
    out = []
    v = eng.deref(st, args[0])
    for s, vn, p in arms(eng, st, v):
        if vn == "None":
            out.append(Outcome(s, RET, v if isinstance(v, Agg) else eng.none(v.ty[2][0])))
            continue
        for o in eng.call_value(s, args[1], [p], info.depth):
            if o.kind == PANIC:
                out.append(o)
                continue
            for s2, b in eng.fork(o.st, eng.deref(o.st, o.v).t):
                out.append(Outcome(s2, RET, eng.some(p, v.ty[2][0]) if b else eng.none(v.ty[2][0])))
    return out


@model("Option::is_some_and", "Result::is_ok_and")
def m_is_some_and(eng, st, args, info):
    out = []
    for s, vn, p in arms(eng, st, args[0]):
        if vn in ("Some", "Ok"):
            out.extend(eng.call_value(s, args[1], [p], info.depth))
        else:
            out.append(Outcome(s, RET, eng.boolv(False)))
    return out


@model("Option::transpose", "Result::transpose")
def m_transpose(eng, st, args, info):
    v = eng.deref(st, args[0])
    out = []
    if v.ty[1] == "Option":
        rt = v.ty[2][0]
        ty = RES(OPT(rt[2][0]), rt[2][1])
        for s, vn, p in arms(eng, st, v):
            if vn == "None":
                out.append((s, Agg(ty, "Ok", (eng.none(rt[2][0]),))))
            else:
                for s2, v2, q in arms(eng, s, p):
                    out.append((s2, Agg(ty, "Ok", (eng.some(q, rt[2][0]),)) if v2 == "Ok" else Agg(ty, "Err", (q,))))
        return out
    rt = v.ty
    ty = OPT(RES(rt[2][0][2][0], rt[2][1]))
    for s, vn, p in arms(eng, st, v):
        if vn == "Err":
            out.append((s, Agg(ty, "Some", (Agg(ty[2][0], "Err", (p,)),))))
        else:
            for s2, v2, q in arms(eng, s, p):
                out.append((s2, Agg(ty, "Some", (Agg(ty[2][0], "Ok", (q,)),)) if v2 == "Some" else Agg(ty, "None", ())))
    return out


@model("Option::flatten")
def m_opt_flatten(eng, st, args, info):
    v = eng.deref(st, args[0])
    return [(s, p if vn == "Some" else eng.none(v.ty[2][0][2][0])) for s, vn, p in arms(eng, st, v)]


@model("Option::or", "Result::or")
def m_or(eng, st, args, info):
    v = eng.deref(st, args[0])
    return [(s, Agg(v.ty, vn, (p,)) if vn in ("Some", "Ok") else args[1]) for s, vn, p in arms(eng, st, v)]


@model("Option::xor")
def m_xor(eng, st, args, info):
    out = []
    for s, vn, p in arms(eng, st, args[0]):
        for s2, vm, q in arms(eng, s, args[1]):
            out.append((s2, eng.deref(s2, args[0] if vm == "None" else args[1] if vn == "None" else eng.none(vty(eng, s2, args[0])[2][0]))))
    return out


@model("Option::zip")
def m_opt_zip(eng, st, args, info):
    out = []
    for s, vn, p in arms(eng, st, args[0]):
        for s2, vm, q in arms(eng, s, args[1]):
            if vn == "Some" and vm == "Some":
                t = ("tuple", (vty(eng, s2, p), vty(eng, s2, q)))
                out.append((s2, eng.some(Agg(t, "", (p, q)), t)))
            else:
                out.append((s2, eng.none(info.ret[2][0])))
    return out


@model("Option::or_else", "Result::or_else")
def m_or_else(eng, st, args, info):
    v = eng.deref(st, args[0])
    out = []
    for s, vn, p in arms(eng, st, v):
        if vn in ("Some", "Ok"):
            out.append(Outcome(s, RET, Agg(v.ty if vn == "Some" else (info.ret or v.ty), vn, (p,))))
        else:
            out.extend(eng.call_value(s, args[1], [] if vn == "None" else [p], info.depth))
    return fix_types(eng, out, info)


@model("Option::take", "mem::take", "mem::replace", "Option::replace", "Option::insert")
def m_take(eng, st, args, info):
    r = args[0]
    old = eng.deref(st, r)
    st = st.copy()
    if info.key == "Option::take":
        new = eng.none(old.ty[2][0])
    elif info.key == "mem::take":
        new = default_val(eng, st, old.ty)
    elif info.key == "mem::replace":
        new = args[1]
    else:
        new = eng.some(args[1], old.ty[2][0])
    eng.write(st, r.cell, r.path, new)
    return [(st, old)]


@model("mem::swap")
def m_swap(eng, st, args, info):
    a, b = args
    x, y = eng.deref(st, a), eng.deref(st, b)
    st = st.copy()
    eng.write(st, a.cell, a.path, y)
    eng.write(st, b.cell, b.path, x)
    return [(st, UNITV)]


@model("alloc::exchange_malloc", "alloc::box_free")
def m_malloc(eng, st, args, info):
    return PyV("alloc", {})


@model("mem::drop", "drop")
def m_drop(eng, st, args, info):
    return UNITV


@model("bool::then", "bool::then_some")
def m_bool_then(eng, st, args, info):
    v = eng.deref(st, args[0])
    out = []
    for s, b in eng.fork(st, v.t):
        if not b:
            out.append(Outcome(s, RET, eng.none(rty(info) or UNIT)))
        elif info.key.endswith("some"):
            out.append(Outcome(s, RET, eng.some(args[1], vty(eng, s, args[1]))))
        else:
            out.extend(then(eng.call_value(s, args[1], [], info.depth), lambda s2, x: eng.some(x, vty(eng, s2, x))))
    return fix_types(eng, out, info)


# ----------------------------------------------------------------------------- comparisons
@model("PartialEq::eq")
def m_eq(eng, st, args, info):
    return eng.boolv(eq(eng, st, args[0], args[1]))


@model("PartialEq::ne")
def m_ne(eng, st, args, info):
    # a hand-written eq decides
    ta, tb = vty(eng, st, args[0]), vty(eng, st, args[1])
    tgt = eng.find_impl("PartialEq", (tb,), ta, "eq", args, info.fr) if ta and tb and ta[0] == "adt" else None
    if tgt is not None and not eng.derived(tgt[0], tgt[1]):
        outs = eng.call_fn(st, tgt[0], tgt[1], list(args), tgt[2], info.depth + 1)
        return then(outs, lambda s, o: eng.boolv(z3.Not(eng.deref(s, o).t)))
    return eng.boolv(z3.Not(eq(eng, st, args[0], args[1])))


@model("PartialOrd::lt", "PartialOrd::gt", "PartialOrd::le", "PartialOrd::ge")
def m_ord(eng, st, args, info):
    op = info.key[-2:]
    ty = vty(eng, st, args[0])
    # a hand-written partial_cmp decides the operators
    tgt = eng.find_impl("PartialOrd", (ty,), ty, "partial_cmp", args, info.fr) if ty[0] == "adt" else None
    if tgt is not None and not eng.derived(tgt[0], tgt[1]):
        outs = eng.call_fn(st, tgt[0], tgt[1], list(args), tgt[2], info.depth + 1)

        def k(s, o):
            return [(s3, eng.boolv({"lt": v2 == "Less", "gt": v2 == "Greater", "le": v2 in ("Less", "Equal"), "ge": v2 in ("Greater", "Equal")}[op])
                     if v1 == "Some" else eng.boolv(False))
                    for s2, v1, p in arms(eng, s, o) for s3, v2 in (eng.fork_variant(s2, p) if v1 == "Some" else [(s2, None)])]
        return then(outs, k)
    a, b = args
    if op == "lt":
        t = lt(eng, st, a, b)
    elif op == "gt":
        t = lt(eng, st, b, a)
    elif op == "le":
        t = z3.Not(lt(eng, st, b, a))
    else:
        t = z3.Not(lt(eng, st, a, b))
    return eng.boolv(t)


ORDERING = ("adt", "std::Ordering", ())


@model("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(eng, st, args, info):
    a, b = args
    part = info.key.startswith("Partial")
    l, g = lt(eng, st, a, b), lt(eng, st, b, a)
    s = eng.ty.sort(ORDERING)
    t = z3.If(l, s.constructor(0)(), z3.If(g, s.constructor(2)(), s.constructor(1)()))
    v = T(t, ORDERING)
    return eng.some(v, ORDERING) if part else v


@model("Ordering::reverse")
def m_ord_rev(eng, st, args, info):
    v = eng.as_T(st, args[0])
    s = eng.ty.sort(ORDERING)
    return T(z3.If(s.recognizer(0)(v.t), s.constructor(2)(), z3.If(s.recognizer(2)(v.t), s.constructor(0)(), s.constructor(1)())), ORDERING)


@model("Ordering::then", "Ordering::then_with")
def m_ord_then(eng, st, args, info):
    v = eng.as_T(st, args[0])
    s = eng.ty.sort(ORDERING)
    if info.key.endswith("with"):
        outs = eng.call_value(st, args[1], [], info.depth)
    else:
        outs = [Outcome(st, RET, args[1])]
    return then(outs, lambda s2, w: T(z3.If(s.recognizer(1)(v.t), eng.term(s2, w, ORDERING), v.t), ORDERING))


@model("cmp::min", "Ord::min", "cmp::max", "Ord::max")
def m_min(eng, st, args, info):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    c = lt(eng, st, b, a) if info.key.endswith("min") else lt(eng, st, a, b)
    if info.key.endswith("max"):
        c = z3.Not(lt(eng, st, b, a))
        return T(z3.If(c, eng.term(st, b), eng.term(st, a)), a.ty)
    return T(z3.If(c, eng.term(st, b), eng.term(st, a)), a.ty)


# ----------------------------------------------------------------------------- integers
def int_res(eng, st, t, ty, ok=None):
    """checked arithmetic: the value, or a panic when it does not fit"""
    lo, hi = INT_BOUNDS[ty[1]]
    out = []
    for s, b in eng.fork(st, z3.And(t >= lo, t <= hi)):
        out.append((s, RET, T(t, ty)) if b else (s, PANIC, None))
    return out


def arith(eng, st, op, a, b):
    x, y = a.t, b.t
    if op == "add":
        return x + y
    if op == "sub":
        return x - y
    if op == "mul":
        return x * y
    raise Unsupported(op)


@model("Add::add", "Sub::sub", "Mul::mul", "Div::div", "Rem::rem")
def m_arith(eng, st, args, info):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    if a.ty == STR and info.key == "Add::add":
        return T(text_of(eng, [eng.term(st, a, STR), eng.term(st, b, STR)]), STR)
    if a.ty[0] != "int":
        raise Unsupported("%s on %s" % (info.key, tname(a.ty)))
    op = info.key.split("::")[1]
    if op in ("div", "rem"):
        out = []
        for s, z in eng.fork(st, b.t == 0):
            out.append((s, PANIC, None) if z else (s, RET, T(a.t / b.t if op == "div" else a.t % b.t, a.ty)))
        return out
    return int_res(eng, st, arith(eng, st, op, a, b), a.ty)


@model("AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign", "DivAssign::div_assign")
def m_arith_assign(eng, st, args, info):
    r = args[0]
    a, b = eng.deref(st, r), eng.deref(st, args[1])
    if is_flags(a.ty) and info.key.startswith("SubAssign"):
        s = st.copy()
        eng.write(s, r.cell, r.path, T(FLAG_OPS["sub"](a.t, flags_of(eng, st, b, info.fr)), a.ty))
        return [(s, Agg(UNIT, "", []))]
    if a.ty[0] != "int":
        raise Unsupported("%s on %s" % (info.key, tname(a.ty)))
    op = info.key.split("::")[1].split("_")[0]
    if op == "div":
        outs = []
        for s, z in eng.fork(st, b.t == 0):
            outs.append((s, PANIC, None) if z else (s, RET, T(a.t / b.t, a.ty)))
    else:
        outs = int_res(eng, st, arith(eng, st, op, a, b), a.ty)
    res = []
    for s, k, v in outs:
        if k == PANIC:
            res.append(Outcome(s, k, v))
        else:
            s = s.copy()
            if isinstance(r, Ref):
                eng.write(s, r.cell, r.path, v)
            res.append(Outcome(s, RET, UNITV))
    return res


def int_methods():
    for ty in list(INT_BOUNDS):
        for op in ("add", "sub", "mul"):
            for kind in ("checked", "saturating", "wrapping", "overflowing"):
                MODELS["%s::%s_%s" % (ty, kind, op)] = m_int_op
        MODELS["%s::checked_div" % ty] = m_int_op
        MODELS["%s::checked_rem" % ty] = m_int_op
        MODELS["%s::pow" % ty] = m_int_op
        MODELS["%s::zero" % ty] = lambda eng, st, args, info, ty=ty: T(z3.IntVal(0), ("int", ty))
        MODELS["%s::one" % ty] = lambda eng, st, args, info, ty=ty: T(z3.IntVal(1), ("int", ty))
        MODELS["%s::is_zero" % ty] = lambda eng, st, args, info: eng.boolv(eng.deref(st, args[0]).t == 0)
        MODELS["%s::full_mul" % ty] = m_full_mul
        MODELS["%s::mul_ceil" % ty] = m_mul_ceil
        MODELS["%s::mul_floor" % ty] = m_mul_ceil
        MODELS["%s::checked_mul_ceil" % ty] = m_checked_mul_frac
        MODELS["%s::checked_mul_floor" % ty] = m_checked_mul_frac
        MODELS["%s::to_be_bytes" % ty] = m_be_bytes
        MODELS["%s::from_be_bytes" % ty] = m_from_be
        MODELS["%s::abs_diff" % ty] = m_abs_diff
        MODELS["%s::multiply_ratio" % ty] = m_ratio
        MODELS["%s::checked_multiply_ratio" % ty] = m_ratio


def m_ratio(eng, st, args, info):
    a, n, d = [eng.deref(st, x) for x in args[:3]]
    ty = a.ty
    q = (a.t * n.t) / d.t
    lo, hi = INT_BOUNDS[ty[1]]
    out = []
    for s, b in eng.fork(st, z3.And(d.t != 0, q <= hi)):
        if "checked" in info.key:
            et = rty(info, 1) or ("opaque", "ratioerr")
            out.append((s, RET, Agg(RES(ty, et), "Ok", (T(q, ty),)) if b else Agg(RES(ty, et), "Err", (eng.fresh_v(s, "err", et),))))
        else:
            out.append((s, RET, T(q, ty)) if b else (s, PANIC, None))
    return out


def m_abs_diff(eng, st, args, info):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    return T(z3.If(a.t > b.t, a.t - b.t, b.t - a.t), a.ty)


def be_name(ty):
    """the big-endian bytes of a number of that width"""
    return "be:" + {"Uint64": "u64", "Uint128": "u128", "usize": "u64"}.get(ty[1], ty[1])


def m_be_bytes(eng, st, args, info):
    a = eng.deref(st, args[0])
    f, _ = injective(eng, be_name(a.ty), a.ty, BYTES)
    w = {"Uint64": 8, "Uint128": 16, "Uint256": 32, "Uint512": 64, "usize": 8}.get(a.ty[1]) or (int(a.ty[1][1:]) // 8 if a.ty[1][1:].isdigit() else None)
    if w:
        st.facts.append(z3.Function("byteslen", eng.ty.sort(BYTES), z3.IntSort())(f(a.t)) == w)
    return T(f(a.t), BYTES)


def m_from_be(eng, st, args, info):
    ty = info.ret
    f, g = injective(eng, be_name(ty), ty, BYTES)
    r = T(g(eng.term(st, args[0], BYTES)), ty)
    eng.touch(st, r)
    return r


def m_full_mul(eng, st, args, info):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    up = {"Uint64": "Uint128", "Uint128": "Uint256", "Uint256": "Uint512"}[a.ty[1]]
    return T(a.t * b.t, ("int", up))


def m_checked_mul_frac(eng, st, args, info):
    """as mul_ceil and mul_floor, with an error where those panic"""
    out = []
    t, et = info.ret[2] if info.ret is not None and info.ret[0] == "adt" and len(info.ret[2]) == 2 else (vty(eng, st, args[0]), ("opaque", "fracerr"))
    for o in m_mul_ceil(eng, st, args, info):
        s, k, v = (o.st, o.kind, o.v) if isinstance(o, Outcome) else o if len(o) == 3 else (o[0], RET, o[1])
        out.append((s, RET, Agg(RES(t, et), "Ok", (v,)) if k == RET else Agg(RES(t, et), "Err", (eng.fresh_v(s, "err", et),))))
    return out


def m_mul_ceil(eng, st, args, info):
    """self * numerator / denominator rounded up; panics on a zero denominator or when the result does not fit"""
    a, fr_ = eng.deref(st, args[0]), args[1]
    fty = vty(eng, st, fr_)
    def get(s, name):
        tgt = eng.find_impl_any("Fraction", fty, name, info.fr, [fr_])
        if tgt is None:
            raise Unsupported("Fraction for %s" % tname(fty))
        return eng.call_fn(s, tgt[0], tgt[1], [fr_], tgt[2], info.depth + 1)

    def k(s, num):
        def k2(s2, den):
            n, d = eng.deref(s2, num).t, eng.deref(s2, den).t
            lo, hi = INT_BOUNDS[a.ty[1]]
            out = []
            for s3, z in eng.fork(s2, d == 0):
                if z:
                    out.append((s3, PANIC, None))
                    continue
                q = eng.fresh_v(s3, "ceil", a.ty)
                qt = eng.fresh(s3, "q", z3.IntSort())
                if info.key.endswith("ceil"):
                    s3.facts.append(z3.And(qt * d >= a.t * n, (qt - 1) * d < a.t * n))
                else:
                    s3.facts.append(z3.And(qt * d <= a.t * n, (qt + 1) * d > a.t * n))
                s3.facts.append(qt >= 0)
                for s4, fits in eng.fork(s3, qt <= hi):
                    if fits:
                        s4.facts.append(q.t == qt)
                        out.append((s4, RET, q))
                    else:
                        out.append((s4, PANIC, None))
            return out
        return then(get(s, "denominator"), k2)
    return then(get(st, "numerator"), k)


def m_int_op(eng, st, args, info):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    kind, op = info.key.split("::")[1].split("_") if "_" in info.key else ("", info.key.split("::")[1])
    ty = a.ty
    lo, hi = INT_BOUNDS[ty[1]]
    if op in ("div", "rem"):
        t = a.t / b.t if op == "div" else a.t % b.t
        ok = b.t != 0
    elif op == "pow":
        if conc(a.t) is None or conc(b.t) is None:
            raise Unsupported("pow")
        t = z3.IntVal(conc(a.t) ** conc(b.t))
        return int_res(eng, st, t, ty)
    else:
        t = arith(eng, st, op, a, b)
        ok = z3.And(t >= lo, t <= hi)
    if kind == "saturating":
        return T(z3.If(t < lo, z3.IntVal(lo), z3.If(t > hi, z3.IntVal(hi), t)), ty)
    if kind == "wrapping":
        return T(t % (hi + 1), ty) if lo == 0 else None
    if kind == "overflowing":
        return Agg(("tuple", (ty, BOOL)), "", (T(t % (hi + 1), ty), T(z3.Not(ok), BOOL)))
    res = []
    cw = ty[1] in CW_INTS
    for s, g in eng.fork(st, ok):
        if cw:
            et = rty(info, 1) or ("opaque", "overflow")
            res.append((s, Agg(RES(ty, et), "Ok", (T(t, ty),)) if g else Agg(RES(ty, et), "Err", (eng.fresh_v(s, "err", et),))))
        else:
            res.append((s, eng.some(T(t, ty)) if g else eng.none(ty)))
    return res


int_methods()


@model("Timestamp::plus_nanos", "Timestamp::plus_seconds", "Timestamp::plus_minutes", "Timestamp::plus_hours", "Timestamp::plus_days",
       "Timestamp::minus_nanos", "Timestamp::minus_seconds", "Timestamp::minus_days")
def m_ts(eng, st, args, info):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    sg, unit = info.key.split("::")[1].split("_")
    k = {"nanos": 1, "seconds": 10**9, "minutes": 60 * 10**9, "hours": 3600 * 10**9, "days": 86400 * 10**9}[unit]
    t = a.t + b.t * k if sg == "plus" else a.t - b.t * k
    return int_res(eng, st, t, ("int", "Timestamp"))


@model("Timestamp::seconds")
def m_ts_secs(eng, st, args, info):
    return T(eng.deref(st, args[0]).t / 10**9, ("int", "u64"))


@model("Timestamp::from_seconds")
def m_ts_from(eng, st, args, info):
    return int_res(eng, st, eng.deref(st, args[0]).t * 10**9, ("int", "Timestamp"))


@model("One::one")
def m_one(eng, st, args, info):
    t = info.selfty()
    if t[0] == "int":
        return T(z3.IntVal(1), t)
    tgt = eng.find_impl_any("One", t, "one", info.fr)
    if tgt is None:
        raise Unsupported("One for %s" % tname(t))
    return eng.call_fn(st, tgt[0], tgt[1], [], tgt[2], info.depth + 1)


# ----------------------------------------------------------------------------- calls of function values
@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def m_call(eng, st, args, info):
    tup = eng.deref(st, args[1])
    xs = list(tup.f) if isinstance(tup, Agg) else list(eng.expand(st, tup).f)
    return eng.call_value(st, args[0], xs, info.depth)


# ----------------------------------------------------------------------------- strings and formatting
def text_pieces(eng, t):
    """the parts a text was put together from: constants (str) and terms"""
    if t.num_args() == 0 and t.decl().name().startswith("str:"):
        return [t.decl().name()[4:]]
    tpl = eng.fmts.get(t.decl().name())
    if tpl is None:
        return [t]
    out = []
    for k, x in enumerate(tpl):
        if x:
            out.append(x)
        if k < t.num_args():
            out += text_pieces(eng, t.arg(k))
    return out


def text_of(eng, parts):
    """the text put together from constants and terms, in one form whichever way it was built"""
    flat = []
    for p in parts:
        flat += [p] if isinstance(p, str) else text_pieces(eng, p)
    tpl, fargs = [""], []
    for p in flat:
        if isinstance(p, str):
            tpl[-1] += p
        else:
            fargs.append(p)
            tpl.append("")
    if not fargs:
        return eng.str_const(tpl[0]).t
    if len(fargs) == 1 and tpl == ["", ""]:
        return fargs[0]
    srt = eng.ty.sort(STR)
    name = "fmt:" + "{}".join(tpl)
    if eng.fmts.setdefault(name, tpl) != tpl:
        name += "#%r" % (tpl,)
        eng.fmts[name] = tpl
    f = z3.Function(name, *[srt] * len(fargs), srt)
    if any(tpl) and name not in eng.inj:
        # a text with something written in it is not empty
        eng.inj.add(name)
        vs = [z3.Const("tx!%d" % k, srt) for k in range(len(fargs))]
        eng.extra_facts.append(z3.ForAll(vs, f(*vs) != eng.str_const("").t, patterns=[f(*vs)]))
    return f(*fargs)


def show(eng, d):
    f, _ = injective(eng, "show:int", ("int", "u128"), STR)
    return f(d.t)


def display(eng, st, v, info=None):
    """the Display text of a value, as a term"""
    v = eng.deref(st, v)
    if isinstance(v, PyV) and v.kind == "fmt":
        return v.d["t"]
    ty = getattr(v, "ty", None)
    if ty is None or ty[0] == "opaque":
        return eng.fresh(st, "text", eng.ty.sort(STR))
    if ty == STR:
        return eng.term(st, v)
    if ty == ("int", "char") and conc(v.t) is not None:
        return eng.str_const(chr(conc(v.t))).t
    if ty[0] == "int":
        return show(eng, v)
    try:
        t = eng.term(st, v)
    except Unsupported:
        return eng.fresh(st, "text", eng.ty.sort(STR))
    if ty == BYTES:
        # HexBinary; Binary, which shows as base64, is not told from it and nowhere displayed in the contracts
        return injective(eng, "hex", BYTES, STR)[0](t)
    return z3.Function("display:" + tname(ty), t.sort(), eng.ty.sort(STR))(t)


@model("ToString::to_string")
def m_to_string(eng, st, args, info):
    v = eng.deref(st, args[0])
    ty = getattr(v, "ty", None)
    if ty is not None and ty[0] == "adt" and eng.is_strum(ty) and eng.ty.variants(ty) and all(not x[1] for x in eng.ty.variants(ty)):
        return enum_name(eng, st, v)
    if ty is not None and ty[0] == "adt" and ty[1] in eng.enum_display and isinstance(v, (T, Agg)):
        return enum_name(eng, st, v)
    r = run_display(eng, st, v, info)
    if r is not None:
        return r
    return T(display(eng, st, v), STR)


def run_display(eng, st, v, info):
    """execute the workspace's own Display impl"""
    ty = getattr(v, "ty", None)
    if ty is None or ty[0] != "adt":
        return None
    tgt = eng.find_impl_any("Display", ty, "fmt", info.fr, [v])
    if tgt is None or eng.derived(tgt[0], tgt[1]):
        return None
    s = st.copy()
    cell = ("fmt", next(eng.fid))
    s.cells[cell] = PyV("formatter", {"t": None})
    outs = eng.call_fn(s, tgt[0], tgt[1], [v, Ref(cell, ())], tgt[2], info.depth + 1)
    res = []
    for o in outs:
        if o.kind == PANIC:
            res.append(o)
            continue
        b = o.st.cells[cell].d["t"]
        if b is None:
            b = eng.str_const("").t
        res.append(Outcome(o.st, RET, T(b, STR)))
    return res


def enum_name(eng, st, v):
    t = eng.term(st, v)
    vs = eng.ty.variants(v.ty)
    if isinstance(v, Agg):
        return eng.str_const(v.variant)
    r = None
    for vn, ft, fn, _ in vs:
        rec = eng.ty.constructor(v.ty, vn)[1]
        c = eng.str_const(vn).t
        r = c if r is None else z3.If(rec(t), c, r)
    return T(r, STR)


@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex")
def m_arg(eng, st, args, info):
    v = eng.deref(st, args[0])
    if info.key.endswith("display"):
        r = m_to_string(eng, st, [v], info)
        return then(eng.wrap(st, r), lambda s, x: PyV("fmt", {"t": eng.term(s, x)}))
    try:
        t = eng.term(st, v)
    except Unsupported:
        return PyV("fmt", {"t": eng.fresh(st, "dbg", eng.ty.sort(STR))})
    return PyV("fmt", {"t": z3.Function(info.key + ":" + str(t.sort()), t.sort(), eng.ty.sort(STR))(t)})


@model("Argument::none")
def m_arg_none(eng, st, args, info):
    return ListV(None, [])


@model("Arguments::new_v1", "Arguments::new_const", "Arguments::new_v1_formatted")
def m_args(eng, st, args, info):
    pieces = eng.deref(st, args[0])
    texts = []
    items = pieces.items if isinstance(pieces, ListV) else None
    if items is None:
        return PyV("fmtargs", {"t": eng.fresh(st, "text", eng.ty.sort(STR))})
    for p in items:
        t = eng.deref(st, p)
        nm = str(t.t).strip("|")
        texts.append(nm[4:] if nm.startswith("str:") else nm)
    fargs = []
    if len(args) > 1:
        l = eng.deref(st, args[1])
        for x in l.items:
            fargs.append(eng.deref(st, x).d["t"])
    if info.key.endswith("formatted"):
        return PyV("fmtargs", {"t": eng.fresh(st, "text", eng.ty.sort(STR))})
    parts = []
    for k in range(max(len(texts), len(fargs))):
        parts += [texts[k]] if k < len(texts) else []
        parts += [fargs[k]] if k < len(fargs) else []
    return PyV("fmtargs", {"t": text_of(eng, parts)})


@model("fmt::format", "alloc::fmt::format")
def m_format(eng, st, args, info):
    v = eng.deref(st, args[0])
    return T(v.d["t"], STR)


@model("Formatter::write_fmt", "Formatter::write_str", "Write::write_fmt", "Write::write_str")
def m_write(eng, st, args, info):
    v = eng.deref(st, args[1])
    t = v.d["t"] if isinstance(v, PyV) else eng.term(st, v)
    r = args[0]
    st = st.copy()
    cur = eng.deref(st, r)
    if isinstance(cur, PyV) and cur.kind == "formatter":
        old = cur.d["t"]
        nt = t if old is None else text_of(eng, [old, t])
        eng.write(st, r.cell, r.path, PyV("formatter", {"t": nt}))
    ok = Agg(RES(UNIT, ("opaque", "fmterr")), "Ok", (UNITV,))
    return [(st, ok)]


@model("Display::fmt")
def m_display_fmt(eng, st, args, info):
    return m_write(eng, st, [args[1], PyV("fmt", {"t": display(eng, st, args[0])})], info)


@model("String::new")
def m_str_new(eng, st, args, info):
    return eng.str_const("")


@model("str::is_empty", "String::is_empty")
def m_str_empty(eng, st, args, info):
    return eng.boolv(eng.term(st, args[0]) == eng.str_const("").t)


@model("str::len", "String::len")
def m_str_len(eng, st, args, info):
    return length(eng, st, args[0])


@model("str::to_lowercase", "str::to_uppercase", "str::trim", "str::to_ascii_lowercase")
def m_lower(eng, st, args, info):
    f = uf(eng, info.key, [STR], STR)
    t = f(eng.term(st, args[0]))
    if info.key not in eng.inj:
        eng.inj.add(info.key)
        x = z3.Const("lx", eng.ty.sort(STR))
        eng.extra_facts.append(z3.ForAll([x], f(f(x)) == f(x), patterns=[f(x)]))
        if "case" in info.key:
            eng.extra_facts.append(z3.ForAll([x], (f(x) == eng.str_const("").t) == (x == eng.str_const("").t), patterns=[f(x)]))
    return T(t, STR)


@model("str::contains", "str::starts_with", "str::ends_with")
def m_contains(eng, st, args, info):
    return ufv(eng, st, info.key, args[:2], BOOL)


@model("str::trim_start_matches", "str::trim_end_matches", "str::trim_matches")
def m_trim(eng, st, args, info):
    return ufv(eng, st, info.key, args[:2], STR)


@model("str::strip_prefix", "str::strip_suffix")
def m_strip(eng, st, args, info):
    b = ufv(eng, st, info.key + ":ok", args[:2], BOOL)
    v = ufv(eng, st, info.key, args[:2], STR)
    return [(s, eng.some(v) if c else eng.none(STR)) for s, c in eng.fork(st, b.t)]


def text_facts(eng, sep):
    """std's contracts on a separator: where a text put together around it splits, and that changing case adds or removes none of it"""
    key = "text:%s" % sep
    if key in eng.inj:
        return
    eng.inj.add(key)
    S = eng.ty.sort(STR)
    a, b, ch = z3.Const("ta!", S), z3.Const("tb!", S), z3.IntVal(ord(sep))
    has = z3.Function("str::contains", S, z3.IntSort(), z3.BoolSort())
    lower = z3.Function("str::to_lowercase", S, S)
    f = z3.Function("fmt:{}%s{}" % sep, S, S, S)
    eng.fmts.setdefault("fmt:{}%s{}" % sep, ["", sep, ""])
    empty = eng.str_const("").t
    split = lambda n, r: z3.Function("split_once:" + n, S, z3.IntSort(), r)
    t = f(a, b)
    eng.extra_facts.append(z3.ForAll([a, b], z3.And(has(t, ch), z3.Implies(z3.Not(has(a, ch)), z3.And(
        split("ok", z3.BoolSort())(t, ch), split("0", S)(t, ch) == a, split("1", S)(t, ch) == b))), patterns=[t]))
    eng.extra_facts.append(z3.ForAll([a], z3.And(has(lower(a), ch) == has(a, ch), lower(lower(a)) == lower(a), (lower(a) == empty) == (a == empty)), patterns=[lower(a)]))
    eng.extra_facts.append(z3.ForAll([a], z3.And(split("ok", z3.BoolSort())(a, ch) == has(a, ch), z3.Implies(has(a, ch), z3.And(
        z3.Not(has(split("0", S)(a, ch), ch)), a == f(split("0", S)(a, ch), split("1", S)(a, ch))))), patterns=[split("0", S)(a, ch)]))


@model("str::split_once")
def m_split_once(eng, st, args, info):
    sep = eng.deref(st, args[1])
    if sep.ty == ("int", "char") and conc(sep.t) is not None:
        text_facts(eng, chr(conc(sep.t)))
    b = ufv(eng, st, "split_once:ok", args[:2], BOOL)
    x, y = ufv(eng, st, "split_once:0", args[:2], STR), ufv(eng, st, "split_once:1", args[:2], STR)
    ty = ("tuple", (STR, STR))
    return [(s, eng.some(Agg(ty, "", (x, y))) if c else eng.none(ty)) for s, c in eng.fork(st, b.t)]


@model("str::split")
def m_split(eng, st, args, info):
    a, b = eng.term(st, args[0]), eng.term(st, args[1])
    n = z3.Function("split:n", a.sort(), b.sort(), z3.IntSort())(a, b)
    f = z3.Function("split:at", a.sort(), b.sort(), z3.IntSort(), a.sort())
    st.facts.append(n >= 1)
    return It(n, lambda e, s, i: [(s, "item", T(f(a, b, i), STR))], True, STR)


@model("str::as_bytes", "String::as_bytes", "String::into_bytes", "str::bytes_")
def m_as_bytes(eng, st, args, info):
    f, g = injective(eng, "utf8", STR, BYTES)
    t = f(eng.term(st, args[0]))
    bl = z3.Function("byteslen", eng.ty.sort(BYTES), z3.IntSort())
    st.facts.append(bl(t) == strlen(eng)(eng.term(st, args[0])))
    return T(t, BYTES)


@model("String::from_utf8", "str::from_utf8")
def m_from_utf8(eng, st, args, info):
    b = ufv(eng, st, "utf8ok", [args[0]], BOOL)
    f, g = injective(eng, "utf8", STR, BYTES)
    et = rty(info, 1) or ("opaque", "utf8err")
    v = T(g(eng.term(st, args[0], BYTES)), STR)
    return [(s, Agg(RES(STR, et), "Ok", (v,)) if c else Agg(RES(STR, et), "Err", (eng.fresh_v(s, "err", et),))) for s, c in eng.fork(st, b.t)]


@model("HexBinary::to_hex", "ToHex::encode_hex", "hex::encode")
def m_to_hex(eng, st, args, info):
    f, _ = injective(eng, "hex", BYTES, STR)
    return T(f(eng.term(st, args[0], BYTES)), STR)


@model("HexBinary::from_hex", "FromHex::from_hex", "hex::decode")
def m_from_hex(eng, st, args, info):
    b = ufv(eng, st, "hexok", [args[0]], BOOL)
    g = z3.Function("unhexlike", eng.ty.sort(STR), eng.ty.sort(BYTES))
    v = T(g(eng.term(st, args[0])), BYTES)
    et = rty(info, 1) or ("opaque", "hexerr")
    return [(s, Agg(RES(BYTES, et), "Ok", (v,)) if c else Agg(RES(BYTES, et), "Err", (eng.fresh_v(s, "err", et),))) for s, c in eng.fork(st, b.t)]


@model("HexBinary::len", "Binary::len", "slice::len", "Vec::len", "HashMap::len", "BTreeMap::len", "ExactSizeIterator::len", "BTreeSet::len", "HashSet::len")
def m_len(eng, st, args, info):
    v = eng.deref(st, args[0])
    if isinstance(v, It):
        return T(v.n - v.pos if not isinstance(v.n, int) else z3.IntVal(v.n - v.pos), USIZE)
    return length(eng, st, v)


@model("slice::is_empty", "Vec::is_empty", "HashMap::is_empty", "BTreeMap::is_empty", "HexBinary::is_empty", "Binary::is_empty")
def m_is_empty(eng, st, args, info):
    return eng.boolv(length(eng, st, args[0]).t == 0)


@model("any::type_name")
def m_type_name(eng, st, args, info):
    return eng.str_const("type")


@model("slice::join", "Itertools::join")
def m_join(eng, st, args, info):
    v = eng.deref(st, args[0])
    if isinstance(v, It):
        return eng.fresh_v(st, "joined", STR)
    if isinstance(v, ListV) and v.items:
        parts = []
        for x in v.items:
            parts += ([eng.term(st, args[1], STR)] if parts else []) + [eng.term(st, x, STR)]
        return T(text_of(eng, parts), STR)
    return ufv(eng, st, "join", [v, args[1]], STR)


@model("String::push_str", "String::push")
def m_push_str(eng, st, args, info):
    v = eng.deref(st, args[0])
    st = st.copy()
    x = display(eng, st, args[1])
    eng.write(st, args[0].cell, args[0].path, T(text_of(eng, [eng.term(st, v, STR), x]), STR))
    return [(st, UNITV)]


@model("slice::concat")
def m_concat(eng, st, args, info):
    v = eng.deref(st, args[0])
    if info.ret == BYTES:
        if isinstance(v, ListV):
            if len(v.items) == 2 and "concat2" not in eng.inj:
                # the first part and the whole determine the second part
                eng.inj.add("concat2")
                bs = eng.ty.sort(BYTES)
                a, b = z3.Const("cca", bs), z3.Const("ccb", bs)
                c = z3.Function("concat2", bs, bs, bs)(a, b)
                eng.extra_facts.append(z3.ForAll([a, b], z3.Function("unconcat2", bs, bs, bs)(a, c) == b, patterns=[c]))
            return ufv(eng, st, "concat%d" % len(v.items), [T(eng.term(st, x, BYTES), BYTES) for x in v.items], BYTES)
        return ufv(eng, st, "concatb", [v], BYTES)
    if info.ret == STR and isinstance(v, ListV):
        return T(text_of(eng, [eng.term(st, x, STR) for x in v.items]), STR)
    raise Unsupported("concat")


# ----------------------------------------------------------------------------- vectors
@model("Vec::new", "Vec::with_capacity", "VecDeque::new")
def m_vec_new(eng, st, args, info):
    t = info.ret if info.ret and info.ret[0] == "adt" and info.ret[1] in ("Vec", "Bytes") else None
    et = ("int", "u8") if t == BYTES else (t[2][0] if t else (info.generics(-2) or [None])[0])
    return ListV(et, [])


@model("Vec::push")
def m_push(eng, st, args, info):
    r = args[0]
    v = eng.deref(st, r)
    st = st.copy()
    if isinstance(v, ListV):
        nv = ListV(v.elem or vty(eng, st, args[1]), v.items + (args[1],))
    elif v.ty == BYTES:
        nv = ufv(eng, st, "bytepush", [v, args[1]], BYTES)
        bl = z3.Function("byteslen", eng.ty.sort(BYTES), z3.IntSort())
        st.facts.append(bl(nv.t) == bl(eng.term(st, v)) + 1)
    else:
        n, a = eng.seq_len(v.t), eng.seq_arr(v.t)
        nv = T(v.t.sort().constructor(0)(n + 1, z3.Store(a, n, eng.term(st, args[1], v.ty[2][0]))), v.ty)
    eng.write(st, r.cell, r.path, nv)
    return [(st, UNITV)]


def seq_concat(eng, st, a, b, ty):
    if isinstance(a, ListV) and isinstance(b, ListV):
        return ListV(ty[2][0] if ty != BYTES else ("int", "u8"), a.items + b.items)
    if ty == BYTES:
        return ufv(eng, st, "concat2", [a, b], BYTES)
    a, b = eng.as_T(st, a, ty), eng.as_T(st, b, ty)
    if isinstance(a, T) and conc(eng.seq_len(a.t)) == 0:
        return b
    r = eng.fresh_v(st, "cat", ty)
    i = z3.Int("c!%d" % next(eng.cnt))
    la, lb = eng.seq_len(a.t), eng.seq_len(b.t)
    st.facts.append(eng.seq_len(r.t) == la + lb)
    st.facts.append(forall(i, z3.Implies(z3.And(i >= 0, i < la), eng.seq_at(r.t, i) == eng.seq_at(a.t, i))))
    st.facts.append(forall(i, z3.Implies(z3.And(i >= 0, i < lb), eng.seq_at(r.t, la + i) == eng.seq_at(b.t, i))))
    st.facts.append(forall(i, z3.Implies(z3.And(i >= la, i < la + lb), eng.seq_at(r.t, i) == eng.seq_at(b.t, i - la)), [eng.seq_at(r.t, i)]))
    return r


@model("Vec::extend", "Extend::extend", "Vec::append", "Vec::extend_from_slice")
def m_extend(eng, st, args, info):
    r = args[0]
    v = eng.deref(st, r)
    if v.ty[0] == "adt" and v.ty[1] in ("Map", "Set"):
        return extend_map(eng, st, args, info, v.ty)
    out = []
    for o in to_seq(eng, st, args[1], v.ty[2][0] if v.ty != BYTES else ("int", "u8"), info):
        if o.kind == PANIC:
            out.append(o)
            continue
        s = o.st.copy()
        nv = seq_concat(eng, s, v, eng.deref(s, o.v), v.ty)
        eng.write(s, r.cell, r.path, nv)
        if info.key == "Vec::append":
            q = args[1]
            eng.write(s, q.cell, q.path, ListV(v.elem if isinstance(v, ListV) else v.ty[2][0], []))
        out.append(Outcome(s, RET, UNITV))
    return out


def extend_map(eng, st, args, info, ty):
    """each item is put in, in order (a later one under the same key in its place)"""
    r = args[0]

    def body(s, x, i):
        m = eng.as_T(s, eng.deref(s, r))
        s = s.copy()
        if ty[1] == "Map":
            a, b = seq.pair(eng, s, x)
            k, y = eng.term(s, a, ty[2][0]), eng.ty.constructor(OPT(ty[2][1]), "Some")[0](eng.term(s, b, ty[2][1]))
        else:
            k, y = eng.term(s, x, ty[2][0]), z3.BoolVal(True)
        eng.write(s, r.cell, r.path, T(z3.Store(m.t, k, y), ty))
        return [(s, "cont", UNITV)]
    return seq.reraise(seq.run(eng, st, to_it(eng, st, args[1]), body), lambda s, dn: Outcome(s, RET, UNITV))


@model("Vec::pop")
def m_pop(eng, st, args, info):
    r = args[0]
    v = eng.deref(st, r)
    st = st.copy()
    if isinstance(v, ListV):
        if not v.items:
            return [(st, eng.none(v.elem or rty(info)))]
        eng.write(st, r.cell, r.path, ListV(v.elem, v.items[:-1]))
        return [(st, eng.some(v.items[-1], v.elem))]
    if v.ty == BYTES:
        raise Unsupported("pop of bytes")
    n = eng.seq_len(v.t)
    out = []
    for s, b in eng.fork(st, n > 0):
        if not b:
            out.append((s, eng.none(v.ty[2][0])))
            continue
        s = s.copy()
        last = T(eng.seq_at(v.t, n - 1), v.ty[2][0])
        eng.write(s, r.cell, r.path, seq_pick(eng, s, v, n - 1))
        out.append((s, eng.some(last)))
    return out


@model("slice::get", "Vec::get")
def m_get(eng, st, args, info):
    v = eng.deref(st, args[0])
    i = eng.deref(st, args[1])
    if isinstance(i, PyV):
        raise Unsupported("slice range get")
    if isinstance(v, ListV) and conc(i.t) is not None:
        k = conc(i.t)
        return eng.some(v.items[k], v.elem) if 0 <= k < len(v.items) else eng.none(v.elem)
    v = eng.as_T(st, v)
    n = length(eng, st, v).t
    out = []
    for s, b in eng.fork(st, z3.And(i.t >= 0, i.t < n)):
        if b:
            x = T(eng.seq_at(v.t, i.t), v.ty[2][0]) if v.ty != BYTES else byte_at(eng, s, v, i.t)
            eng.touch(s, x)
            out.append((s, eng.some(x)))
        else:
            out.append((s, eng.none(v.ty[2][0] if v.ty != BYTES else ("int", "u8"))))
    return out


@model("slice::first", "slice::last")
def m_first(eng, st, args, info):
    v = eng.deref(st, args[0])
    if isinstance(v, ListV):
        if not v.items:
            return eng.none(v.elem)
        return eng.some(v.items[0 if info.key.endswith("first") else -1], v.elem)
    n = eng.seq_len(v.t)
    out = []
    for s, b in eng.fork(st, n > 0):
        x = T(eng.seq_at(v.t, 0 if info.key.endswith("first") else n - 1), v.ty[2][0])
        out.append((s, eng.some(x) if b else eng.none(v.ty[2][0])))
    return out


@model("Index::index")
def m_index(eng, st, args, info):
    v = eng.deref(st, args[0])
    i = eng.deref(st, args[1])
    if isinstance(i, PyV):
        v = eng.as_T(st, v)
        fs = [eng.term(st, x) for x in i.d["f"]]
        n = length(eng, st, v).t
        kind = i.d["kind"]
        lo, hi = {"Range": (lambda: (fs[0], fs[1])), "RangeTo": (lambda: (z3.IntVal(0), fs[0])), "RangeFrom": (lambda: (fs[0], n)), "RangeFull": (lambda: (z3.IntVal(0), n))}.get(kind, lambda: (None, None))()
        if lo is None:
            raise Unsupported("slice by %s" % kind)
        f = z3.Function("slice:" + str(v.t.sort()), v.t.sort(), z3.IntSort(), z3.IntSort(), v.t.sort())
        key = "slice:" + str(v.t.sort())
        lf = (lambda t: z3.Function("byteslen", v.t.sort(), z3.IntSort())(t)) if v.ty == BYTES else (lambda t: strlen(eng)(t)) if v.ty == STR else eng.seq_len
        if key not in eng.inj:
            eng.inj.add(key)
            x, b, e = z3.Const("slx", v.t.sort()), z3.Int("slb"), z3.Int("sle")
            eng.extra_facts.append(z3.ForAll([x, e], z3.Implies(lf(x) == e, f(x, 0, e) == x), patterns=[f(x, 0, e)]))
            eng.extra_facts.append(z3.ForAll([x, b, e], z3.Implies(z3.And(b >= 0, b <= e, e <= lf(x)), lf(f(x, b, e)) == e - b), patterns=[f(x, b, e)]))
        out = []
        for s, ok in eng.fork(st, z3.And(lo >= 0, lo <= hi, hi <= n)):
            out.append((s, RET, T(f(v.t, lo, hi), v.ty)) if ok else (s, PANIC, None))
        return out
    if v.ty[0] == "adt" and v.ty[1] == "Map":
        return m_unwrap(eng, st, [map_get(eng, st, v, i)], info)
    if isinstance(v, ListV) and conc(i.t) is not None:
        k = conc(i.t)
        return [(st, RET, v.items[k])] if 0 <= k < len(v.items) else [(st, PANIC, None)]
    v = eng.as_T(st, v)
    out = []
    n = length(eng, st, v).t
    for s, b in eng.fork(st, z3.And(i.t >= 0, i.t < n)):
        if b:
            x = T(eng.seq_at(v.t, i.t), v.ty[2][0]) if v.ty != BYTES else byte_at(eng, s, v, i.t)
            eng.touch(s, x)
            out.append((s, RET, x))
        else:
            out.append((s, PANIC, None))
    return out


@model("IndexMut::index_mut")
def m_index_mut(eng, st, args, info):
    r = args[0]
    v = eng.deref(st, r)
    i = eng.deref(st, args[1])
    n = length(eng, st, v).t
    out = []
    for s, b in eng.fork(st, z3.And(i.t >= 0, i.t < n)):
        out.append((s, RET, Ref(r.cell, r.path + (("idx", z3.simplify(i.t)),))) if b else (s, PANIC, None))
    return out


@model("slice::get_mut")
def m_get_mut_slice(eng, st, args, info):
    r = args[0]
    v = eng.deref(st, r)
    i = eng.deref(st, args[1])
    n = length(eng, st, v).t
    et = v.elem if isinstance(v, ListV) else v.ty[2][0]
    out = []
    for s, b in eng.fork(st, z3.And(i.t >= 0, i.t < n)):
        out.append((s, eng.some(Ref(r.cell, r.path + (("idx", z3.simplify(i.t)),), et), et) if b else eng.none(et)))
    return out


@model("slice::contains")
def m_slice_contains(eng, st, args, info):
    v = eng.deref(st, args[0])
    if isinstance(v, ListV):
        return eng.boolv(OR([eq(eng, st, x, args[1]) for x in v.items]))
    i = z3.Int("c!%d" % next(eng.cnt))
    x = T(eng.seq_at(v.t, i), v.ty[2][0])
    return eng.boolv(z3.Exists([i], z3.And(i >= 0, i < eng.seq_len(v.t), eq(eng, st, x, args[1]))))


@model("vec::from_elem")
def m_from_elem(eng, st, args, info):
    x, n = args[0], eng.deref(st, args[1])
    et = vty(eng, st, x)
    k = conc(n.t)
    if k is not None and k < 64:
        return ListV(et, [x] * k)
    if et == ("int", "u8"):
        raise Unsupported("symbolic bytes")
    srt = eng.ty.sort(VEC(et))
    return T(srt.constructor(0)(n.t, z3.K(z3.IntSort(), eng.term(st, x, et))), VEC(et))


@model("slice::sort", "slice::sort_by_key", "slice::sort_by", "slice::sort_unstable", "slice::reverse", "slice::sort_unstable_by", "slice::sort_unstable_by_key")
def m_sort(eng, st, args, info):
    r = args[0]
    v = eng.deref(st, r)
    st = st.copy()
    keyf = args[1] if len(args) > 1 else None
    nv = sorted_perm(eng, st, v, info.key, keyf, info)
    eng.write(st, r.cell, r.path, nv)
    return [(st, UNITV)]


def int_parts(eng, et):
    """the integer components of an element type, as functions"""
    if et[0] == "int":
        return [lambda x: x]
    if et[0] == "tuple" and et[1]:
        so = eng.ty.sort(et)
        return [(lambda x, k=k: so.accessor(0, k)(x)) for k, t in enumerate(et[1]) if t[0] == "int"]
    return []


def sorted_perm(eng, st, v, how, keyf, info):
    if isinstance(v, ListV) and len(v.items) <= 1:
        return v
    v = eng.as_T(st, v)
    nv = eng.fresh_v(st, "sorted", v.ty)
    n = eng.seq_len(v.t)
    p = eng.fresh_fn(st, "perm", [z3.IntSort()], z3.IntSort())
    q = eng.fresh_fn(st, "perminv", [z3.IntSort()], z3.IntSort())
    i = z3.Int("s!%d" % next(eng.cnt))
    j = z3.Int("s!%d" % next(eng.cnt))
    inr = z3.And(i >= 0, i < n)
    eng.ranks[nv.t.get_id()] = (nv.t, q, v.t, v.ty, not st.binders)
    st.facts.append(eng.seq_len(nv.t) == n)
    st.facts.append(forall(i, z3.Implies(inr, z3.And(p(i) >= 0, p(i) < n, q(p(i)) == i, eng.seq_at(nv.t, i) == eng.seq_at(v.t, p(i))))))
    st.facts.append(forall(i, z3.Implies(inr, z3.And(q(i) >= 0, q(i) < n, p(q(i)) == i, eng.seq_at(nv.t, q(i)) == eng.seq_at(v.t, i)))))
    et = v.ty[2][0]
    # a sum does not depend on the order (rules.lean: psum_perm)
    for f in int_parts(eng, et):
        if st.binders:
            break
        a, b = [z3.Const("parts!%d" % next(eng.cnt), z3.ArraySort(z3.IntSort(), z3.IntSort())) for _ in "ab"]
        st.facts.append(forall(i, z3.Select(a, i) == f(eng.seq_at(v.t, i)), [z3.Select(a, i)]))
        st.facts.append(forall(i, z3.Select(b, i) == f(eng.seq_at(nv.t, i)), [z3.Select(b, i)]))
        st.facts.append(psum()(a, n) == psum()(b, n))
    # ordered: no later element is strictly less than an earlier one
    if how.endswith("reverse"):
        st.facts.append(forall(i, z3.Implies(inr, p(i) == n - 1 - i)))
        return nv
    a, b = T(eng.seq_at(nv.t, i), et), T(eng.seq_at(nv.t, j), et)
    try:
        if keyf is None:
            less = lt(eng, st, b, a)
        elif how.endswith("key"):
            ka, kb = pure_call(eng, st, keyf, [a], info), pure_call(eng, st, keyf, [b], info)
            less = lt(eng, st, kb, ka)
        else:
            o = pure_call(eng, st, keyf, [a, b], info)
            less = eng.ty.sort(ORDERING).recognizer(2)(eng.term(st, o, ORDERING))
        st.facts.append(forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(less)),
                               [z3.MultiPattern(eng.seq_at(nv.t, i), eng.seq_at(nv.t, j))]))
    except Unsupported:
        pass
    return nv


def pure_call(eng, st, f, args, info):
    s = st.copy()
    s.binders = s.binders
    outs = [o for o in eng.call_value(s, f, args, info.depth) if o.kind == RET]
    if len(outs) != 1 or len(outs[0].st.pc) != len(st.pc):
        # merge branches into an if-then-else
        if not outs:
            raise Unsupported("ordering closure")
        r = None
        ty = vty(eng, outs[0].st, outs[0].v)
        for o in reversed(outs):
            t = eng.term(o.st, o.v, ty)
            r = t if r is None else z3.If(AND(o.st.pc[len(st.pc):]), t, r)
        return T(r, ty)
    return outs[0].v


def seq_pick(eng, st, v, n, lo=0):
    """the n elements of v from place lo on (within v)"""
    r = eng.fresh_v(st, "part", v.ty)
    i = z3.Int("c!%d" % next(eng.cnt))
    st.facts.append(eng.seq_len(r.t) == n)
    st.facts.append(forall(i, z3.Implies(z3.And(i >= 0, i < n), eng.seq_at(r.t, i) == eng.seq_at(v.t, i + lo)), [eng.seq_at(r.t, i)]))
    st.facts.append(forall(i, z3.Implies(z3.And(i >= lo, i < lo + n), eng.seq_at(r.t, i - lo) == eng.seq_at(v.t, i)), [eng.seq_at(v.t, i)]))
    return r


@model("Vec::truncate", "Vec::clear", "Vec::remove", "Vec::insert", "Vec::swap_remove", "Vec::split_off", "Vec::drain")
def m_vec_cut(eng, st, args, info):
    r, op = args[0], info.key.split("::")[1]
    v = eng.deref(st, r)
    if v.ty == BYTES or getattr(v, "elem", None) == ("int", "u8"):
        raise Unsupported(info.key + " of bytes")
    et = v.elem if isinstance(v, ListV) else v.ty[2][0]
    if et is None and isinstance(v, ListV) and v.items:
        et = getattr(eng.deref(st, v.items[0]), "ty", None)

    def put(s, x):
        s = s.copy()
        eng.write(s, r.cell, r.path, x)
        return s
    if op == "clear":
        return [(put(st, ListV(et, [])), UNITV)]
    if op == "drain":
        d = eng.deref(st, args[1])
        if not (isinstance(d, PyV) and d.kind == "range" and d.d["kind"] == "RangeFull"):
            raise Unsupported("drain of a part")
        return [(put(st, ListV(et, [])), seq.list_iter(eng, st, v))]
    k = eng.deref(st, args[1]).t
    c = conc(k)
    if isinstance(v, ListV) and c is not None:
        xs, n = list(v.items), len(v.items)
        if op == "truncate":
            return [(put(st, ListV(et, xs[:c])), UNITV)]
        if c > n or (op in ("remove", "swap_remove") and c >= n):
            return [(st, PANIC, None)]
        if op == "insert":
            return [(put(st, ListV(et, xs[:c] + [args[2]] + xs[c:])), UNITV)]
        if op == "remove":
            return [(put(st, ListV(et, xs[:c] + xs[c + 1:])), xs[c])]
        if op == "swap_remove":
            y = xs[c]
            xs[c] = xs[-1]
            return [(put(st, ListV(et, xs[:-1])), y)]
        return [(put(st, ListV(et, xs[:c])), ListV(et, xs[c:]))]
    v = eng.as_T(st, v)
    eng.touch(st, v)
    n = eng.seq_len(v.t)
    if op == "truncate":
        s = st.copy()
        return [(put(s, seq_pick(eng, s, v, z3.If(k <= n, k, n))), UNITV)]
    out = []
    for s, ok in eng.fork(st, k <= n if op in ("insert", "split_off") else k < n):
        if not ok:
            out.append((s, PANIC, None))
            continue
        s = s.copy()
        if op == "split_off":
            b = seq_pick(eng, s, v, n - k, k)
            out.append((put(s, seq_pick(eng, s, v, k)), b))
            continue
        x = eng.fresh_v(s, op, v.ty)
        i = z3.Int("c!%d" % next(eng.cnt))
        at, old = eng.seq_at(x.t, i), lambda j: eng.seq_at(v.t, j)
        if op == "insert":
            y = eng.term(s, args[2], v.ty[2][0])
            s.facts.append(eng.seq_len(x.t) == n + 1)
            s.facts.append(forall(i, z3.Implies(z3.And(i >= 0, i <= n), at == z3.If(i < k, old(i), z3.If(i == k, y, old(i - 1)))), [at]))
            s.facts.append(forall(i, z3.Implies(z3.And(i >= 0, i < n), z3.If(i < k, at == old(i), eng.seq_at(x.t, i + 1) == old(i))), [old(i)]))
            s.facts.append(eng.seq_at(x.t, k) == y)
            out.append((put(s, x), UNITV))
            continue
        s.facts.append(eng.seq_len(x.t) == n - 1)
        if op == "remove":
            s.facts.append(forall(i, z3.Implies(z3.And(i >= 0, i < n - 1), at == z3.If(i < k, old(i), old(i + 1))), [at]))
            s.facts.append(forall(i, z3.Implies(z3.And(i >= 0, i < n, i != k), z3.If(i < k, at == old(i), eng.seq_at(x.t, i - 1) == old(i))), [old(i)]))
        else:
            s.facts.append(forall(i, z3.Implies(z3.And(i >= 0, i < n - 1), at == z3.If(i == k, old(n - 1), old(i))), [at]))
            s.facts.append(forall(i, z3.Implies(z3.And(i >= 0, i < n - 1, i != k), at == old(i)), [old(i)]))
        out.append((put(s, x), T(old(k), v.ty[2][0])))
    return out


@model("Vec::retain", "Vec::retain_mut", "BTreeMap::retain", "HashMap::retain", "BTreeSet::retain", "HashSet::retain")
def m_retain(eng, st, args, info):
    r, f = args[0], args[1]
    v = eng.deref(st, r)
    if info.key.endswith("retain_mut") or v.ty == BYTES:
        raise Unsupported(info.key)
    it = to_it(eng, st, v)
    if info.key.split("::")[0] in ("BTreeMap", "HashMap"):
        g = lambda e, s, x: e.call_value(s, f, list(seq.pair(e, s, x)), info.depth)
    else:
        g = lambda e, s, x: e.call_value(s, f, [x], info.depth)

    def gen(e, s, i):
        out = []
        for s2, k, x in it.gen(e, s, i):
            if k != "item":
                out.append((s2, k, x))
                continue
            for o in g(e, s2, x):
                if o.kind == PANIC:
                    out.append((o.st, "panic", None))
                    continue
                out += [(s3, "item", x) if b else (s3, "skip", None) for s3, b in e.fork(o.st, e.deref(o.st, o.v).t)]
        return out
    ty = v.ty if not isinstance(v, ListV) else VEC(v.elem or getattr(eng.deref(st, v.items[0]), "ty", None)) if v.items or v.elem else None
    if ty is None:
        return UNITV

    def k(s, x):
        s = s.copy()
        eng.write(s, r.cell, r.path, x)
        return [(s, UNITV)]
    return then(collect_into(eng, st, derive_it(it, gen, False, it.elem), ty, info), k)


def deduped(eng, it, depth):
    """the items of `it` that differ from the item just before them (`it` leaves out none)"""
    def gen(e, s, i):
        out = []
        for s2, k, v in it.gen(e, s, i):
            if k != "item":
                out.append((s2, k, v))
                continue
            for s3, first in e.fork(s2, i == 0):
                if first:
                    out.append((s3, "item", v))
                    continue
                for s4, k2, w in it.gen(e, s3, i - 1):
                    if k2 != "item":
                        out.append((s4, k2, w))
                        continue
                    out += [(s5, "skip", None) if same else (s5, "item", v) for s5, same in e.fork(s4, e.term(s4, e.deref(s4, v)) == e.term(s4, e.deref(s4, w)))]
        return out
    return derive_it(it, gen, False, it.elem)


@model("Itertools::dedup")
def m_it_dedup(eng, st, args, info):
    return then(noskip(eng, st, to_it(eng, st, args[0]), info), lambda s, it: deduped(eng, it, info.depth))


@model("Itertools::unique")
def m_it_unique(eng, st, args, info):
    """each item's first occurrence"""
    def k(s, v):
        it = seq.list_iter(eng, s, v)
        if isinstance(v, ListV):
            at = lambda j: eng.term(s, v.items[j])
        else:
            at = lambda j: eng.seq_at(v.t, j)

        def gen(e, s2, i):
            out = []
            for s3, k2, x in it.gen(e, s2, i):
                if k2 != "item":
                    out.append((s3, k2, x))
                    continue
                if conc(i) is not None:
                    seen = z3.Or([at(j) == at(conc(i)) for j in range(conc(i))] + [z3.BoolVal(False)])
                else:
                    j = z3.FreshInt("uj")
                    seen = z3.Exists([j], z3.And(j >= 0, j < i, at(j) == at(i)), patterns=[at(j)])
                out += [(s4, "skip", None) if b else (s4, "item", x) for s4, b in e.fork(s3, seen)]
            return out
        return derive_it(it, gen, False, it.elem)
    return then(to_seq(eng, st, args[0], None, info), k)


@model("Itertools::all_equal")
def m_it_all_equal(eng, st, args, info):
    def k(s, v):
        if isinstance(v, ListV):
            return T(z3.And([eng.term(s, v.items[0]) == eng.term(s, x) for x in v.items[1:]] + [z3.BoolVal(True)]), BOOL)
        j = z3.FreshInt("ej")
        at = lambda j: eng.seq_at(v.t, j)
        return T(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < eng.seq_len(v.t)), at(j) == at(z3.IntVal(0))), patterns=[at(j)]), BOOL)
    return then(to_seq(eng, st, args[0], None, info), k)


@model("Iterator::take_while", "Iterator::skip_while")
def m_it_take_while(eng, st, args, info):
    """the items before (from) the first one the closure says no to"""
    f = args[1]

    def mk(s, it):
        def body(s2, v, i):
            out = []
            for o in eng.call_value(s2, f, [v], info.depth):
                if o.kind == PANIC:
                    out.append((o.st, "panic", None))
                    continue
                out += [(s3, "cont", UNITV) if b else (s3, "brk", T(i if not isinstance(i, int) else z3.IntVal(i), USIZE)) for s3, b in eng.fork(o.st, eng.deref(o.st, o.v).t)]
            return out

        def cut(s2, m):
            if info.key.endswith("take_while"):
                return It(m, it.gen, True, it.elem, None, 0, it.muts)
            n = it.n - m if not (isinstance(it.n, int) and isinstance(m, int)) else max(it.n - m, 0)
            return It(n, lambda e, s3, i: it.gen(e, s3, i + m), True, it.elem, None, 0, it.muts)
        return seq.reraise(seq.run(eng, s, It(it.n, it.gen, True, it.elem), body),
                           lambda s2, dn: Outcome(s2, RET, cut(s2, it.n)),
                           lambda s2, v: Outcome(s2, RET, cut(s2, conc(v.t) if conc(v.t) is not None else v.t)))
    return then(noskip(eng, st, to_it(eng, st, args[0]), info), mk)


@model("Vec::dedup")
def m_vec_dedup(eng, st, args, info):
    r = args[0]
    v = eng.deref(st, r)
    it = to_it(eng, st, v)
    if v.ty == BYTES or not it.noskip:
        raise Unsupported(info.key)
    if isinstance(v, ListV):
        if not v.items:
            return UNITV
        ty = VEC(v.elem or eng.deref(st, v.items[0]).ty)
    else:
        ty = v.ty

    def k(s, x):
        s = s.copy()
        eng.write(s, r.cell, r.path, x)
        return [(s, UNITV)]
    return then(collect_into(eng, st, deduped(eng, it, info.depth), ty, info), k)


@model("Iterator::eq", "Iterator::ne")
def m_it_eq(eng, st, args, info):
    """as many items, and the same one at each place"""
    def k(s, a):
        def k2(s2, b):
            et = a.elem if isinstance(a, ListV) else a.ty[2][0] if a.ty != BYTES else None
            if isinstance(a, ListV) and isinstance(b, ListV):
                t = z3.BoolVal(False) if len(a.items) != len(b.items) else AND([eng.term(s2, x) == eng.term(s2, y) for x, y in zip(a.items, b.items)])
            else:
                x, y = eng.as_T(s2, a, b.ty if isinstance(a, ListV) else a.ty), eng.as_T(s2, b, a.ty if isinstance(b, ListV) else b.ty)
                if x.ty == BYTES:
                    t = x.t == y.t
                else:
                    i = z3.Int("c!%d" % next(eng.cnt))
                    n = eng.seq_len(x.t)
                    t = z3.And(n == eng.seq_len(y.t), forall(i, z3.Implies(z3.And(i >= 0, i < n), eng.seq_at(x.t, i) == eng.seq_at(y.t, i))))
            return [(s2, T(t if info.key.endswith("eq") else z3.Not(t), BOOL))]
        return then(to_seq(eng, s, to_it(eng, s, args[1]), None, info), k2)
    return then(to_seq(eng, st, to_it(eng, st, args[0]), None, info), k)


@model("BTreeSet::remove", "HashSet::remove")
def m_set_remove(eng, st, args, info):
    r = args[0]
    m = eng.as_T(st, eng.deref(st, r))
    k = eng.term(st, args[1], m.ty[2][0])
    st = st.copy()
    eng.write(st, r.cell, r.path, T(z3.Store(m.t, k, z3.BoolVal(False)), m.ty))
    return [(st, T(z3.Select(m.t, k), BOOL))]


@model(*["%s::%s" % (c, o) for c in ("BTreeSet", "HashSet") for o in ("difference", "intersection", "union", "symmetric_difference")])
def m_set_op(eng, st, args, info):
    a, b = [eng.as_T(st, eng.deref(st, x)) for x in args[:2]]
    st = st.copy()
    r = eng.fresh_v(st, "set", a.ty)
    k = z3.Const("k!%d" % next(eng.cnt), eng.ty.sort(a.ty[2][0]))
    x, y = z3.Select(a.t, k), z3.Select(b.t, k)
    z = {"difference": z3.And(x, z3.Not(y)), "intersection": z3.And(x, y), "union": z3.Or(x, y), "symmetric_difference": x != y}[info.key.split("::")[1]]
    st.facts.append(forall(k, z3.Select(r.t, k) == z))
    it = seq.set_iter(eng, st, r)
    return [(st, it)]


@model("BTreeSet::is_empty", "HashSet::is_empty", "BTreeSet::is_subset", "HashSet::is_subset", "BTreeSet::is_superset", "HashSet::is_superset",
       "BTreeSet::is_disjoint", "HashSet::is_disjoint")
def m_set_rel(eng, st, args, info):
    a = eng.as_T(st, eng.deref(st, args[0]))
    op = info.key.split("::")[1]
    b = eng.as_T(st, eng.deref(st, args[1])) if len(args) > 1 else None
    k = z3.Const("k!%d" % next(eng.cnt), eng.ty.sort(a.ty[2][0]))
    x, y = z3.Select(a.t, k), z3.Select(b.t, k) if b is not None else None
    return T(forall(k, {"is_empty": lambda: z3.Not(x), "is_subset": lambda: z3.Implies(x, y), "is_superset": lambda: z3.Implies(y, x),
                        "is_disjoint": lambda: z3.Not(z3.And(x, y))}[op]()), BOOL)


# ----------------------------------------------------------------------------- iterators
def to_it(eng, st, v):
    """IntoIterator on any value the models know"""
    d = eng.deref(st, v)
    if isinstance(d, It):
        return d
    if isinstance(d, ListV):
        if isinstance(v, Ref):
            return list_mut_iter(eng, v)if False else seq.list_iter(eng, st, d)
        return seq.list_iter(eng, st, d)
    if isinstance(d, PyV) and d.kind == "range":
        return range_iter(eng, st, d)
    if isinstance(d, T):
        if d.ty[0] == "adt" and d.ty[1] == "Vec":
            return seq.list_iter(eng, st, d)
        if d.ty[0] == "adt" and d.ty[1] == "Map":
            return seq.map_iter(eng, st, d, "items")
        if d.ty[0] == "adt" and d.ty[1] == "Set":
            return seq.set_iter(eng, st, d)
        if d.ty == BYTES:
            n = length(eng, st, d).t
            return It(n, lambda e, s, i: [(s, "item", byte_at(e, s, d, i))], True, ("int", "u8"))
    if isinstance(d, (Agg, T)) and d.ty[0] == "adt" and d.ty[1] == "Option":
        def gen(e, s, i):
            return [(s2, "item", p) if vn == "Some" else (s2, "skip", None) for s2, vn, p in arms(e, s, d)]
        return It(1, gen, False, d.ty[2][0])
    if isinstance(d, Agg) and d.ty[0] == "adt":
        # newtype around a container is not iterable by itself
        pass
    raise Unsupported("iteration over %r" % (d,))


def range_iter(eng, st, d):
    f = [eng.deref(st, x) for x in d.d["f"]]
    lo = f[0].t
    if d.d["kind"] == "RangeFrom":
        n = z3.IntVal(2**64)
        return It(n, lambda e, s, i: [(s, "item", T(lo + i, f[0].ty))], True, f[0].ty)
    hi = f[1].t + (1 if d.d["kind"] == "RangeInclusive" else 0)
    n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
    c = conc(n)
    return It(c if c is not None else n, lambda e, s, i: [(s, "item", T(lo + i, f[0].ty))], True, f[0].ty)


@model("RangeInclusive::new")
def m_range_incl(eng, st, args, info):
    return PyV("range", {"kind": "RangeInclusive", "f": args, "names": None})


@model("slice::iter", "IntoIterator::into_iter", "Vec::iter", "HashMap::iter", "BTreeMap::iter", "BTreeMap::into_iter", "BTreeSet::iter", "HashSet::iter", "Option::iter",
       "Option::into_iter", "VecDeque::iter")
def m_iter(eng, st, args, info):
    a = args[0]
    if isinstance(a, Ref):
        # &mut Vec: into_iter() yields mutable references
        d = eng.deref(st, a)
        if isinstance(d, It):
            return d
        if info.key == "IntoIterator::into_iter" and a.ty is not None and info.path[0][0] == "q" and info.path[0][1][0] == "ref" and info.path[0][1][1]:
            return m_iter_mut(eng, st, args, info)
    return to_it(eng, st, a)


@model("slice::iter_mut", "Vec::iter_mut")
def m_iter_mut(eng, st, args, info):
    r = args[0]
    if not isinstance(r, Ref):
        raise Unsupported("iter_mut of a value")
    v = eng.deref(st, r)
    if not (isinstance(v, ListV) or v.ty[1] == "Vec"):
        raise Unsupported("iter_mut over %s" % tname(v.ty))
    tmp = ("mi", next(eng.fid))
    return seq.list_iter(eng, st, v, mut=(r.cell, tuple(r.path), tmp))


@model("HashMap::keys", "BTreeMap::keys", "HashMap::into_keys", "BTreeMap::into_keys")
def m_keys(eng, st, args, info):
    return seq.map_iter(eng, st, eng.deref(st, args[0]), "keys")


@model("HashMap::values", "BTreeMap::values", "HashMap::into_values", "BTreeMap::into_values")
def m_values(eng, st, args, info):
    return seq.map_iter(eng, st, eng.deref(st, args[0]), "values")


def derive_it(it, gen, noskip, elem=None, n=None):
    r = It(it.n if n is None else n, gen, noskip, elem, None, it.pos, it.muts)
    return r


@model("Iterator::map")
def m_it_map(eng, st, args, info):
    it = to_it(eng, st, args[0])
    f = args[1]
    depth = info.depth

    def gen(e, s, i):
        out = []
        for s2, k, v in it.gen(e, s, i):
            if k != "item":
                out.append((s2, k, v))
                continue
            for o in e.call_value(s2, f, [v], depth):
                out.append((o.st, "item" if o.kind == RET else "panic", o.v))
        return out
    return derive_it(it, gen, it.noskip)


@model("Iterator::filter")
def m_it_filter(eng, st, args, info):
    it = to_it(eng, st, args[0])
    f = args[1]

    def gen(e, s, i):
        out = []
        for s2, k, v in it.gen(e, s, i):
            if k != "item":
                out.append((s2, k, v))
                continue
            for o in e.call_value(s2, f, [v], info.depth):
                if o.kind == PANIC:
                    out.append((o.st, "panic", None))
                    continue
                for s3, b in e.fork(o.st, e.deref(o.st, o.v).t):
                    out.append((s3, "item", v) if b else (s3, "skip", None))
        return out
    return derive_it(it, gen, False, it.elem)


@model("Iterator::filter_map")
def m_it_filter_map(eng, st, args, info):
    it = to_it(eng, st, args[0])
    f = args[1]

    def gen(e, s, i):
        out = []
        for s2, k, v in it.gen(e, s, i):
            if k != "item":
                out.append((s2, k, v))
                continue
            for o in e.call_value(s2, f, [v], info.depth):
                if o.kind == PANIC:
                    out.append((o.st, "panic", None))
                    continue
                for s3, vn, p in arms(e, o.st, o.v):
                    out.append((s3, "item", p) if vn == "Some" else (s3, "skip", None))
        return out
    return derive_it(it, gen, False)


@model("Iterator::flatten")
def m_it_flatten(eng, st, args, info):
    it = to_it(eng, st, args[0])

    def gen(e, s, i):
        out = []
        for s2, k, v in it.gen(e, s, i):
            if k != "item":
                out.append((s2, k, v))
                continue
            d = e.deref(s2, v)
            if d.ty[0] == "adt" and d.ty[1] in ("Option", "Result"):
                for s3, vn, p in arms(e, s2, d):
                    out.append((s3, "item", p) if vn in ("Some", "Ok") else (s3, "skip", None))
            else:
                raise Unsupported("flatten of %s" % tname(d.ty))
        return out
    return derive_it(it, gen, False)


@model("Iterator::flat_map")
def m_it_flat_map(eng, st, args, info):
    out = []
    r = MODELS["Iterator::map"](eng, st, args, info)
    for s, v in r if isinstance(r, list) else [(st, r)]:
        q = MODELS["Iterator::flatten"](eng, s, [v], info)
        out += q if isinstance(q, list) else [(s, q)]
    return out


@model("Iterator::inspect")
def m_it_inspect(eng, st, args, info):
    it = to_it(eng, st, args[0])
    f = args[1]

    def gen(e, s, i):
        out = []
        for s2, k, v in it.gen(e, s, i):
            if k != "item":
                out.append((s2, k, v))
                continue
            for o in e.call_value(s2, f, [v], info.depth):
                out.append((o.st, "item" if o.kind == RET else "panic", v))
        return out
    return derive_it(it, gen, it.noskip, it.elem)


@model("Iterator::enumerate")
def m_it_enumerate(eng, st, args, info):
    it = to_it(eng, st, args[0])
    outs = noskip(eng, st, it, info)

    def mk(s0, it):
        def gen(e, s, i):
            return [(s2, k, Agg(("tuple", (USIZE, vty(e, s2, v))), "", (T(i if not isinstance(i, int) else z3.IntVal(i), USIZE), v)) if k == "item" else v)
                    for s2, k, v in it.gen(e, s, i)]
        return derive_it(it, gen, True)
    return then(outs, mk)


def noskip(eng, st, it, info):
    """[Outcome(st, RET, It)] where the iterator yields at every position"""
    if it.noskip and conc(it.pos) == 0:
        return [Outcome(st, RET, it)]
    if it.noskip:
        return [Outcome(st, RET, seq.shift(it))]
    return then(to_seq(eng, st, it, None, info), lambda s, v: seq.list_iter(eng, s, v))


@model("Iterator::zip", "zip", "iter::zip")
def m_it_zip(eng, st, args, info):
    out = []
    for o in noskip(eng, st, to_it(eng, st, args[0]), info):
        if o.kind == PANIC:
            out.append(o)
            continue
        for o2 in noskip(eng, o.st, to_it(eng, o.st, args[1]), info):
            if o2.kind == PANIC:
                out.append(o2)
                continue
            a, b = o.v, o2.v
            x, y = conc(a.n), conc(b.n)
            n = min(x, y) if x is not None and y is not None else z3.If(a.n <= b.n, a.n, b.n)
            if x is None and y is None and z3.eq(z3.simplify(a.n), z3.simplify(b.n)):
                n = a.n

            def gen(e, s, i, a=a, b=b):
                out = []
                for s2, k, v in a.gen(e, s, i):
                    if k != "item":
                        out.append((s2, k, v))
                        continue
                    for s3, k3, w in b.gen(e, s2, i):
                        out.append((s3, k3, Agg(("tuple", (vty(e, s3, v), vty(e, s3, w))), "", (v, w)) if k3 == "item" else w))
                return out
            it = It(n, gen, True, None, None, 0, a.muts + b.muts)
            out.append(Outcome(o2.st, RET, it))
    return out


@model("Iterator::chain")
def m_it_chain(eng, st, args, info):
    a, b = to_it(eng, st, args[0]), to_it(eng, st, args[1])
    if conc(a.pos) != 0:
        a = seq.shift(a)
    if conc(b.pos) != 0:
        b = seq.shift(b)
    x, y = conc(a.n), conc(b.n)
    n = x + y if x is not None and y is not None else a.n + b.n

    def gen(e, s, i):
        if x is not None and conc(i) is not None:
            return a.gen(e, s, i) if conc(i) < x else b.gen(e, s, z3.IntVal(conc(i) - x))
        out = []
        for s2, c in e.fork(s, i < a.n):
            out.extend(a.gen(e, s2, i) if c else b.gen(e, s2, i - a.n))
        return out
    return It(n, gen, a.noskip and b.noskip, a.elem, None, 0, a.muts + b.muts)


@model("iter::once", "once")
def m_once(eng, st, args, info):
    v = args[0]
    return It(1, lambda e, s, i: [(s, "item", v)], True, vty(eng, st, v))


@model("iter::empty")
def m_empty(eng, st, args, info):
    return It(0, lambda e, s, i: [], True, None)


@model("Iterator::rev")
def m_it_rev(eng, st, args, info):
    it = to_it(eng, st, args[0])
    if conc(it.pos) != 0:
        it = seq.shift(it)
    n = it.n
    return derive_it(it, lambda e, s, i: it.gen(e, s, n - 1 - i), it.noskip, it.elem)


@model("Iterator::take", "Iterator::skip")
def m_it_take(eng, st, args, info):
    k = eng.deref(st, args[1]).t

    def mk(s, it):
        c, n = conc(k), conc(it.n)
        if info.key.endswith("take"):
            m = min(c, n) if c is not None and n is not None else z3.If(k <= it.n, k, z3.IntVal(it.n) if isinstance(it.n, int) else it.n)
            return It(m, it.gen, True, it.elem, None, 0, it.muts)
        m = max(n - c, 0) if c is not None and n is not None else z3.If(k <= it.n, it.n - k, z3.IntVal(0))
        return It(m, lambda e, s2, i: it.gen(e, s2, i + k), True, it.elem, None, 0, it.muts)
    return then(noskip(eng, st, to_it(eng, st, args[0]), info), mk)


def to_seq(eng, st, v, et, info):
    """[Outcome(st, RET, sequence value)]"""
    d = eng.deref(st, v)
    if isinstance(d, (ListV,)) or (isinstance(d, T) and d.ty[0] == "adt" and d.ty[1] in ("Vec", "Bytes")):
        return [Outcome(st, RET, d)]
    it = to_it(eng, st, d)
    res = seq.run(eng, st, it, lambda s, x, i: [(s, "cont", x)])
    return seq.reraise(res, lambda s, dn: Outcome(s, RET, seq.seq_of(eng, s, dn, et or seq.elem_ty(eng, s, dn, it.elem))))


def collect_into(eng, st, it, ty, info=None):
    if ty is None or ty[0] == "opaque":
        raise Unsupported("collect into unknown type")
    if ty[0] == "adt" and ty[1] in ("Result", "Option"):
        okv, badv = ("Ok", "Err") if ty[1] == "Result" else ("Some", "None")
        inner = ty[2][0]

        def body(s, v, i):
            return [(s2, "cont", p) if vn == okv else (s2, "brk", p) for s2, vn, p in arms(eng, s, v)]
        # entries of one map, unchanged
        res = seq.run(eng, st, it, body)
        return seq.reraise(res, lambda s, dn: Outcome(s, RET, Agg(ty, okv, (build(eng, s, dn, inner, it),))),
                           lambda s, e: Outcome(s, RET, Agg(ty, badv, (e,) if badv == "Err" else ())))
    if ty[:2] == ("adt", "Vec") and it.src is not None and it.src[0] == "seq" and it.pos == 0 and not it.muts and it.src[1].ty == ty:
        return [Outcome(st, RET, it.src[1])]
    res = seq.run(eng, st, it, lambda s, v, i: [(s, "cont", v)])
    return seq.reraise(res, lambda s, dn: Outcome(s, RET, build(eng, s, dn, ty, it)))


def build(eng, st, dn, ty, it):
    if ty == UNIT:
        return UNITV
    if ty == BYTES:
        return seq.seq_of(eng, st, dn, ("int", "u8"))
    if ty[0] == "adt" and ty[1] == "Vec":
        return seq.seq_of(eng, st, dn, ty[2][0])
    if ty[0] == "adt" and ty[1] == "Map":
        src = it.src
        if src is not None and src[0] == "map" and src[2] == "items":
            return src[1]
        return seq.map_of(eng, st, dn, *ty[2])
    if ty[0] == "adt" and ty[1] == "Set":
        return seq.set_of(eng, st, dn, ty[2][0])
    if ty == STR:
        return eng.fresh_v(st, "collected", STR)
    # a newtype around a container via FromIterator is not known
    raise Unsupported("collect into %s" % tname(ty))


@model("Iterator::collect", "FromIterator::from_iter", "Itertools::collect_vec")
def m_collect(eng, st, args, info):
    it = to_it(eng, st, args[0])
    if info.key == "FromIterator::from_iter":
        ty = info.selfty() if info.path[0][0] == "q" else info.ret
    elif info.key.endswith("collect_vec"):
        ty = info.ret
    else:
        g = info.generics()
        ty = g[0] if g and usable(g[0]) else info.ret
    return collect_into(eng, st, it, ty, info)


@model("Iterator::all", "Iterator::any")
def m_all(eng, st, args, info):
    it = to_it(eng, st, args[0])
    f = args[1]
    alls = info.key.endswith("all")

    def body(s, v, i):
        out = []
        for o in eng.call_value(s, f, [v], info.depth):
            if o.kind == PANIC:
                out.append((o.st, "panic", None))
            else:
                t = eng.deref(o.st, o.v).t
                out.append((o.st, "cont", T(t if alls else z3.Not(t), BOOL)))
        return out
    res = seq.run(eng, st, it, body)

    def done(s, dn):
        t = seq.bool_forall(eng, s, dn)
        return Outcome(s, RET, T(t if alls else z3.Not(t), BOOL))
    return seq.reraise(res, done)


@model("Iterator::find", "Iterator::position", "Iterator::find_map")
def m_find(eng, st, args, info):
    it = to_it(eng, st, args[0])
    f = args[1]
    op = info.key.split("::")[1]

    def body(s, v, i):
        out = []
        for o in eng.call_value(s, f, [v], info.depth):
            if o.kind == PANIC:
                out.append((o.st, "panic", None))
                continue
            if op == "find_map":
                for s2, vn, p in arms(eng, o.st, o.v):
                    out.append((s2, "brk", p) if vn == "Some" else (s2, "cont", UNITV))
                continue
            for s2, b in eng.fork(o.st, eng.deref(o.st, o.v).t):
                if b:
                    out.append((s2, "brk", v if op == "find" else T(i, USIZE)))
                else:
                    out.append((s2, "cont", UNITV))
        return out
    outs = seq.reraise(seq.run(eng, st, it, body),
                       lambda s, dn: Outcome(s, RET, eng.none(rty(info) or it.elem or UNIT)),
                       lambda s, v: Outcome(s, RET, eng.some(v, vty(eng, s, v))))
    return fix_types(eng, outs, info)


@model("Iterator::next")
def m_next(eng, st, args, info):
    r = args[0]
    it = eng.deref(st, r)
    if isinstance(it, PyV) and it.kind == "range":
        it = range_iter(eng, st, it)
    if not isinstance(it, It):
        raise Unsupported("next on %r" % (it,))
    if it.muts:
        raise Unsupported("next on a mutable iterator")
    return next_from(eng, st, r, it, it.pos, info)


def next_from(eng, st, r, it, pos, info):
    n = it.n
    out = []
    et = it.elem or rty(info)
    c, p = conc(n), conc(pos)
    if c is not None and p is not None:
        branches = [(st, p < c)]
    else:
        branches = eng.fork(st, pos < n)
    for s, b in branches:
        if not b:
            out.append(Outcome(s, RET, eng.none(et or UNIT)))
            continue
        for s2, k, v in it.gen(eng, s.copy(), z3.IntVal(pos) if isinstance(pos, int) else pos):
            s2 = s2.copy()
            if k == "panic":
                out.append(Outcome(s2, PANIC, None))
            elif k == "item":
                if isinstance(r, Ref):
                    eng.write(s2, r.cell, r.path, it.at(pos + 1))
                out.append(Outcome(s2, RET, eng.some(v, vty(eng, s2, v))))
            else:
                if c is None:
                    raise Unsupported("next on a filtered symbolic iterator")
                out.extend(next_from(eng, s2, r, it, pos + 1, info))
    return fix_types(eng, out, info)


@model("Iterator::count")
def m_count(eng, st, args, info):
    it = to_it(eng, st, args[0])
    if it.noskip:
        return T(it.n - it.pos if not isinstance(it.n, int) else z3.IntVal(it.n - it.pos), USIZE)
    return then(to_seq(eng, st, it, None, info), lambda s, v: length(eng, s, v))


@model("Iterator::last")
def m_last(eng, st, args, info):
    return then(to_seq(eng, st, to_it(eng, st, args[0]), None, info),
                lambda s, v: eng.wrap(s, m_first(eng, s, [v], FakeInfo("slice::last", info))))


class FakeInfo:
    def __init__(self, key, info, ret=None):
        self.key, self.eng, self.path, self.fr, self.ret, self.text = key, info.eng, info.path, info.fr, ret, info.text
        self.depth = info.depth

    def generics(self, k=-1):
        return []


@model("Iterator::sum")
def m_sum(eng, st, args, info):
    it = to_it(eng, st, args[0])
    ty = (info.generics() or [info.ret])[0]
    if not usable(ty):
        ty = info.ret
    lo, hi = INT_BOUNDS[ty[1]]

    def done(s, d):
        if d.items is not None:
            t = z3.IntVal(0)
            for x in d.items:
                t = t + eng.deref(s, x).t
        else:
            sq = seq.seq_of(eng, s, d, seq.elem_ty(eng, s, d))
            t = psum()(eng.seq_arr(sq.t), eng.seq_len(sq.t))
            s.facts.append(t >= 0)
        return [Outcome(s2, RET, T(t, ty)) if b else Outcome(s2, PANIC, None) for s2, b in eng.fork(s, t <= hi)]
    return seq.reraise(seq.run(eng, st, it, lambda s, x, i: [(s, "cont", T(eng.deref(s, x).t, ty))]), done)


@model("Iterator::for_each")
def m_for_each(eng, st, args, info):
    it = to_it(eng, st, args[0])
    f = args[1]

    def body(s, v, i):
        return [(o.st, "cont" if o.kind == RET else "panic", UNITV) for o in eng.call_value(s, f, [v], info.depth)]
    return seq.reraise(seq.run(eng, st, it, body), lambda s, d: Outcome(s, RET, UNITV))


@model("Iterator::try_for_each")
def m_try_for_each(eng, st, args, info):
    it = to_it(eng, st, args[0])
    f = args[1]

    def body(s, v, i):
        out = []
        for o in eng.call_value(s, f, [v], info.depth):
            if o.kind == PANIC:
                out.append((o.st, "panic", None))
                continue
            for s2, vn, p in arms(eng, o.st, o.v):
                out.append((s2, "cont", UNITV) if vn in ("Ok", "Some") else (s2, "brk", (vn, p, o.v)))
        return out
    ty = info.ret
    outs = seq.reraise(seq.run(eng, st, it, body),
                       lambda s, d: Outcome(s, RET, Agg(ty, "Ok" if ty[1] == "Result" else "Some", (UNITV,))),
                       lambda s, v: Outcome(s, RET, Agg(ty, v[0], (v[1],) if v[1] is not None else ())))
    return outs


@model("Iterator::fold", "Iterator::try_fold")
def m_fold(eng, st, args, info):
    it = to_it(eng, st, args[0])
    f = args[2]
    tr = info.key.endswith("try_fold")
    cell = ("acc", next(eng.fid))
    st = st.copy()
    st.cells[cell] = args[1]
    aty = vty(eng, st, args[1])

    def body(s, v, i):
        acc = s.cells[cell]
        out = []
        for o in eng.call_value(s, f, [acc, v], info.depth):
            if o.kind == PANIC:
                out.append((o.st, "panic", None))
                continue
            if not tr:
                s2 = o.st.copy()
                s2.cells[cell] = o.v
                out.append((s2, "cont", UNITV))
                continue
            for s2, vn, p in arms(eng, o.st, o.v):
                s2 = s2.copy()
                if vn in ("Ok", "Some"):
                    s2.cells[cell] = p
                    out.append((s2, "cont", UNITV))
                else:
                    out.append((s2, "brk", (vn, p)))
        return out

    def done(s, d):
        acc = s.cells[cell]
        if tr:
            ty = info.ret
            return Outcome(s, RET, Agg(ty, "Ok" if ty[1] == "Result" else "Some", (acc,)))
        return Outcome(s, RET, acc)
    return seq.reraise(seq.run(eng, st, it, body), done,
                       lambda s, v: Outcome(s, RET, Agg(info.ret, v[0], (v[1],) if v[1] is not None else ())))


@model("Iterator::partition")
def m_partition(eng, st, args, info):
    it = to_it(eng, st, args[0])
    f = args[1]
    cty = info.ret[1][0]

    def side(want):
        def body(s, v, i):
            out = []
            for o in eng.call_value(s, f, [v], info.depth):
                if o.kind == PANIC:
                    out.append((o.st, "panic", None))
                    continue
                for s2, b in eng.fork(o.st, eng.deref(o.st, o.v).t):
                    out.append((s2, "cont" if b == want else "skip", v))
            return out
        return body
    outs = []
    for o in seq.reraise(seq.run(eng, st, it, side(True)), lambda s, d: Outcome(s, RET, build(eng, s, d, cty, it))):
        if o.kind == PANIC:
            outs.append(o)
            continue
        for o2 in seq.reraise(seq.run(eng, o.st, it, side(False)), lambda s, d: Outcome(s, RET, build(eng, s, d, cty, it))):
            if o2.kind == PANIC:
                continue
            outs.append(Outcome(o2.st, RET, Agg(info.ret, "", (o.v, o2.v))))
    return outs


@model("Iterator::unzip", "Itertools::multiunzip", "MultiUnzip::multiunzip")
def m_unzip(eng, st, args, info):
    it = to_it(eng, st, args[0])
    tys = info.ret[1]

    def done(s, d):
        fs = []
        for j, t in enumerate(tys):
            if d.items is not None:
                dj = seq.Done(items=[seq_field(eng, s, x, j) for x in d.items])
            else:
                dj = seq.Done(cases=[seq.Case(c.cond, c.kind, seq_field(eng, c.st, c.v, j), c.st, c.facts) for c in d.cases], i=d.i, n=d.n)
            fs.append(build(eng, s, dj, t, It(0 if d.n is None else d.n, None, True)))
        return Outcome(s, RET, Agg(info.ret, "", fs))
    return seq.reraise(seq.run(eng, st, it, lambda s, v, i: [(s, "cont", v)]), done)


def seq_field(eng, st, x, j):
    x = eng.deref(st, x)
    return x.f[j] if isinstance(x, Agg) else eng.expand(st, x).f[j]


@model("Itertools::sorted", "Itertools::sorted_by", "Itertools::sorted_by_key")
def m_sorted(eng, st, args, info):
    keyf = args[1] if len(args) > 1 else None
    how = "slice::" + {"sorted": "sort", "sorted_by": "sort_by", "sorted_by_key": "sort_by_key"}[info.key.split("::")[1]]
    return then(to_seq(eng, st, to_it(eng, st, args[0]), None, info),
                lambda s, v: seq.list_iter(eng, s, sorted_perm(eng, s, v, how, keyf, info)))


@model("Itertools::duplicates")
def m_duplicates(eng, st, args, info):
    """the items that occur more than once (each once): empty exactly when all items are distinct"""
    def mk(s, v):
        if isinstance(v, ListV):
            v = eng.as_T(s, v)
        et = v.ty[2][0]
        r = eng.fresh_v(s, "dups", v.ty)
        n = eng.seq_len(v.t)
        i, j = z3.Int("d!%d" % next(eng.cnt)), z3.Int("d!%d" % next(eng.cnt))
        at = lambda k: eng.seq_at(v.t, k)
        distinct = forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), at(i) != at(j)), [z3.MultiPattern(at(i), at(j))])
        s.facts.append(z3.Implies(eng.seq_len(r.t) == 0, distinct))
        wi, wj = eng.fresh(s, "dupi", z3.IntSort()), eng.fresh(s, "dupj", z3.IntSort())
        s.facts.append(z3.Implies(eng.seq_len(r.t) > 0, z3.And(0 <= wi, wi < wj, wj < n, at(wi) == at(wj))))
        return seq.list_iter(eng, s, r)
    return then(to_seq(eng, st, to_it(eng, st, args[0]), None, info), mk)


@model("Itertools::group_by", "Itertools::chunk_by")
def m_group_by(eng, st, args, info):
    """runs of consecutive items with equal keys: an iterator of (key, items of the run); they exist by rules.lean: group_runs"""
    f = args[1]
    it = to_it(eng, st, args[0])

    def mk(s, v):
        if isinstance(v, ListV):
            v = eng.as_T(s, v)
        base = seq.list_iter(eng, s, v)

        def gen(e, s1, i):
            return [(o.st, "item" if o.kind == RET else "panic", o.v) for s2, k, x in base.gen(e, s1, i) for o in e.call_value(s2, f, [x], info.depth)]
        return then(to_seq(eng, s, It(base.n, gen, True), None, info), lambda s2, ks: groups(eng, s2, v, eng.as_T(s2, ks) if isinstance(ks, ListV) else ks))
    return then(to_seq(eng, st, it, None, info), mk)


def groups(eng, s, v, ks):
    Z = z3.IntSort()
    n = eng.seq_len(v.t)
    kt = ks.ty[2][0]
    k = eng.fresh(s, "groups", Z)
    b = eng.fresh_fn(s, "gstart", [Z], Z)
    of = eng.fresh_fn(s, "gof", [Z], Z)
    G = eng.fresh_fn(s, "group", [Z], eng.ty.sort(v.ty))
    key = lambda i: eng.seq_at(ks.t, i)
    g, h, i = [z3.Int("%s!%d" % (x, next(eng.cnt))) for x in "ghi"]
    ing, ini = z3.And(g >= 0, g < k), z3.And(i >= 0, i < n)
    gl = eng.seq_len(G(g))
    a = eng.fresh(s, "glens", z3.ArraySort(Z, Z))
    s.facts += [
        k >= 0, (k == 0) == (n == 0), b(0) == 0, b(k) == n,
        forall(g, z3.Implies(ing, z3.And(b(g) < b(g + 1), b(g) >= 0, b(g + 1) <= n, gl == b(g + 1) - b(g), gl > 0)), [gl]),
        forall(g, z3.Implies(z3.And(ing, g > 0), key(b(g)) != key(b(g - 1))), [b(g)]),
        forall([g, h], z3.Implies(z3.And(0 <= g, g < h, h <= k), b(g) < b(h)), [z3.MultiPattern(b(g), b(h))]),
        forall([g, i], z3.Implies(z3.And(ing, i >= 0, i < gl), z3.And(eng.seq_at(G(g), i) == eng.seq_at(v.t, b(g) + i), of(b(g) + i) == g, key(b(g) + i) == key(b(g)))),
               [eng.seq_at(G(g), i)]),
        forall(i, z3.Implies(ini, z3.And(of(i) >= 0, of(i) < k, b(of(i)) <= i, i < b(of(i) + 1), key(i) == key(b(of(i))),
                                         i - b(of(i)) < eng.seq_len(G(of(i))), eng.seq_at(G(of(i)), i - b(of(i))) == eng.seq_at(v.t, i))), [eng.seq_at(v.t, i)]),
        forall(g, z3.Select(a, g) == gl, [z3.Select(a, g)]),
        forall(g, z3.Implies(z3.And(0 <= g, g <= k), b(g) == psum()(a, g)), [b(g)]),
    ]

    def gen(e, st, j):
        x = T(key(b(j)), kt)
        e.touch(st, x)
        return [(st, "item", Agg(("tuple", (kt, ("opaque", "group"))), "", [x, seq.list_iter(e, st, T(G(j), v.ty))]))]
    return It(k, gen, True)


@model("Iterator::max", "Iterator::min", "Iterator::max_by_key", "Iterator::min_by_key")
def m_it_max(eng, st, args, info):
    """the last item with the greatest key, the first with the least one; keys are integers"""
    op = info.key.split("::")[1]
    big = op.startswith("max")

    def k(s, v):
        if "by_key" in op:
            def body(s2, x, i):
                return [(o.st, "panic", None) if o.kind == PANIC else (o.st, "cont", o.v) for o in eng.call_value(s2, args[1], [x], info.depth)]
            outs = seq.reraise(seq.run(eng, s, seq.list_iter(eng, s, v), body), lambda s2, dn: Outcome(s2, RET, seq.seq_of(eng, s2, dn, seq.elem_ty(eng, s2, dn, None))))
        else:
            outs = [Outcome(s, RET, v)]

        def k2(s2, ks):
            if isinstance(v, ListV) or isinstance(ks, ListV):
                raise Unsupported(info.key + " of a list")
            n = eng.seq_len(v.t)
            if eng.seq_at(ks.t, z3.IntVal(0)).sort() != z3.IntSort():
                raise Unsupported(info.key)
            out = []
            for s3, empty in eng.fork(s2, n == 0):
                if empty:
                    out.append((s3, eng.none(v.ty[2][0])))
                    continue
                s3 = s3.copy()
                m, j = z3.FreshInt("mx"), z3.FreshInt("mj")
                at = lambda i: eng.seq_at(ks.t, i)
                le = lambda a, b: a <= b if big else a >= b
                lt = lambda a, b: a < b if big else a > b
                later = j > m if big else j < m
                s3.facts += [m >= 0, m < n, forall(j, z3.Implies(z3.And(j >= 0, j < n), z3.And(le(at(j), at(m)), z3.Implies(later, lt(at(j), at(m))))), [at(j)])]
                x = T(eng.seq_at(v.t, m), v.ty[2][0])
                eng.touch(s3, x)
                out.append((s3, eng.some(x, x.ty)))
            return out
        return then(outs, k2)
    return fix_types(eng, then(to_seq(eng, st, args[0], None, info), k), info)


@model("Iterator::step_by")
def m_it_unsupported(eng, st, args, info):
    raise Unsupported(info.key)


# ----------------------------------------------------------------------------- maps and sets
@model("HashMap::new", "BTreeMap::new", "HashMap::with_capacity")
def m_map_new(eng, st, args, info):
    t = info.ret
    if not usable(t) or any(not usable(x) for x in t[2]):
        g = info.generics(-2)
        t = ("adt", "Map", tuple(g[:2]))
    return T(eng.empty_map(*t[2]), t)


@model("BTreeSet::new", "HashSet::new")
def m_set_new(eng, st, args, info):
    t = info.ret
    return T(z3.K(eng.ty.sort(t[2][0]), z3.BoolVal(False)), t)


def map_get(eng, st, m, k):
    m = eng.as_T(st, eng.deref(st, m))
    kt, vt = m.ty[2]
    x = T(z3.Select(m.t, eng.term(st, k, kt)), OPT(vt))
    return x


@model("HashMap::get", "BTreeMap::get")
def m_map_get(eng, st, args, info):
    return map_get(eng, st, args[0], args[1])


@model("HashMap::contains_key", "BTreeMap::contains_key")
def m_contains_key(eng, st, args, info):
    return eng.boolv(eng.is_variant(map_get(eng, st, args[0], args[1]), "Some"))


@model("HashMap::get_mut", "BTreeMap::get_mut")
def m_map_get_mut(eng, st, args, info):
    r = args[0]
    m = eng.as_T(st, eng.deref(st, r))
    kt, vt = m.ty[2]
    k = eng.term(st, args[1], kt)
    x = T(z3.Select(m.t, k), OPT(vt))
    out = []
    for s, vn in eng.fork_variant(st, x):
        out.append((s, eng.none(vt) if vn == "None" else eng.some(Ref(r.cell, r.path + (("key", k),), vt), vt)))
    return out


@model("HashMap::insert", "BTreeMap::insert")
def m_map_insert(eng, st, args, info):
    r = args[0]
    m = eng.as_T(st, eng.deref(st, r))
    kt, vt = m.ty[2]
    k = eng.term(st, args[1], kt)
    some = eng.ty.constructor(OPT(vt), "Some")[0]
    st = st.copy()
    old = T(z3.Select(m.t, k), OPT(vt))
    eng.write(st, r.cell, r.path, T(z3.Store(m.t, k, some(eng.term(st, args[2], vt))), m.ty))
    return [(st, old)]


@model("HashMap::remove", "BTreeMap::remove")
def m_map_remove(eng, st, args, info):
    r = args[0]
    m = eng.as_T(st, eng.deref(st, r))
    kt, vt = m.ty[2]
    k = eng.term(st, args[1], kt)
    st = st.copy()
    old = T(z3.Select(m.t, k), OPT(vt))
    eng.write(st, r.cell, r.path, T(z3.Store(m.t, k, eng.ty.constructor(OPT(vt), "None")[0]()), m.ty))
    return [(st, old)]


@model("BTreeSet::insert", "HashSet::insert")
def m_set_insert(eng, st, args, info):
    r = args[0]
    m = eng.as_T(st, eng.deref(st, r))
    k = eng.term(st, args[1], m.ty[2][0])
    st = st.copy()
    had = z3.Select(m.t, k)
    eng.write(st, r.cell, r.path, T(z3.Store(m.t, k, z3.BoolVal(True)), m.ty))
    return [(st, T(z3.Not(had), BOOL))]


@model("BTreeSet::contains", "HashSet::contains")
def m_set_contains(eng, st, args, info):
    m = eng.as_T(st, eng.deref(st, args[0]))
    return T(z3.Select(m.t, eng.term(st, args[1], m.ty[2][0])), BOOL)


@model("HashMap::entry", "BTreeMap::entry")
def m_entry(eng, st, args, info):
    r = args[0]
    m = eng.as_T(st, eng.deref(st, r))
    return PyV("entry", {"cell": r.cell, "path": r.path, "key": eng.term(st, args[1], m.ty[2][0]), "ty": m.ty})


@model("Entry::and_modify")
def m_and_modify(eng, st, args, info):
    e = args[0]
    m = eng.as_T(st, eng.read(st, e.d["cell"], e.d["path"]))
    vt = m.ty[2][1]
    x = T(z3.Select(m.t, e.d["key"]), OPT(vt))
    out = []
    for s, vn in eng.fork_variant(st, x):
        if vn == "None":
            out.append(Outcome(s, RET, e))
        else:
            rf = Ref(e.d["cell"], e.d["path"] + (("key", e.d["key"]),), vt)
            out.extend(then(eng.call_value(s, args[1], [rf], info.depth), lambda s2, _: e))
    return out


@model("Entry::or_insert", "Entry::or_default", "Entry::or_insert_with")
def m_or_insert(eng, st, args, info):
    e = args[0]
    m = eng.as_T(st, eng.read(st, e.d["cell"], e.d["path"]))
    vt = m.ty[2][1]
    x = T(z3.Select(m.t, e.d["key"]), OPT(vt))
    rf = Ref(e.d["cell"], e.d["path"] + (("key", e.d["key"]),), vt)
    some = eng.ty.constructor(OPT(vt), "Some")[0]
    out = []
    for s, vn in eng.fork_variant(st, x):
        if vn == "Some":
            out.append(Outcome(s, RET, rf))
            continue
        if info.key.endswith("default"):
            ds = default_of(eng, s, vt, info)
        elif info.key.endswith("with"):
            ds = eng.call_value(s, args[1], [], info.depth)
        else:
            ds = [Outcome(s, RET, args[1])]

        def k(s2, d):
            s2 = s2.copy()
            m2 = eng.as_T(s2, eng.read(s2, e.d["cell"], e.d["path"]))
            eng.write(s2, e.d["cell"], e.d["path"], T(z3.Store(m2.t, e.d["key"], some(eng.term(s2, d, vt))), m2.ty))
            return [(s2, rf)]
        out.extend(then(ds, k))
    return out


# ----------------------------------------------------------------------------- contract storage
@model("Map::new", "Item::new", "IndexedMap::new", "Deque::new")
def m_cw_new(eng, st, args, info):
    g = info.generics(-2)
    ns = eng.deref(st, args[0])
    name = str(ns.t).strip("|")
    if not name.startswith("str:"):
        raise Unsupported("storage namespace is not a constant")
    item = info.key.startswith("Item")
    if item:
        return CwMap(name[4:], None, g[0] if g else None, True)
    idx = args[1] if info.key.startswith("IndexedMap") else None
    return CwMap(name[4:], g[0] if g else None, g[1] if len(g) > 1 else None, False, idx)


@model("MultiIndex::new")
def m_multiindex(eng, st, args, info):
    g = info.generics(-2)
    return PyV("multiindex", {"fn": args[0], "ns": str(eng.deref(st, args[1]).t).strip("|")[4:], "vt": g[1], "kt": g[2]})


@model("MultiIndex::prefix")
def m_mi_prefix(eng, st, args, info):
    """the entries of the primary map whose index function yields the key (the index is maintained by IndexedMap)"""
    mi = eng.deref(st, args[0])
    key = eng.deref(st, args[1])
    d = mi.d

    def rng(e, s0, info2):
        e.note_store(d["ns"], ("adt", "Map", (d["kt"], d["vt"])))
        t = T(e.store_get(s0, d["ns"]), ("adt", "Map", (d["kt"], d["vt"])))
        base = seq.map_iter(e, s0, t, "items")
        rt = RES(("tuple", t.ty[2]), STDERR)

        def gen(e, s, i):
            out = []
            for s2, k, v in base.gen(e, s, i):
                for o in e.call_value(s2, d["fn"], [ufv(e, s2, "keybytes:" + tname(d["kt"]), [v.f[0]], BYTES), v.f[1]], info.depth):
                    if o.kind == PANIC:
                        out.append((o.st, "panic", None))
                        continue
                    for s3, b in e.fork(o.st, eq(e, o.st, o.v, key)):
                        out.append((s3, "item", Agg(rt, "Ok", (v,))) if b else (s3, "skip", None))
            return out
        it = It(base.n, gen, False, rt)
        return it
    return PyV("idxprefix", {"range": rng})


def cwmap(eng, st, v, info):
    m = eng.deref(st, v)
    if not isinstance(m, CwMap):
        raise Unsupported("storage map %r" % (m,))
    g = info.generics(-2) if info is not None else []
    kt, vt = m.kt, m.vt
    if m.item:
        if g and usable(g[0]):
            vt = g[0]
        eng.note_store(m.ns, OPT(vt))
    else:
        if len(g) >= 2:
            if usable(g[0]):
                kt = g[0]
            if usable(g[1]):
                vt = g[1]
        eng.note_store(m.ns, ("adt", "Map", (kt, vt)))
    return CwMap(m.ns, kt, vt, m.item, m.idx)


def store(eng, st, m):
    return eng.store_get(st, m.ns)


def cell_of(eng, st, m, key):
    t = store(eng, st, m)
    if m.item:
        return T(t, OPT(m.vt))
    return T(z3.Select(t, eng.term(st, key, m.kt)), OPT(m.vt))


def put(eng, st, m, key, v):
    st = st.copy()
    some = eng.ty.constructor(OPT(m.vt), "Some")[0]
    x = some(eng.term(st, v, m.vt))
    if m.item:
        eng.store_set(st, m.ns, x)
    else:
        eng.store_set(st, m.ns, z3.Store(store(eng, st, m), eng.term(st, key, m.kt), x))
    return st


STDERR = ("adt", "cosmwasm_std::errors::std_error::StdError", ())


@model("Map::load", "Item::load", "IndexedMap::load")
def m_load(eng, st, args, info):
    m = cwmap(eng, st, args[0], info)
    c = cell_of(eng, st, m, args[2] if not m.item else None)
    et = rty(info, 1) or STDERR
    return [(s, Agg(RES(m.vt, et), "Ok", (p,)) if vn == "Some" else Agg(RES(m.vt, et), "Err", (fresh_err(eng, s, et),)))
            for s, vn, p in arms(eng, st, c)]


@model("Map::may_load", "Item::may_load", "IndexedMap::may_load")
def m_may_load(eng, st, args, info):
    m = cwmap(eng, st, args[0], info)
    c = cell_of(eng, st, m, args[2] if not m.item else None)
    et = rty(info, 1) or STDERR
    return Agg(RES(OPT(m.vt), et), "Ok", (c,))


@model("Map::has", "Item::exists", "IndexedMap::has")
def m_has(eng, st, args, info):
    m = cwmap(eng, st, args[0], info)
    c = cell_of(eng, st, m, args[2] if not m.item else None)
    return eng.boolv(eng.is_variant(c, "Some"))


@model("Map::save", "Item::save", "IndexedMap::save")
def m_save(eng, st, args, info):
    m = cwmap(eng, st, args[0], info)
    v = args[3] if not m.item else args[2]
    s = put(eng, st, m, args[2] if not m.item else None, v)
    et = rty(info, 1) or STDERR
    return [(s, Agg(RES(UNIT, et), "Ok", (UNITV,)))]


@model("Map::remove", "Item::remove", "IndexedMap::remove")
def m_remove(eng, st, args, info):
    m = cwmap(eng, st, args[0], info)
    st = st.copy()
    none = eng.ty.constructor(OPT(m.vt), "None")[0]()
    if m.item:
        eng.store_set(st, m.ns, none)
    else:
        eng.store_set(st, m.ns, z3.Store(store(eng, st, m), eng.term(st, args[2], m.kt), none))
    if info.ret is not None and info.ret[0] == "adt" and info.ret[1] == "Result":
        return [(st, Agg(info.ret, "Ok", (UNITV,)))]
    return [(st, UNITV)]


@model("Map::update", "Item::update", "IndexedMap::update")
def m_update(eng, st, args, info):
    m = cwmap(eng, st, args[0], info)
    key = None if m.item else args[2]
    f = args[2] if m.item else args[3]
    c = cell_of(eng, st, m, key)
    et = rty(info, 1) or STDERR
    out = []

    def fin(s, r):
        res = []
        for s2, vn, p in arms(eng, s, r):
            if vn == "Ok":
                s3 = put(eng, s2, m, key, p)
                res.append((s3, Agg(RES(m.vt, et), "Ok", (p,))))
            else:
                res.append((s2, Agg(RES(m.vt, et), "Err", (p,))))
        return res
    if m.item:
        for s, vn, p in arms(eng, st, c):
            if vn == "None":
                out.append(Outcome(s, RET, Agg(RES(m.vt, et), "Err", (fresh_err(eng, s, et),))))
            else:
                out.extend(then(eng.call_value(s, f, [p], info.depth), fin))
        return out
    return then(eng.call_value(st, f, [c], info.depth), fin)


@model("Map::prefix", "IndexedMap::prefix")
def m_prefix(eng, st, args, info):
    m = cwmap(eng, st, args[0], info)
    if m.kt[0] != "tuple":
        raise Unsupported("prefix of %s" % tname(m.kt))
    return PyV("prefix", {"m": m, "k": args[1]})


@model("Prefix::range", "Map::range", "IndexedMap::range", "Prefix::range_raw")
def m_range(eng, st, args, info):
    a = eng.deref(st, args[0])
    desc = False
    if isinstance(a, CwMap):
        m = cwmap(eng, st, a, info)
        t = T(store(eng, st, m), ("adt", "Map", (m.kt, m.vt)))
    elif isinstance(a, PyV) and a.kind == "prefix":
        m = a.d["m"]
        kts = m.kt[1]
        # the prefix is every key element but the last
        if len(kts) == 2:
            pre = [eng.term(st, a.d["k"], kts[0])]
        else:
            pre = [eng.term(st, x, y) for x, y in zip(eng.expand(st, eng.deref(st, a.d["k"])).f, kts)]
        rt = kts[-1]
        mt = ("adt", "Map", (rt, m.vt))
        sub = T(z3.Function("sub:" + tname(m.kt) + tname(m.vt), eng.ty.sort(("adt", "Map", (m.kt, m.vt))), *[x.sort() for x in pre], eng.ty.sort(mt))(store(eng, st, m), *pre), mt)
        k = z3.Const("pk!%d" % next(eng.cnt), eng.ty.sort(rt))
        con = eng.ty.sort(m.kt).constructor(0)
        full = con(*pre, k)
        st.facts.append(forall(k, z3.Select(sub.t, k) == z3.Select(store(eng, st, m), full), [z3.Select(sub.t, k)]))
        t = sub
    elif isinstance(a, PyV) and a.kind == "idxprefix":
        return a.d["range"](eng, st, info)
    else:
        raise Unsupported("range over %r" % (a,))
    # bounds must be None
    for b in args[2:4]:
        d = eng.deref(st, b)
        if not (isinstance(d, Agg) and d.variant == "None"):
            raise Unsupported("bounded range")
    base = seq.map_iter(eng, st, t, "items")

    def gen(e, s, i):
        return [(s2, k, Agg(RES(("tuple", t.ty[2]), STDERR), "Ok", (v,)) if k == "item" else v) for s2, k, v in base.gen(e, s, i)]
    it = It(base.n, gen, True, RES(("tuple", t.ty[2]), STDERR))
    it.src = base.src
    return it


@model("Prefix::keys", "Map::keys", "Prefix::is_empty", "Map::is_empty", "Prefix::range_de", "Map::clear", "Map::key")
def m_cw_unsupported(eng, st, args, info):
    raise Unsupported(info.key)


# ----------------------------------------------------------------------------- cosmwasm
@model("DepsMut::as_ref", "DepsMut::branch", "Deps::as_ref")
def m_deps_ref(eng, st, args, info):
    d = eng.expand(st, eng.deref(st, args[0]))
    vs = eng.ty.variants(info.ret)
    by = {n: f for n, f in zip(eng.ty.variants(d.ty)[0][2], d.f)}
    return Agg(info.ret, vs[0][0], [by[n] for n in vs[0][2]])


@model("Api::addr_validate")
def m_addr_validate(eng, st, args, info):
    """Ok(address) exactly for valid text, and then the address is the text"""
    t = eng.term(st, args[1])
    ok = z3.Function("valid_addr", eng.ty.sort(STR), z3.BoolSort())(t)
    et = rty(info, 1) or STDERR
    return [(s, Agg(RES(STR, et), "Ok", (T(t, STR),)) if b else Agg(RES(STR, et), "Err", (fresh_err(eng, s, et),))) for s, b in eng.fork(st, ok)]


@model("Api::addr_canonicalize", "Api::addr_humanize")
def m_canon(eng, st, args, info):
    raise Unsupported(info.key)


def to_json(eng, st, v, ty=None):
    v = eng.deref(st, v)
    t = eng.term(st, v, ty)
    ty = getattr(v, "ty", ty)
    f, _ = injective(eng, "json:" + tname(ty), ty, BYTES)
    return T(f(t), BYTES)


@model("cosmwasm_std::to_binary", "cosmwasm_std::to_json_binary", "cosmwasm_std::to_vec", "serde_json::to_vec", "to_binary", "serde_json::to_string", "cosmwasm_std::to_json_vec")
def m_to_binary(eng, st, args, info):
    v = eng.deref(st, args[0])
    et = rty(info, 1) or STDERR
    if info.key.endswith("to_string"):
        t = eng.term(st, v)
        return Agg(RES(STR, et), "Ok", (T(z3.Function("jsontext:" + str(t.sort()), t.sort(), eng.ty.sort(STR))(t), STR),))
    return Agg(RES(BYTES, et), "Ok", (to_json(eng, st, v),))


@model("cosmwasm_std::from_binary", "cosmwasm_std::from_json", "from_binary", "cosmwasm_std::from_slice", "serde_json::from_slice")
def m_from_binary(eng, st, args, info):
    ty = info.generics()[0] if info.generics() and usable(info.generics()[0]) else rty(info)
    b = eng.term(st, args[0], BYTES)
    f, g = injective(eng, "json:" + tname(ty), ty, BYTES)
    okf = z3.Function("isjson:" + tname(ty), eng.ty.sort(BYTES), z3.BoolSort())
    key = "isjson:" + tname(ty)
    if key not in eng.inj:
        eng.inj.add(key)
        x = z3.Const("jx", eng.ty.sort(ty))
        eng.extra_facts.append(z3.ForAll([x], okf(f(x)), patterns=[f(x)]))
    et = rty(info, 1) or STDERR
    out = []
    for s, c in eng.fork(st, okf(b)):
        v = T(g(b), ty)
        eng.touch(s, v)
        out.append((s, Agg(RES(ty, et), "Ok", (v,)) if c else Agg(RES(ty, et), "Err", (fresh_err(eng, s, et),))))
    return out


@model("QuerierWrapper::query", "QuerierWrapper::query_wasm_smart")
def m_query(eng, st, args, info):
    """the reply is an arbitrary function of the request within one execution"""
    ty = info.generics()[0] if info.generics() and usable(info.generics()[0]) else rty(info)
    req = [eng.term(st, a) for a in args[1:]]
    if info.key.endswith("smart"):
        raise Unsupported("query_wasm_smart")
    okf = z3.Function("query_ok:" + tname(ty), *[r.sort() for r in req], z3.BoolSort())
    vf = z3.Function("query:" + tname(ty), *[r.sort() for r in req], eng.ty.sort(ty))
    et = rty(info, 1) or STDERR
    v = T(vf(*req), ty)
    eng.touch(st, v)
    out = []
    for s, c in eng.fork(st, okf(*req)):
        out.append((s, Agg(RES(ty, et), "Ok", (v,)) if c else Agg(RES(ty, et), "Err", (fresh_err(eng, s, et),))))
    return out


RESP = ("adt", "Response", ())


def submsg_ty(eng):
    return ("adt", eng.ty.cw("SubMsg"), ())


def new_response(eng, st):
    return Agg(RESP, "Response", (ListV(submsg_ty(eng), []), PyV("attributes", {}, ("opaque", "attributes")), PyV("events", {}, ("opaque", "events")), eng.none(BYTES)))


@model("Response::new", "Response::default")
def m_resp_new(eng, st, args, info):
    return new_response(eng, st)


def resp(eng, st, v):
    v = eng.deref(st, v)
    return v if isinstance(v, Agg) else eng.expand(st, v)


@model("Response::add_event", "Response::add_events", "Response::add_attribute", "Response::add_attributes")
def m_resp_event(eng, st, args, info):
    return resp(eng, st, args[0])


@model("Response::set_data")
def m_set_data(eng, st, args, info):
    r = resp(eng, st, args[0])
    f = list(r.f)
    f[3] = eng.some(T(eng.term(st, args[1], BYTES), BYTES), BYTES)
    return Agg(RESP, "Response", f)


def cosmos_msg(eng, st, m):
    ct = ("adt", eng.ty.cw("CosmosMsg"), ())
    d = eng.deref(st, m)
    ty = getattr(d, "ty", None)
    if ty == ct:
        return d
    r = convert(eng, st, d, ty, ct, None)
    if not isinstance(r, Agg) and ty[0] == "adt" and ty[1].split("::")[0] in eng.mods:
        # From<M> for CosmosMsg<M> of a custom message
        return Agg(ct, "Custom", (T(eng.custom(st, d), ("adt", "T", ())),))
    if not isinstance(r, Agg):
        raise Unsupported("message %s" % tname(ty))
    return r


REPLYON = None


def mk_submsg(eng, st, m, id_=0, reply="Never", gas=None):
    ty = submsg_ty(eng)
    vs = eng.ty.variants(ty)[0]
    rt = vs[1][vs[2].index("reply_on")]
    vals = {"id": id_ if isinstance(id_, V) else T(z3.IntVal(id_), ("int", "u64")), "msg": cosmos_msg(eng, st, m), "gas_limit": gas or eng.none(("int", "u64")),
            "reply_on": Agg(rt, reply, ())}
    return Agg(ty, vs[0], [vals[n] for n in vs[2]])


@model("SubMsg::new", "SubMsg::reply_on_success", "SubMsg::reply_always", "SubMsg::reply_on_error", "SubMsg::reply_never")
def m_submsg(eng, st, args, info):
    kind = info.key.split("::")[1]
    return mk_submsg(eng, st, args[0], args[1] if len(args) > 1 else 0,
                     {"new": "Never", "reply_on_success": "Success", "reply_always": "Always", "reply_on_error": "Error", "reply_never": "Never"}[kind])


def push_msgs(eng, st, r, sq):
    f = list(r.f)
    f[0] = seq_concat(eng, st, eng.deref(st, f[0]), sq, VEC(submsg_ty(eng)))
    return Agg(RESP, "Response", f)


@model("Response::add_message", "Response::add_submessage")
def m_add_msg(eng, st, args, info):
    r = resp(eng, st, args[0])
    d = eng.deref(st, args[1])
    sm = d if info.key.endswith("submessage") else mk_submsg(eng, st, d)
    f0 = eng.deref(st, r.f[0])
    return push_msgs(eng, st, r, ListV(submsg_ty(eng), [sm]))


@model("Response::add_messages", "Response::add_submessages")
def m_add_msgs(eng, st, args, info):
    r = resp(eng, st, args[0])
    it = to_it(eng, st, args[1])
    sub = info.key.endswith("submessages")

    def body(s, v, i):
        return [(s, "cont", v if sub else mk_submsg(eng, s, v))]
    return seq.reraise(seq.run(eng, st, it, body),
                       lambda s, d: Outcome(s, RET, push_msgs(eng, s, r, seq.seq_of(eng, s, d, submsg_ty(eng)))))


@model("cosmwasm_std::wasm_execute", "wasm_execute")
def m_wasm_execute(eng, st, args, info):
    ty = info.ret[2][0]
    vs = eng.ty.variants(ty)
    for vn, ft, fn, _ in vs:
        if vn == "Execute":
            vals = {"contract_addr": T(eng.term(st, args[0]), STR), "msg": to_json(eng, st, args[1]), "funds": eng.deref(st, args[2])}
            return Agg(info.ret, "Ok", (Agg(ty, vn, [vals[n] for n in fn]),))
    raise Unsupported("wasm_execute")


@model("cosmwasm_std::coins", "cosmwasm_std::coin", "coins", "coin", "Coin::new")
def m_coins(eng, st, args, info):
    ct = ("adt", eng.ty.cw("Coin"), ())
    vs = eng.ty.variants(ct)[0]
    a = eng.deref(st, args[0])
    vals = {"denom": T(eng.term(st, args[1]), STR), "amount": T(a.t, ("int", "Uint128"))}
    c = Agg(ct, vs[0], [vals[n] for n in vs[2]])
    return ListV(ct, [c]) if info.key.endswith("coins") else c


# ----------------------------------------------------------------------------- errors
@model("ResultExt::change_context", "ResultExt::change_context_lazy", "ResultExt::attach_printable", "ResultExt::attach_printable_lazy", "IntoReport::into_report",
       "IntoReportCompat::into_report", "ResultExt::attach", "ResultCompatExt::change_context", "ResultExt::attach_lazy")
def m_ctx(eng, st, args, info):
    v = eng.deref(st, args[0])
    out = []
    for s, vn, p in arms(eng, st, v):
        ety = rty(info, 1) or ("adt", "error_stack::Report", (("opaque", "ctx"),))
        if vn == "Ok":
            out.append((s, Agg(RES(v.ty[2][0], ety), "Ok", (p,))))
        else:
            out.append((s, Agg(RES(v.ty[2][0], ety), "Err", (eng.fresh_v(s, "err", ety),))))
    return out


@model("Report::new", "Report::from", "Report::change_context", "Report::attach_printable", "ContextReporter::report", "ContextTag::__kind", "StdError::generic_err",
       "StdError::parse_err", "StdError::invalid_utf8", "StdError::not_found", "StdError::invalid_data_size", "StdError::overflow", "Event::new", "Event::add_attribute", "Event::add_attributes", "Report::current_context",
       "__private::kind", "Report::attach", "Adhoc::new", "AdhocKind::adhoc_kind", "Attribute::new", "attr", "cosmwasm_std::attr")
def m_fresh(eng, st, args, info):
    try:
        return retv(eng, st, info, "err")
    except Unsupported:
        if not info.key.startswith("StdError::"):
            raise
        return eng.fresh_v(st, "err", ("opaque", "StdError"))


@model("rt::panic_fmt", "panicking::panic", "panicking::panic_fmt", "panicking::assert_failed", "panicking::panic_display", "panicking::unreachable_display", "rt::begin_panic",
       "panicking::panic_str", "panicking::panic_explicit")
def m_panic(eng, st, args, info):
    return [(st, PANIC, None)]


# ----------------------------------------------------------------------------- cryptography and hashing (uninterpreted)
@model("Digest::new")
def m_digest_new(eng, st, args, info):
    return PyV("hasher", {"parts": ()}, None)


@model("Digest::update")
def m_digest_update(eng, st, args, info):
    r = args[0]
    h = eng.deref(st, r)
    st = st.copy()
    eng.write(st, r.cell, r.path, PyV("hasher", {"parts": h.d["parts"] + (hash_in(eng, st, args[1]),)}))
    return [(st, UNITV)]


def joined(eng, bs):
    """concatenation: what is joined can be told from the whole and the length of its end"""
    f = z3.Function("concat2", bs, bs, bs)
    if "concat2:ends" not in eng.inj:
        eng.inj.add("concat2:ends")
        a, b = z3.Const("ca", bs), z3.Const("cb", bs)
        ln = z3.Function("byteslen", bs, z3.IntSort())
        eng.extra_facts.append(z3.ForAll([a, b], z3.And(
            z3.Function("concat2:head", bs, z3.IntSort(), bs)(f(a, b), ln(b)) == a,
            z3.Function("concat2:tail", bs, z3.IntSort(), bs)(f(a, b), ln(b)) == b), patterns=[f(a, b)]))
    return f


def hash_in(eng, st, v):
    v = eng.deref(st, v)
    if v.ty == STR:
        f, _ = injective(eng, "utf8", STR, BYTES)
        return f(eng.term(st, v))
    return eng.term(st, v, BYTES)


@model("Digest::finalize")
def m_digest_fin(eng, st, args, info):
    h = eng.deref(st, args[0])
    bs = eng.ty.sort(BYTES)
    ps = h.d["parts"]
    t = ps[0]
    for p in ps[1:]:
        t = joined(eng, bs)(t, p)
    r = injective(eng, "keccak", BYTES, BYTES)[0](t)
    st.facts.append(z3.Function("byteslen", bs, z3.IntSort())(r) == 32)
    return T(r, BYTES)


@model("Digest::digest")
def m_digest(eng, st, args, info):
    bs = eng.ty.sort(BYTES)
    r = injective(eng, "keccak", BYTES, BYTES)[0](hash_in(eng, st, args[0]))
    st.facts.append(z3.Function("byteslen", bs, z3.IntSort())(r) == 32)
    return T(r, BYTES)


@model("cosmwasm_crypto::secp256k1_verify", "cosmwasm_crypto::ed25519_verify")
def m_verify(eng, st, args, info):
    bs = eng.ty.sort(BYTES)
    ts = [eng.term(st, a, BYTES) for a in args]
    ok = z3.Function(info.key + ":ok", bs, bs, bs, z3.BoolSort())(*ts)
    b = z3.Function(info.key, bs, bs, bs, z3.BoolSort())(*ts)
    et = rty(info, 1) or ("opaque", "crypto")
    return [(s, Agg(RES(BOOL, et), "Ok", (T(b, BOOL),)) if c else Agg(RES(BOOL, et), "Err", (eng.fresh_v(s, "err", et),))) for s, c in eng.fork(st, ok)]


@model("convert::identity")
def m_identity(eng, st, args, info):
    return [(st, args[0])]


# ----------------------------------------------------------------------------- encodings and elliptic curves (dependencies)
def opt_result(eng, st, name, args, ty, info, extra=None):
    """Result<ty, E> of a deterministic dependency function: accepts or not, and with what, depending on the arguments only"""
    ts = [eng.term(st, a) for a in args]
    okf = z3.Function(name + ":ok", *[t.sort() for t in ts], z3.BoolSort())
    f = z3.Function(name, *[t.sort() for t in ts], eng.ty.sort(ty))
    et = rty(info, 1) or ("opaque", name + "err")
    out = []
    for s, c in eng.fork(st, okf(*ts)):
        v = T(f(*ts), ty)
        if c:
            eng.touch(s, v)
            if extra:
                s.facts.append(extra(v.t))
        out.append((s, Agg(RES(ty, et), "Ok", (v,)) if c else Agg(RES(ty, et), "Err", (fresh_err(eng, s, et),))))
    return out


@model("bcs::to_bytes")
def m_bcs(eng, st, args, info):
    """BCS is injective on values of one type"""
    v = eng.deref(st, args[0])
    ty = vty(eng, st, v)
    t = eng.term(st, v, ty)
    f, _ = injective(eng, "bcs:" + tname(ty), ty, BYTES)
    okf = z3.Function("bcs:ok:" + tname(ty), t.sort(), z3.BoolSort())
    et = rty(info, 1) or ("opaque", "bcserr")
    return [(s, Agg(RES(BYTES, et), "Ok", (T(f(t), BYTES),)) if c else Agg(RES(BYTES, et), "Err", (fresh_err(eng, s, et),))) for s, c in eng.fork(st, okf(t))]


@model("ethabi::encode")
def m_abi_encode(eng, st, args, info):
    """the ABI encoding of a list of tokens (injective on lists of one signature; every caller here uses one)"""
    v = eng.deref(st, args[0])
    if not isinstance(v, ListV):
        raise Unsupported("ethabi::encode of a list of unknown length")
    ts = [eng.term(st, x, TOKEN) for x in v.items]
    n = len(ts)
    so, bs = eng.ty.sort(TOKEN), eng.ty.sort(BYTES)
    f = z3.Function("abi%d" % n, *[so] * n, bs)
    if "abi%d" % n not in eng.inj:
        eng.inj.add("abi%d" % n)
        xs = [z3.Const("tk%d" % k, so) for k in range(n)]
        for k in range(n):
            eng.extra_facts.append(z3.ForAll(xs, z3.Function("unabi%d_%d" % (n, k), bs, so)(f(*xs)) == xs[k], patterns=[f(*xs)]))
    return T(f(*ts), BYTES)


@model("ethabi::short_signature")
def m_short_sig(eng, st, args, info):
    v = eng.deref(st, args[1])
    if isinstance(v, ListV):
        kinds = ",".join(tname(vty(eng, st, x)).split(".")[-1] for x in v.items)
    else:
        raise Unsupported("selector of an unknown signature")
    v = ufv(eng, st, "selector(%s)" % kinds, args[:1], BYTES)
    st.facts.append(z3.Function("byteslen", eng.ty.sort(BYTES), z3.IntSort())(v.t) == 4)
    return v


H160 = ("adt", "ethabi::ethereum_types::H160", ())


@model("Address::from_slice", "H160::from_slice")
def m_h160(eng, st, args, info):
    t = eng.term(st, args[0], BYTES)
    bl = z3.Function("byteslen", eng.ty.sort(BYTES), z3.IntSort())
    ty = H160
    f, _ = injective(eng, "h160", BYTES, ty)
    return [(s, RET, T(f(t), ty)) if c else (s, PANIC, None) for s, c in eng.fork(st, bl(t) == 20)]


@model("U256::from_big_endian")
def m_u256_be(eng, st, args, info):
    b = eng.term(st, args[0], BYTES)
    f, g = injective(eng, "be:Uint256", ("int", "Uint256"), BYTES)
    r = T(g(b), ("int", "U256"))
    eng.touch(st, r)
    return r


@model("U256::zero")
def m_u256_zero(eng, st, args, info):
    return T(z3.IntVal(0), ("int", "U256"))


@model("PublicKey::from_sec1_bytes", "VerifyingKey::from_sec1_bytes")
def m_sec1(eng, st, args, info):
    return opt_result(eng, st, "k256:key", args[:1], ("opaque", "k256:PublicKey"), info)


@model("ToEncodedPoint::to_encoded_point", "PublicKey::to_encoded_point")
def m_point(eng, st, args, info):
    return ufv(eng, st, "k256:point", args[:2], ("opaque", "k256:Point"))


@model("EncodedPoint::as_bytes")
def m_point_bytes(eng, st, args, info):
    """an uncompressed point has 65 bytes, any point at least 1"""
    v = ufv(eng, st, "k256:pointbytes", args[:1], BYTES)
    bl = z3.Function("byteslen", eng.ty.sort(BYTES), z3.IntSort())
    t = eng.term(st, args[0])
    st.facts.append(bl(v.t) >= 1)
    if t.num_args() == 2 and t.decl().name() == "k256:point" and z3.is_false(z3.simplify(t.arg(1))):
        st.facts.append(bl(v.t) == 65)
    return v


@model("Signature::from_slice")
def m_sig_slice(eng, st, args, info):
    return opt_result(eng, st, "k256:sig", args[:1], ("opaque", "k256:Signature"), info)


@model("Signature::normalize_s")
def m_norm_s(eng, st, args, info):
    """None when s is low already, the signature with s negated otherwise"""
    t = eng.term(st, args[0])
    ty = vty(eng, st, eng.deref(st, args[0]))
    high = z3.Function("k256:high_s", t.sort(), z3.BoolSort())
    f = z3.Function("k256:neg_s", t.sort(), t.sort())
    return [(s, eng.some(T(f(t), ty)) if c else eng.none(ty)) for s, c in eng.fork(st, high(t))]


@model("Signature::to_vec", "Signature::to_bytes", "SignatureEncoding::to_vec")
def m_sig_vec(eng, st, args, info):
    v = ufv(eng, st, "k256:sigbytes", args[:1], BYTES)
    st.facts.append(z3.Function("byteslen", eng.ty.sort(BYTES), z3.IntSort())(v.t) == 64)
    return v


@model("RecoveryId::trial_recovery_from_prehash")
def m_recover(eng, st, args, info):
    return opt_result(eng, st, "k256:recovery", args[:3], ("opaque", "k256:RecoveryId"), info)


@model("RecoveryId::to_byte")
def m_rec_byte(eng, st, args, info):
    v = ufv(eng, st, "k256:recoverybyte", args[:1], ("int", "u8"))
    st.facts.append(z3.And(v.t >= 0, v.t <= 3))
    return v


@model("cw_utils::parse_reply_execute_data", "parse_reply_execute_data")
def m_parse_reply(eng, st, args, info):
    """the data of an executed submessage's reply, or an error, as a function of the reply"""
    return opt_result(eng, st, "reply_data", args[:1], rty(info), info)


@model("Iterator::scan")
def m_scan(eng, st, args, info):
    """a map whose closure also updates an accumulator; only closures that never stop the iteration early"""
    it = to_it(eng, st, args[0])
    f = args[2]
    cell = ("scan", next(eng.fid))
    st = st.copy()
    st.cells[cell] = args[1]
    depth = info.depth

    def gen(e, s, i):
        out = []
        for s2, k, v in it.gen(e, s, i):
            if k != "item":
                out.append((s2, k, v))
                continue
            for o in e.call_value(s2, f, [Ref(cell, ()), v], depth):
                if o.kind == PANIC:
                    out.append((o.st, "panic", None))
                    continue
                for s3, vn, p in arms(e, o.st, o.v):
                    if vn != "Some":
                        raise Unsupported("scan that stops early")
                    out.append((s3, "item", p))
        return out
    return [(st, derive_it(it, gen, it.noskip))]


@model("IntoEnumIterator::iter")
def m_enum_iter(eng, st, args, info):
    ty = info.selfty()
    vs = eng.ty.variants(ty)
    items = [Agg(ty, vn, ()) for vn, _, _, _ in vs]
    return seq.list_iter(eng, st, ListV(ty, items))


@model("Deserialize::deserialize")
def m_deserialize(eng, st, args, info):
    """any value of a dependency's type, or a refusal"""
    ty = info.selfty()
    et = rty(info, 1) or ("opaque", "deerr")
    b = eng.fresh(st, "deserialized", z3.BoolSort())
    return [(s, Agg(RES(ty, et), "Ok", (eng.fresh_v(s, "read", ty),)) if c else Agg(RES(ty, et), "Err", (eng.fresh_v(s, "err", et),))) for s, c in eng.fork(st, b)]


@model("Error::custom")
def m_de_custom(eng, st, args, info):
    try:
        return retv(eng, st, info, "err")
    except Unsupported:
        return eng.fresh_v(st, "err", ("opaque", "deerr"))


# ----------------------------------------------------------------------------- storage keys (cw-storage-plus)
@model("PrimaryKey::key", "Prefixer::prefix")
def m_key_parts(eng, st, args, info):
    """a text (or address) is the one component of its key, as bytes"""
    v = eng.deref(st, args[0])
    t = vty(eng, st, v)
    if t != STR and tname(t).split(".")[-1] != "Addr":
        raise Unsupported("key of %s" % tname(t))
    f, _ = injective(eng, "utf8", STR, BYTES)
    kt = rty(info, 0)
    return ListV(kt, [Agg(kt, "Ref", (T(f(eng.term(st, v, STR)), BYTES),))])


@model("KeyDeserialize::from_vec")
def m_key_read(eng, st, args, info):
    """a key of two components is the first, with its length before it, and then the second; each is read as its type reads it"""
    t = info.selfty()
    if t == STR:
        return m_from_utf8(eng, st, args, info)
    if t[0] != "tuple" or len(t[1]) != 2:
        raise Unsupported("from_vec of %s" % tname(t))
    b = eng.term(st, args[0], BYTES)
    first, second, join = key_join(eng)
    et = rty(info, 1)

    def read(s, ty, x):
        if ty == STR:
            f, g = injective(eng, "utf8", STR, BYTES)
            ok = z3.Function("utf8ok", eng.ty.sort(BYTES), z3.BoolSort())
            return [Outcome(s2, RET, Agg(RES(ty, et), "Ok", (T(g(x), STR),)) if c else Agg(RES(ty, et), "Err", (fresh_err(eng, s2, et),))) for s2, c in eng.fork(s, ok(x))]
        tgt = eng.find_impl_any("KeyDeserialize", ty, "from_vec", info.fr)
        if tgt is None:
            raise Unsupported("from_vec of %s" % tname(ty))
        return eng.call_fn(s, tgt[0], tgt[1], [T(x, BYTES)], tgt[2], info.depth + 1)

    rt = RES(("tuple", t[1]), et)
    out = []
    for s, c in eng.fork(st, join(first(b), second(b)) == b):
        if not c:
            out.append((s, Agg(rt, "Err", (fresh_err(eng, s, et),))))
            continue

        def k1(s1, o1):
            res = []
            for s2, v1, p1 in arms(eng, s1, o1):
                if v1 == "Err":
                    res.append((s2, Agg(rt, "Err", (p1,))))
                    continue

                def k2(s3, o2, p1=p1):
                    return [(s4, Agg(rt, "Err", (p2,)) if v2 == "Err" else Agg(rt, "Ok", (Agg(("tuple", t[1]), "", (p1, p2)),))) for s4, v2, p2 in arms(eng, s3, o2)]
                res += then(read(s2, t[1][1], second(b)), k2)
            return res
        out += then(read(s, t[1][0], first(b)), k1)
    return out


def key_join(eng):
    bs = eng.ty.sort(BYTES)
    first, second = z3.Function("key:first", bs, bs), z3.Function("key:second", bs, bs)
    join = z3.Function("key:join", bs, bs, bs)
    if "key:join" not in eng.inj:
        eng.inj.add("key:join")
        a, b = z3.Const("ka", bs), z3.Const("kb", bs)
        eng.extra_facts.append(z3.ForAll([a, b], z3.And(first(join(a, b)) == a, second(join(a, b)) == b), patterns=[join(a, b)]))
    return first, second, join


@model("IntKey::from_cw_bytes")
def m_from_cw(eng, st, args, info):
    """for the unsigned integers, the big-endian bytes"""
    t = info.selfty()
    if t[0] != "int" or t[1][0] not in "uU":
        raise Unsupported("from_cw_bytes of %s" % tname(t))
    f, g = injective(eng, be_name(t), t, BYTES)
    r = T(g(eng.term(st, args[0], BYTES)), t)
    eng.touch(st, r)
    return r
