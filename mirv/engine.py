"""Symbolic execution of MIR over z3 terms: the verification-condition generator.

A call of a function under contract is replaced by its contract; any other workspace function is executed from its
own MIR; a dependency is replaced by its assumed contract in lib.py.  Everything else raises Unsupported."""
import itertools
import os
import re

import z3

from mir import (Module, parse_path, parse_place, parse_type, parse_literal, balanced_split, path_to_ty, show, TypeParseError)
from types_ import Types, INT_BOUNDS, UNIT, BOOL, STR, BYTES, OPT, RES, VEC, tname


class Unsupported(Exception):
    pass


# ----------------------------------------------------------------------------- values
class V:
    pass


class T(V):
    """SMT term of canonical type ty"""
    __slots__ = ("t", "ty")

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def __repr__(self):
        return "T(%s)" % (str(self.t)[:80],)


class Agg(V):
    """struct / tuple / enum value of a known variant / closure"""
    __slots__ = ("ty", "variant", "f")

    def __init__(self, ty, variant, f):
        self.ty, self.variant, self.f = ty, variant, tuple(f)

    def __repr__(self):
        return "Agg(%s %s %r)" % (tname(self.ty), self.variant, self.f)


class ListV(V):
    """a Vec/slice/array of known length"""
    __slots__ = ("elem", "items")

    def __init__(self, elem, items):
        self.elem, self.items = elem, tuple(items)

    @property
    def ty(self):
        return VEC(self.elem)

    def __repr__(self):
        return "ListV%r" % (self.items,)


class Ref(V):
    __slots__ = ("cell", "path", "ty")

    def __init__(self, cell, path, ty=None):
        self.cell, self.path, self.ty = cell, tuple(path), ty

    def __repr__(self):
        return "Ref(%r,%r)" % (self.cell, self.path)


class Discr(V):
    __slots__ = ("v",)
    ty = ("int", "isize")

    def __init__(self, v):
        self.v = v


class FnV(V):
    __slots__ = ("path", "crate", "subst", "text")
    ty = ("opaque", "fn")

    def __init__(self, path, crate, subst, text=None):
        self.path, self.crate, self.subst, self.text = path, crate, subst, text


class Handle(V):
    """storage, api, querier handles and other identity-less objects"""
    __slots__ = ("kind",)

    def __init__(self, kind):
        self.kind = kind

    @property
    def ty(self):
        return ("dyn", self.kind)

    def __repr__(self):
        return "Handle(%s)" % self.kind


class CwMap(V):
    __slots__ = ("ns", "kt", "vt", "item", "idx")

    def __init__(self, ns, kt, vt, item=False, idx=None):
        self.ns, self.kt, self.vt, self.item, self.idx = ns, kt, vt, item, idx

    @property
    def ty(self):
        return ("opaque", "cwmap")

    def __repr__(self):
        return "CwMap(%s)" % self.ns


class It(V):
    """iterator: positions 0..n-1, each yielding at most one item.
    gen(eng, st, i) -> [(st', 'item'|'skip'|'panic', V)]"""
    __slots__ = ("n", "gen", "noskip", "elem", "src", "pos", "muts")
    ty = ("opaque", "iter")

    def __init__(self, n, gen, noskip, elem=None, src=None, pos=0, muts=()):
        self.n, self.gen, self.noskip, self.elem, self.src, self.pos, self.muts = n, gen, noskip, elem, src, pos, list(muts)

    def at(self, pos):
        return It(self.n, self.gen, self.noskip, self.elem, self.src, pos, self.muts)


class PyV(V):
    """opaque python payload used by the library models"""
    __slots__ = ("kind", "d", "ty")

    def __init__(self, kind, d, ty=None):
        self.kind, self.d = kind, d
        self.ty = ty or ("opaque", kind)


UNITV = Agg(UNIT, "", ())


# ----------------------------------------------------------------------------- state
class State:
    __slots__ = ("cells", "pc", "facts", "storage", "trace", "binders", "log")

    def __init__(self):
        self.cells = {}
        self.pc = []
        self.facts = []
        self.storage = {}
        self.trace = []
        self.binders = []
        self.log = []

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.storage = dict(self.storage)
        s.trace = list(self.trace)
        s.binders = list(self.binders)
        s.log = list(self.log)
        return s


class Outcome:
    __slots__ = ("st", "kind", "v")

    def __init__(self, st, kind, v):
        self.st, self.kind, self.v = st, kind, v


PANIC = "panic"
RET = "ret"


def has_quant(e, cache={}):
    k = e.get_id()
    if k in cache:
        return cache[k][1]
    if z3.is_quantifier(e):
        r = True
    else:
        r = any(has_quant(c) for c in e.children())
    cache[k] = (e, r)
    return r


class Engine:
    def __init__(self, modules, types, repo):
        self.mods = modules
        self.ty = types
        self.repo = repo
        self.cnt = itertools.count(1)
        self.fid = itertools.count(1)
        self.contracts = {}
        self.contract_used = set()
        self.inlined = set()
        self.models_used = {}
        self.obligations = []
        self.loop_specs = {}
        self.strs = {}
        self.fmts = {}
        self.seqs = {}                    # names of collected sequences
        self.places = {}                  # ... and where the elements that were kept went
        self.sources = {}                 # filtered sequences: where each element came from
        self.ranks = {}                   # sorted sequences: where each element of the original went
        self.max_depth = 60
        self.steps = 0
        self.step_limit = 400000
        self.no_inline = set()
        self.called_unknown = set()
        self.feas_checks = 0
        self.extra_facts = []
        self.inj = set()
        self.enum_display = set()
        self.invariants = []
        self.opaque = {}
        self.closure_subst = {}
        self._impl_cache = {}
        self.index()
        import lib
        self.lib = lib
        lib.install(self)

    # ------------------------------------------------------------------ index of functions
    def index(self):
        self.ent_seen = set()
        self.store_types = {}
        self.by_closure = {}
        self.by_method = {}   # method name -> [(fn, header(trait, selftype text), ...)]
        self.by_path = {}
        for c, m in self.mods.items():
            seen = set()
            for f in m.all_fns:
                # a const fn is printed twice (its compile-time and its run-time MIR)
                if (f.name, str(f.args)) in seen:
                    continue
                seen.add((f.name, str(f.args)))
                a = f.args if isinstance(f.args, str) else ""
                if "{closure#" in f.name:
                    mm = re.match(r"^_1: (?:&mut |&)?\[closure@([^\]]*)\]", a)
                    if mm and f.name.endswith("}"):
                        self.by_closure[(c, mm.group(1))] = f
                    if f.name.endswith("}"):
                        continue
                last = f.name.rsplit("::", 1)[-1]
                self.by_path.setdefault((c, f.name), f)
                if "<impl at " in f.name:
                    h = self.header_of(c, f.name)
                    self.by_method.setdefault(last, []).append((f, h))
                elif self.is_trait_default(c, f.name):
                    self.by_method.setdefault(last, []).append((f, ("default", f.name.split("::")[-2], None, "")))

    def is_trait_default(self, crate, name):
        segs = name.split("::")
        return len(segs) >= 2 and segs[-2][:1].isupper()

    _hdrs = {}

    def header_of(self, crate, name):
        i = name.rindex("<impl at ")
        j = name.index(">", i)
        span = name[i + 9:j]
        key = (crate, span)
        if key in self._hdrs:
            return self._hdrs[key]
        m = re.match(r"^(.*?):(\d+):(\d+): (\d+):(\d+)$", span)
        f, l1, c1, l2, c2 = m.group(1), *map(int, m.groups()[1:])
        path = f if f.startswith("/") else self.repo + "/" + f
        r = ("derive", None, None, "")
        try:
            txt = self.ty.src.impl_header(path, l1, c1, l2, c2)
        except OSError:
            txt = ""
        txt = " ".join(txt.split())
        if txt.startswith("impl"):
            t = txt[4:].strip()
            if t.startswith("<"):
                from src import match_close
                e = match_close(t, 0)
                t = t[e + 1:].strip()
            t = re.split(r"\bwhere\b", t)[0].strip()
            mm = split_for(t)
            if mm:
                r = ("trait", mm[0], mm[1], txt)
            else:
                r = ("inherent", None, t, txt)
        else:
            r = ("derive", txt, None, txt)
        self._hdrs[key] = r
        return r

    # ------------------------------------------------------------------ fresh symbols
    def fresh(self, st, name, sort):
        n = "%s!%d" % (name, next(self.cnt))
        bs = [b[0] for b in st.binders]
        if bs:
            return z3.Function(n, *[b.sort() for b in bs], sort)(*bs)
        return z3.Const(n, sort)

    def fresh_fn(self, st, name, doms, rng):
        """a function symbol, additionally indexed by the enclosing binders; returns python callable"""
        n = "%s!%d" % (name, next(self.cnt))
        bs = [b[0] for b in st.binders]
        fd = z3.Function(n, *[b.sort() for b in bs], *doms, rng)
        return lambda *a: fd(*bs, *a)

    def fresh_v(self, st, name, ty):
        if ty == UNIT:
            return UNITV
        if ty[0] == "tuple" and not ty[1]:
            return UNITV
        t = self.fresh(st, name, self.ty.sort(ty))
        v = T(t, ty)
        self.touch(st, v)
        return v

    def fact(self, st, f):
        st.facts.append(f)

    def touch(self, st, v):
        """basic facts of a term: integer range, non-negative length"""
        if isinstance(v, T):
            if v.ty[0] == "int":
                if z3.is_int_value(v.t):
                    return
                lo, hi = INT_BOUNDS.get(v.ty[1], (None, None))
                if lo is not None:
                    st.facts.append(z3.And(v.t >= lo, v.t <= hi))
            elif v.ty[0] == "adt" and v.ty[1] == "Vec":
                st.facts.append(self.seq_len(v.t) >= 0)
                st.facts.append(self.seq_len(v.t) <= 2**63)

    def str_const(self, s):
        """a text"""
        if s not in self.strs:
            self.strs[s] = z3.Const("str:" + s, self.ty.sort(STR))
        return T(self.strs[s], STR)

    def global_facts(self):
        c = list(self.strs.values())
        r = []
        if len(c) > 1:
            r.append(z3.Distinct(*c))
        return r + self.lib.global_facts(self)

    # ------------------------------------------------------------------ seq terms
    def seq_len(self, t):
        return t.sort().accessor(0, 0)(t)

    def seq_arr(self, t):
        return t.sort().accessor(0, 1)(t)

    def seq_at(self, t, i):
        return z3.Select(self.seq_arr(t), i)

    # ------------------------------------------------------------------ contract storage
    def note_store(self, ns, ty):
        old = self.store_types.get(ns)
        if old is None:
            self.store_types[ns] = ty
        elif old != ty:
            raise Unsupported("storage namespace %s used at two types: %s and %s" % (ns, tname(old), tname(ty)))

    def store_type(self, ns):
        if ns not in self.store_types:
            raise Unsupported("storage namespace %s has no known type" % ns)
        return self.store_types[ns]

    def store_init(self, ns):
        return z3.Const("st0:" + ns, self.ty.sort(self.store_type(ns)))

    def store_get(self, st, ns):
        t = st.storage.get(ns)
        return t if t is not None else self.store_init(ns)

    def store_set(self, st, ns, t):
        st.storage[ns] = t

    def empty_map(self, kt, vt):
        return z3.K(self.ty.sort(kt), self.ty.constructor(OPT(vt), "None")[0]())

    def apply_invariants(self, st, info, reuse=False):
        for f in self.invariants:
            f(self, st, info, reuse)

    # ------------------------------------------------------------------ sources
    def def_of(self, ty):
        if ty is None or ty[0] != "adt":
            return None
        segs = ty[1].split("::")
        d = self.ty.find_def(segs, segs[0])
        return d if d is not None and d.path == ty[1] else None

    def is_strum(self, ty):
        d = self.def_of(ty)
        return d is not None and d.kind == "enum" and bool(re.search(r"\b(EnumString|strum::Display|IntoStaticStr|EnumIter)\b", str(d.attrs)))

    def derived_err(self, fn):
        '''a From implementation generated by thiserror's derive'''
        return self.derived(fn.crate, fn)

    def find_impl_any(self, trait, ty, name, fr, args=()):
        '''an implementation of trait for ty whatever the trait's own arguments'''
        key = ("any", trait, ty, name)
        if key not in self._impl_cache:
            c = []
            for f, h in self.by_method.get(name, []):
                if h[0] != "trait" or re.sub(r"<.*$", "", h[1], flags=re.S).split("::")[-1].strip() != trait:
                    continue
                try:
                    ok, sc = self.header_match(f, h, (), ty)
                except (TypeParseError, KeyError, ValueError):
                    continue
                if ok:
                    c.append((sc, f))
            if len(c) > 1:
                # an impl for a reference to the type is another one
                c = [x for x in c if not self.header_of(x[1].crate, x[1].name)[2].strip().startswith("&")] or c
            c.sort(key=lambda x: -x[0])
            if len(c) > 1 and c[0][0] == c[1][0]:
                raise Unsupported("ambiguous impl of %s for %s" % (trait, tname(ty)))
            self._impl_cache[key] = c[0][1] if c else None
        f = self._impl_cache[key]
        if f is None:
            return None
        return f.crate, f, self.unify_subst(f.crate, f, args, fr)

    def eval_const(self, st, fr, path, idx, ty):
        '''a constant or promoted value, by executing its own MIR body'''
        if idx is not None:
            f = self.mods[fr.crate].promoted.get((path, idx)) or self.mods[fr.crate].promoted.get((fr.fn.name, idx))
            if f is None:
                raise Unsupported("promoted %s[%s]" % (path, idx))
            return self.run_const(st, fr.crate, f, fr)
        p = parse_path(path)
        names = [x[1] for x in p if x[0] == "seg"]
        crate = fr.crate
        if p[0][0] == "q":
            r = self.lib.named_const(self, st, p, path, {}, fr)
            if r is not None:
                return r
            raise Unsupported("associated constant %s" % path)
        if names[0] in self.mods:
            crate, names = names[0], names[1:]
        full = "::".join(names)
        m = self.mods[crate]
        f = m.consts.get(full)
        if f is None:
            c = [g for n, g in m.consts.items() if "<impl" not in n and n.split("::")[-1] == names[-1] and "{" not in n and "deserialize" not in n]
            if len(c) == 1:
                f = c[0]
        if f is None and len(names) > 1:
            # associated constant of a type
            c = []
            for n, g in m.consts.items():
                if "<impl at " in n and n.split("::")[-1] == names[-1]:
                    h = self.header_of(crate, n)
                    if h[2] and re.sub(r"<.*$", "", h[2]).split("::")[-1].strip() == names[-2]:
                        c.append(g)
            if len(c) == 1:
                f = c[0]
        if f is None:
            r = self.lib.named_const(self, st, p, path, {}, fr)
            if r is not None:
                return r
            raise Unsupported("constant %s" % path)
        return self.run_const(st, crate, f, fr)

    def scalar_const(self, st, fr, span):
        """rustc prints a named constant of scalar type as `_`; its name is read at the statement's source span"""
        m = re.match(r"^(.*?):(\d+):(\d+): (\d+):(\d+)$", span or "")
        if not m:
            return None
        f, l1, c1, l2, c2 = m.group(1), *map(int, m.groups()[1:])
        path = f if f.startswith("/") else self.repo + "/" + f
        raw = self.ty.src.files.get(path)
        if raw is None:
            return None
        from src import blank
        lines = blank(raw).split("\n")[l1 - 1:l2]
        lines[-1] = lines[-1][:c2 - 1]
        lines[0] = lines[0][c1 - 1:]
        text = "\n".join(lines)
        c = set(re.findall(r"(?:\b[A-Za-z_]\w*::)*\b[A-Z][A-Z0-9_]+\b(?!\s*[({!])", text))
        c = {x for x in c if not x.split("::")[-1] in ("MAX", "MIN") or True}
        vals = []
        for x in sorted(c):
            v = None
            rel = os.path.relpath(path, os.path.join(self.repo, self.src_root(fr.crate), "src"))[:-3].split(os.sep)
            if rel[-1] in ("lib", "mod", "main"):
                rel = rel[:-1]
            local = "::".join(rel + [x])
            if local in self.mods[fr.crate].consts:
                tries = [local]
            else:
                tries = ["::".join(self.ty.resolve(x.split("::"), fr.crate, path, rel)), x]
            for y in tries:
                try:
                    v = self.eval_const(st, fr, y, None, None)
                    break
                except (Unsupported, KeyError):
                    continue
            if isinstance(v, T) and v.ty[0] in ("int", "bool"):
                vals.append(v)
        if len(vals) == 1:
            return vals[0]
        return None

    def src_root(self, crate):
        import load
        return load.CRATES[crate]

    def run_const(self, st, crate, f, fr):
        mod = self.mods[crate]
        mod.parse(f)
        g = Frame(self, crate, f, fr.subst, fr.depth + 1)
        outs = g.run(st.copy())
        if len(outs) != 1 or outs[0].kind != RET:
            raise Unsupported("constant %s" % f.name)
        o = outs[0]
        v = o.v
        # bring its cells over: the value may refer to them
        for k, x in o.st.cells.items():
            st.cells.setdefault(k, x)
        for x in o.st.facts[len(st.facts):]:
            st.facts.append(x)
        return v

    # ------------------------------------------------------------------ conversions
    def term(self, st, v, ty=None):
        """z3 term of a value"""
        if isinstance(v, T):
            return v.t
        if isinstance(v, Discr):
            raise Unsupported("discriminant as term")
        if isinstance(v, Ref):
            return self.term(st, self.read(st, v.cell, v.path), ty)
        if isinstance(v, ListV):
            s = self.ty.sort(v.ty)
            if v.ty == BYTES:
                return self.lib.bytes_lit(self, st, v)
            es = self.ty.sort(v.elem)
            arr = z3.K(z3.IntSort(), self.dflt(es))
            for i, x in enumerate(v.items):
                arr = z3.Store(arr, i, self.term(st, x, v.elem))
            return s.constructor(0)(z3.IntVal(len(v.items)), arr)
        if isinstance(v, Agg):
            t = ty if ty is not None and ty[0] in ("adt", "tuple") else v.ty
            if t == UNIT:
                s = self.ty.sort(UNIT)
                return s.constructor(0)()
            vs = self.ty.variants(t)
            if vs is None:
                if v.ty[0] == "adt" and self.ty.variants(v.ty) is not None:
                    t = v.ty
                else:
                    raise Unsupported("no layout for %s" % tname(t))
            vn = v.variant
            con, rec, acc, ft, fn = self.ty.constructor(t, vn)
            if len(ft) != len(v.f):
                raise Unsupported("arity of %s::%s" % (tname(t), vn))
            return con(*[self.custom(st, x) if y == ("adt", "T", ()) and t[1].endswith("CosmosMsg") else self.term(st, x, y) for x, y in zip(v.f, ft)])
        if isinstance(v, It):
            raise Unsupported("iterator as a term")
        if isinstance(v, PyV) and "term" in v.d:
            return v.d["term"]
        if isinstance(v, PyV) and v.ty and v.ty[0] != "opaque":
            return self.fresh(st, v.kind, self.ty.sort(v.ty))
        if isinstance(v, (Handle, FnV, CwMap, PyV)):
            if ty is not None:
                return z3.Const("obj:" + repr(v), self.ty.sort(ty))
            raise Unsupported("value %r as a term" % (v,))
        raise Unsupported("term of %r" % (v,))

    def custom(self, st, x):
        """payload of CosmosMsg::Custom"""
        x = self.deref(st, x)
        if x.ty == ("adt", "T", ()):
            return self.term(st, x)
        f, _ = self.lib.injective(self, "custom:" + tname(x.ty), x.ty, ("adt", "T", ()))
        return f(self.term(st, x))

    def dflt(self, sort):
        return z3.Const("dflt:" + str(sort), sort)

    def as_T(self, st, v, ty=None):
        if isinstance(v, T):
            return v
        if isinstance(v, Ref):
            return self.as_T(st, self.read(st, v.cell, v.path), ty)
        t = self.term(st, v, ty)
        return T(t, ty if ty is not None else v.ty)

    def deref(self, st, v):
        while isinstance(v, Ref):
            v = self.read(st, v.cell, v.path)
        return v

    def expand(self, st, v):
        """T of a single-constructor type -> Agg of accessor terms"""
        if isinstance(v, Agg):
            return v
        if isinstance(v, T):
            vs = self.ty.variants(v.ty)
            if vs is not None and len(vs) == 1:
                con, rec, acc, ft, fn = self.ty.constructor(v.ty, vs[0][0])
                fs = []
                for a, t in zip(acc, ft):
                    x = T(a(v.t), t)
                    self.touch(st, x)
                    fs.append(x)
                return Agg(v.ty, vs[0][0], fs)
        raise Unsupported("expand %r" % (v,))

    def payload(self, st, v, variant, i=0):
        if isinstance(v, Agg):
            if v.variant != variant:
                raise Unsupported("payload of other variant %s vs %s" % (v.variant, variant))
            return v.f[i]
        if isinstance(v, T):
            con, rec, acc, ft, fn = self.ty.constructor(v.ty, variant)
            x = T(acc[i](v.t), ft[i])
            self.touch(st, x)
            return x
        raise Unsupported("payload of %r" % (v,))

    def is_variant(self, v, variant):
        """python bool or z3 Bool"""
        if isinstance(v, Agg):
            return v.variant == variant
        if isinstance(v, T):
            con, rec, acc, ft, fn = self.ty.constructor(v.ty, variant)
            t = z3.simplify(rec(v.t))
            if z3.is_true(t):
                return True
            if z3.is_false(t):
                return False
            return rec(v.t)
        raise Unsupported("is_variant %r" % (v,))

    def adt(self, ty, variant, *fields):
        return Agg(ty, variant, fields)

    def some(self, v, ty=None):
        return Agg(OPT(ty or v.ty), "Some", (v,))

    def none(self, ty):
        return Agg(OPT(ty), "None", ())

    def ok(self, v, e=("opaque", "err")):
        return Agg(RES(v.ty, e), "Ok", (v,))

    def err(self, e, okty):
        return Agg(RES(okty, e.ty), "Err", (e,))

    def boolv(self, b):
        if isinstance(b, bool):
            return T(z3.BoolVal(b), BOOL)
        return T(b, BOOL)

    def intv(self, n, ty):
        return T(z3.IntVal(n) if isinstance(n, int) else n, ty)

    # ------------------------------------------------------------------ feasibility and forking
    def feasible(self, st, extra=None):
        self.feas_checks += 1
        s = z3.Solver()
        s.set("timeout", 500)
        fs = [f for f in st.facts if not has_quant(f)] + [f for f in st.pc if not has_quant(f)]
        s.add(*fs)
        for b in st.binders:
            if not has_quant(b[1]):
                s.add(b[1])
        if extra is not None and not has_quant(extra):
            s.add(extra)
        return s.check() != z3.unsat

    def fork(self, st, cond):
        """[(st_true, True)?, (st_false, False)?]"""
        if isinstance(cond, bool):
            return [(st, cond)]
        c = z3.simplify(cond) if not has_quant(cond) else cond
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        a = st.copy()
        a.pc.append(cond)
        if self.feasible(a):
            out.append((a, True))
        b = st.copy()
        b.pc.append(z3.Not(cond))
        if self.feasible(b):
            out.append((b, False))
        return out

    def fork_variant(self, st, v):
        """[(st, variant name)]"""
        v = self.deref(st, v)
        if isinstance(v, Agg):
            return [(st, v.variant)]
        vs = self.ty.variants(v.ty)
        if vs is None:
            raise Unsupported("variants of %s" % tname(v.ty))
        out = []
        if len(vs) == 1:
            return [(st, vs[0][0])]
        for x in vs:
            c = self.is_variant(v, x[0])
            if c is True:
                return [(st, x[0])]
            if c is False:
                continue
            s2 = st.copy()
            s2.pc.append(c)
            if self.feasible(s2):
                out.append((s2, x[0]))
        return out

    # ------------------------------------------------------------------ memory
    def step_read(self, st, v, p):
        k = p[0]
        if k == "f":
            v = self.deref(st, v)
            if isinstance(v, Agg):
                if p[2] is not None and v.variant != p[2]:
                    raise Unsupported("read of inactive variant %s (is %s)" % (p[2], v.variant))
                return v.f[p[1]]
            if isinstance(v, T):
                if v.ty[:2] == ("adt", "FlagSet"):
                    return v
                if p[2] is not None:
                    return self.payload(st, v, p[2], p[1])
                vs = self.ty.variants(v.ty)
                if vs is None or len(vs) != 1:
                    r = self.lib.ext_field(self, st, v, p[1])
                    if r is None:
                        raise Unsupported("field %d of %s" % (p[1], tname(v.ty)))
                    return r
                con, rec, acc, ft, fn = self.ty.constructor(v.ty, vs[0][0])
                x = T(acc[p[1]](v.t), ft[p[1]])
                self.touch(st, x)
                return x
            if isinstance(v, CwMap) and v.idx is not None:
                # IndexedMap { pk_namespace, primary, idx }
                return v.idx
            if isinstance(v, PyV) and ("f", p[1]) in v.d:
                return v.d[("f", p[1])]
            raise Unsupported("field %r of %r" % (p, v))
        if k == "key":
            v = self.deref(st, v)
            o = T(z3.Select(v.t, p[1]), OPT(v.ty[2][1]))
            return self.payload(st, o, "Some", 0)
        if k == "idx":
            v = self.deref(st, v)
            if isinstance(v, ListV):
                if isinstance(p[1], int):
                    return v.items[p[1]]
                if z3.is_int_value(p[1]):
                    return v.items[p[1].as_long()]
                v = self.as_T(st, v)
            if v.ty == BYTES:
                return self.lib.byte_at(self, st, v, p[1])
            x = T(self.seq_at(v.t, p[1]), v.ty[2][0])
            self.touch(st, x)
            return x
        raise Unsupported("path step %r" % (p,))

    def read(self, st, cell, path):
        if cell not in st.cells:
            raise Unsupported("read of uninitialised %r" % (cell,))
        v = st.cells[cell]
        for p in path:
            v = self.step_read(st, v, p)
        return v

    def write(self, st, cell, path, nv):
        if not path:
            st.cells[cell] = nv
            return
        st.cells[cell] = self._upd(st, st.cells.get(cell), path, nv)

    def _upd(self, st, v, path, nv):
        if not path:
            return nv
        p = path[0]
        if v is None:
            raise Unsupported("write into uninitialised")
        if isinstance(v, Ref):
            raise Unsupported("write through nested reference")
        k = p[0]
        if k == "f":
            if isinstance(v, T) and v.ty[:2] == ("adt", "FlagSet"):
                return self._upd(st, v, path[1:], nv)
            if isinstance(v, T):
                if p[2] is not None:
                    con, rec, acc, ft, fn = self.ty.constructor(v.ty, p[2])
                    fs = [T(a(v.t), t) for a, t in zip(acc, ft)]
                    for x in fs:
                        self.touch(st, x)
                    v = Agg(v.ty, p[2], fs)
                else:
                    v = self.expand(st, v)
            if not isinstance(v, Agg):
                raise Unsupported("write field of %r" % (v,))
            f = list(v.f)
            f[p[1]] = self._upd(st, f[p[1]], path[1:], nv)
            return Agg(v.ty, v.variant, f)
        if k == "key":
            old = self.step_read(st, v, p)
            x = self._upd(st, old, path[1:], nv)
            vt = v.ty[2][1]
            con, _, _, _, _ = self.ty.constructor(OPT(vt), "Some")
            return T(z3.Store(v.t, p[1], con(self.term(st, x, vt))), v.ty)
        if k == "idx":
            if isinstance(v, ListV):
                i = p[1] if isinstance(p[1], int) else (p[1].as_long() if z3.is_int_value(p[1]) else None)
                if i is not None:
                    items = list(v.items)
                    items[i] = self._upd(st, items[i], path[1:], nv)
                    return ListV(v.elem, items)
                v = self.as_T(st, v)
            old = self.step_read(st, v, p)
            x = self._upd(st, old, path[1:], nv)
            s = v.t.sort()
            return T(s.constructor(0)(self.seq_len(v.t), z3.Store(self.seq_arr(v.t), p[1], self.term(st, x, v.ty[2][0]))), v.ty)
        raise Unsupported("update %r" % (p,))

    # place -> (cell, path) or value
    def loc(self, st, fid, place):
        local, projs = place
        cell, path = (fid, local), []
        variant = None
        for p in projs:
            if p[0] == "deref":
                v = self.read(st, cell, tuple(path))
                while isinstance(v, Ref):
                    cell, path = v.cell, list(v.path)
                    v2 = st.cells.get(cell)
                    if v2 is None:
                        break
                    try:
                        v = self.read(st, cell, tuple(path))
                    except Unsupported:
                        break
                    break
                continue
            if p[0] == "down":
                variant = p[1]
                continue
            # a projection applied on a place that holds a reference (auto-deref'ed shared ref snapshot)
            if p[0] == "field":
                try:
                    v = self.read(st, cell, tuple(path))
                except Unsupported:
                    v = None
                if isinstance(v, Ref):
                    cell, path = v.cell, list(v.path)
                path.append(("f", p[1], variant))
                variant = None
                continue
            if p[0] == "index":
                iv = st.cells[(fid, p[1])]
                path.append(("idx", iv.t))
                continue
            if p[0] == "cidx":
                if p[2]:
                    v = self.deref(st, self.read(st, cell, tuple(path)))
                    n = len(v.items) if isinstance(v, ListV) else self.seq_len(v.t)
                    path.append(("idx", n - p[1]))
                else:
                    path.append(("idx", p[1]))
                continue
            raise Unsupported("projection %r" % (p,))
        return cell, tuple(path)

    def read_place(self, st, fid, place):
        c, p = self.loc(st, fid, place)
        return self.read(st, c, p)

    # ------------------------------------------------------------------ types at run time
    def canon(self, t, fr):
        return self.ty.canon(t, fr.crate, fr.subst)

    # ------------------------------------------------------------------ functions
    def call_fn(self, st, crate, fn, args, subst, depth):
        """execute fn's MIR on args; yields [Outcome]"""
        if depth > self.max_depth:
            raise Unsupported("inlining depth")
        mod = self.mods[crate]
        mod.parse(fn)
        fr = Frame(self, crate, fn, subst, depth)
        if self.ty.canon(fn.ret, crate, subst) == self.CERR:
            self.models_used["conversion into axelar_wasm_std::ContractError"] = 1
            return [Outcome(st, RET, self.fresh_v(st, "err", self.CERR))]
        st = st.copy()
        if len(fn.args) != len(args):
            # closures called with a tuple of arguments
            raise Unsupported("arity of %s: %d vs %d" % (fn.name, len(fn.args), len(args)))
        for (n, t), a in zip(fn.args, args):
            st.cells[(fr.fid, n)] = a
        if self.opaque:
            h = self.opaque.get(self.contract_key(crate, fn))
            if h is not None and depth > 0:
                return [Outcome(st, RET, h(self, st, args, self.ty.canon(fn.ret, crate, subst)))]
        self.inlined.add((crate, fn.name))
        return fr.run(st)

    def call_value(self, st, fv, args, depth):
        """call a closure / fn item value with a list of args"""
        fv0 = fv
        fvd = self.deref(st, fv)
        if isinstance(fvd, FnV):
            return self.call_path(st, fvd.path, args, Frame.stub(self, fvd.crate, fvd.subst, depth), None, fvd.text)
        if isinstance(fvd, Agg) and fvd.ty[0] == "closure":
            fn = self.by_closure.get((fvd.ty[1], fvd.ty[2]))
            if fn is None:
                raise Unsupported("closure body %r" % (fvd.ty,))
            mod = self.mods[fvd.ty[1]]
            mod.parse(fn)
            a0 = fn.args[0][1]
            st = st.copy()
            if a0[0] == "ref" and a0[1]:
                if isinstance(fv0, Ref):
                    self_arg = fv0
                else:
                    cell = ("tmp", next(self.fid))
                    st.cells[cell] = fvd
                    self_arg = Ref(cell, ())
            else:
                self_arg = fvd
            subst = getattr(fvd, "subst", None)
            sub = self.closure_subst.get((fvd.ty[1], fvd.ty[2]), {})
            return self.call_fn(st, fvd.ty[1], fn, [self_arg] + list(args), sub, depth + 1)
        if isinstance(fvd, PyV) and fvd.kind == "pyfn":
            return fvd.d["f"](self, st, args)
        raise Unsupported("call of %r" % (fvd,))

    # -- resolution of a call path
    def norm_key(self, path):
        """library key of a path"""
        last = path[-1]
        name = last[1] if last[0] == "seg" else str(last)
        if path[0][0] == "q" and len(path) >= 2:
            q = path[0]
            if q[2] is not None:
                tr = q[2][-1][1]
                return tr + "::" + name
            st = q[1]
            if st[0] == "slice":
                return "slice::" + name
            if st[0] == "prim":
                return st[1] + "::" + name
            if st[0] == "adt":
                return st[1].split("::")[-1] + "::" + name
            return "?::" + name
        if len(path) >= 2:
            p = path[-2]
            if p[0] == "implty":
                t = p[1]
                # core::slice::<impl [T]>::iter
                if t[0] == "impl":
                    pass
                k = t[0]
                if k == "slice":
                    return "slice::" + name
                if k == "prim":
                    return t[1] + "::" + name
                return "impl::" + name
            if p[0] == "implfor":
                return path_to_ty(p[2][1])[1].split("::")[-1] + "::" + name if p[2][0] in ("impl", "dyn") else "impl::" + name
            if p[0] == "seg":
                return p[1] + "::" + name
        return name

    def call_path(self, st, path, args, fr, ret_ty, text=None):
        """returns [Outcome]"""
        self.steps += 1
        if self.steps > self.step_limit:
            raise Unsupported("step limit")
        key = self.norm_key(path)
        info = CallInfo(self, path, key, fr, ret_ty, text)
        if ret_ty is not None and self.is_event(ret_ty):
            self.models_used["event/attribute construction"] = self.models_used.get("event/attribute construction", 0) + 1
            return [Outcome(st, RET, PyV("event", {}, ret_ty))]
        if ret_ty == self.CERR:
            self.models_used["conversion into axelar_wasm_std::ContractError"] = 1
            return [Outcome(st, RET, self.fresh_v(st, "err", ret_ty))]
        # a constructor used as a function
        if path[-1][0] == "seg" and path[-1][1][:1].isupper():
            try:
                return [Outcome(st, RET, fr.mk(st, text or self.path_text(path), None, args, path))]
            except (Unsupported, KeyError):
                pass
        # 1. a workspace function?
        tgt = self.resolve(st, path, args, fr)
        if tgt is not None:
            crate, fn, subst = tgt
            self.mods[crate].parse(fn)
            if self.ty.canon(fn.ret, crate, subst) == self.CERR:
                self.models_used["conversion into axelar_wasm_std::ContractError"] = 1
                return [Outcome(st, RET, self.fresh_v(st, "err", self.CERR))]
            ck = self.contract_key(crate, fn)
            if ck in self.contracts and not (fr.depth == 0 and False):
                c = self.contracts[ck]
                if c.use_at_calls and ck != self.current:
                    self.contract_used.add(ck)
                    return c.apply(self, st, args, info)
            m = self.models.get("ws:" + ck)
            if m is not None:
                self.models_used[ck] = self.models_used.get(ck, 0) + 1
                return self.wrap(st, m(self, st, args, info))
            if (self.derived(crate, fn)) and key in self.models:
                pass
            else:
                if ret_ty is not None:
                    # type parameters that occur in the result type only
                    rs = {}
                    self.unify(fn.ret, ret_ty, crate, rs)
                    rs = {k: v for k, v in rs.items() if k not in subst and re.fullmatch(r"\w+", k) and v[0] != "opaque"}
                    if rs:
                        subst = {**subst, **rs}
                return self.call_fn(st, crate, fn, args, subst, fr.depth + 1)
        # 2. library model
        m = None
        for k in self.lib_keys(path, key):
            if k in self.models:
                m = self.models[k]
                key = k
                break
        if m is None:
            self.called_unknown.add(self.path_text(path))
            raise Unsupported("no model for %s (key %s)" % (self.path_text(path), key))
        self.models_used[key] = self.models_used.get(key, 0) + 1
        r = m(self, st, args, info)
        return self.wrap(st, r)

    current = None

    EVENT = ("adt", "cosmwasm_std::results::events::Event", ())
    ATTR = ("adt", "cosmwasm_std::results::events::Attribute", ())

    CERR = ("adt", "axelar_wasm_std::error::ContractError", ())

    def is_event(self, t):
        return t in (self.EVENT, self.ATTR, VEC(self.EVENT), VEC(self.ATTR))

    def lib_keys(self, path, key):
        yield key
        if path[0][0] == "q" and path[0][2] is not None:
            tr = path[0][2][-1][1]
            yield tr + "::*"

    def path_text(self, path):
        out = []
        for s in path:
            if s[0] == "seg":
                out.append(s[1])
            elif s[0] == "q":
                out.append("<%s as %s>" % (show(s[1]), show(path_to_ty(s[2])) if s[2] else ""))
            else:
                out.append(str(s))
        return "::".join(out)

    def wrap(self, st, r):
        if isinstance(r, V):
            return [Outcome(st, RET, r)]
        if isinstance(r, Outcome):
            return [r]
        out = []
        for x in r:
            if isinstance(x, Outcome):
                out.append(x)
            elif len(x) == 2:
                out.append(Outcome(x[0], RET, x[1]))
            else:
                out.append(Outcome(*x))
        return out

    def derived(self, crate, fn):
        if "<impl at " not in fn.name:
            return False
        return self.header_of(crate, fn.name)[0] == "derive"

    def contract_key(self, crate, fn):
        """stable name of a function: crate::module::Type::method (impl spans replaced by the self type)"""
        name = fn.name
        if "<impl at " in name:
            h = self.header_of(crate, name)
            if h[0] == "trait":
                rep = "<%s as %s>" % (re.sub(r"\s+", "", h[2]), re.sub(r"\s+", "", h[1]))
            elif h[0] == "inherent":
                rep = re.sub(r"<.*$", "", h[2]).split("::")[-1].strip()
            else:
                rep = "<derive>"
            name = re.sub(r"<impl at [^>]*>", lambda m: rep, name)
        return crate + "::" + name

    def resolve(self, st, path, args, fr):
        """workspace function for a call path: (crate, fn, subst) or None"""
        # qualified trait call / inherent via <T>
        if path[0][0] == "q" and len(path) == 2:
            q = path[0]
            name = path[1][1]
            if q[1][0] == "adt" and q[1][1] == "flagset::FlagSet":
                return None     # the external crate's type (inside axelar_wasm_std only its newtype's impls name it)
            selfty = self.ty.canon(q[1], fr.crate, fr.subst) if True else None
            if q[2] is None:
                return self.find_inherent(selfty, name, args, fr, path)
            trait = path_to_ty(q[2])
            return self.find_trait(st, selfty, trait, name, args, fr, path)
        if path[0][0] != "seg":
            return None
        segs = [s for s in path]
        if segs[-2:-1] and segs[-2][0] == "implty":
            # module::<impl Type<..>>::method: an inherent impl
            return self.find_inherent(self.ty.canon(segs[-2][1], fr.crate, fr.subst), segs[-1][1], args, fr, path)
        if any(s[0] != "seg" for s in segs):
            return None
        names = [s[1] for s in segs]
        # free function
        full = None
        crate = fr.crate
        if names[0] in self.mods:
            crate, rest = names[0], names[1:]
        else:
            rest = names
        if names[0] in ("std", "core", "alloc", "cosmwasm_std", "cw_storage_plus", "error_stack"):
            return None
        f = self.by_path.get((crate, "::".join(rest)))
        if f is None and crate != fr.crate or (f is None and names[0] in self.mods):
            # visible path differs from definition path: last segment unique?
            c = [g for (cc, n), g in self.by_path.items() if cc == crate and "<impl" not in n and n.split("::")[-1] == rest[-1] and "{" not in n]
            if len(rest) >= 1 and len(c) == 1 and not (len(rest) >= 2 and rest[-2][:1].isupper()):
                f = c[0]
        if f is not None:
            return crate, f, self.unify_subst(crate, f, args, fr, segs[-1][2])
        if len(rest) >= 2 and rest[-2][:1].isupper():
            tp = self.ty.canon_path(([crate] if names[0] not in self.mods else []) + names[:-1],
                                    tuple(self.ty.canon(g, fr.crate, fr.subst) for g in segs[-2][2] if g[0] not in ("assoc",)), fr.crate)
            return self.find_inherent(tp, rest[-1], args, fr, path)
        return None

    def unify_subst(self, crate, fn, args, fr, generics=()):
        self.mods[crate].parse(fn)
        sub = {}
        for (n, t), a in zip(fn.args, args):
            self.unify(t, getattr(a, "ty", None), crate, sub)
        return sub

    def unify(self, pat, ty, crate, sub):
        """bind type parameters of a MIR type pattern against a canonical type"""
        if ty is None:
            return
        k = pat[0]
        if k in ("ref", "ptr"):
            return self.unify(pat[2] if k == "ref" else pat[1], ty, crate, sub)
        if k == "impl":
            sub.setdefault(show(pat), ty)
            return
        if k == "adt":
            if "::" not in pat[1] and not pat[2] and len(pat[1]) <= 3 or (k == "adt" and "::" not in pat[1] and not pat[2] and (crate, pat[1]) not in self.ty.src.defs and pat[1] != "String"):
                sub.setdefault(pat[1], ty)
                return
            if ty == BYTES and pat[1].split("::")[-1] == "Vec" and pat[2]:
                return self.unify(pat[2][0], ("int", "u8"), crate, sub)
            if ty[0] == "adt":
                last = pat[1].split("::")[-1]
                if last in ("Box", "Arc", "Rc"):
                    return self.unify(pat[2][0], ty, crate, sub)
                for p, a in zip(pat[2], ty[2]):
                    if p[0] != "const":
                        self.unify(p, a, crate, sub)
        if k in ("slice", "array") and ty[0] == "adt" and ty[1] == "Vec":
            self.unify(pat[1], ty[2][0], crate, sub)
        if k == "tuple" and ty[0] == "tuple":
            for p, a in zip(pat[1], ty[1]):
                self.unify(p, a, crate, sub)

    def find_inherent(self, selfty, name, args, fr, path):
        if selfty[0] != "adt":
            return None
        root = selfty[1].split("::")[0]
        if root not in self.mods:
            return None
        tn = selfty[1].split("::")[-1]
        c = []
        for f, h in self.by_method.get(name, []):
            if f.crate != root or h[0] != "inherent":
                continue
            if re.sub(r"<.*$", "", h[2]).split("::")[-1].strip() == tn:
                c.append(f)
        if len(c) > 1:
            c2 = [f for f in c if self.same_module(f, selfty)]
            c = c2 or c
        if len(c) > 1:
            c2 = []
            for f in c:
                try:
                    if self.header_match(f, ("inherent", "X", self.header_of(f.crate, f.name)[2], self.header_of(f.crate, f.name)[3]), (), selfty)[0]:
                        c2.append(f)
                except (TypeParseError, KeyError, ValueError):
                    pass
            c = c2 or c
        if len(c) == 1:
            sub = self.impl_subst(c[0], selfty)
            for k, v in self.unify_subst(root, c[0], args, fr).items():
                sub.setdefault(k, v)
            return root, c[0], sub
        if len(c) > 1:
            raise Unsupported("ambiguous method %s::%s" % (tname(selfty), name))
        return None

    def impl_subst(self, f, selfty):
        """type parameters of an impl block from the self type it is used at"""
        h = self.header_of(f.crate, f.name)
        sub = {}
        gens = impl_generics(h[3])
        if not gens or selfty[0] != "adt":
            return sub
        try:
            t = parse_type(h[2])
        except TypeParseError:
            return sub
        if t[0] == "adt":
            targs = [a for a in t[2]]
            for p, a in zip(targs, selfty[2]):
                if p[0] == "adt" and p[1] in gens:
                    sub[p[1]] = a
        return sub

    def same_module(self, f, selfty):
        mod = "::".join(selfty[1].split("::")[1:-1])
        return f.name.split("::<impl")[0] == mod

    def find_trait(self, st, selfty, trait, name, args, fr, path):
        tl = trait[1].split("::")[-1]
        targs = tuple(self.ty.canon(a, fr.crate, fr.subst) for a in trait[2])
        raw = tuple(raw_sig(a) for a in trait[2])
        if tl == "Into" and name == "into":
            # T: Into<U>  <=  U: From<T>
            return self.find_impl("From", (selfty,), targs[0], "from", args, fr, (raw_sig(path[0][1]),))
        if tl == "TryInto" and name == "try_into":
            return self.find_impl("TryFrom", (selfty,), targs[0], "try_from", args, fr, (raw_sig(path[0][1]),))
        if tl == "ToString" and name == "to_string":
            r = self.models.get("display:" + tname(selfty))
            return None
        return self.find_impl(tl, targs, selfty, name, args, fr, raw)

    def find_impl(self, trait, targs, selfty, name, args, fr, raw=()):
        key = ("impl", trait, targs, selfty, name, raw)
        if key in self._impl_cache:
            c = self._impl_cache[key]
        else:
            c = self._find_impl(trait, targs, selfty, name, raw)
            self._impl_cache[key] = c
        if c is None:
            return None
        sub = self.impl_subst(c, selfty) if "<impl at " in c.name else {"Self": selfty}
        for k, v in self.unify_subst(c.crate, c, args, fr).items():
            sub.setdefault(k, v)
        return c.crate, c, sub

    def _find_impl(self, trait, targs, selfty, name, raw=()):
        cands = []
        for f, h in self.by_method.get(name, []):
            if h[0] != "trait":
                continue
            tt = h[1]
            tlast = re.sub(r"<.*$", "", tt, flags=re.S).split("::")[-1].strip()
            if tlast != trait:
                continue
            # compare self type and trait args, resolved from the header text in its file
            try:
                ok, score = self.header_match(f, h, targs, selfty)
            except (TypeParseError, KeyError, ValueError):
                ok, score = False, 0
            if ok:
                cands.append((score, f))
        if not cands:
            # trait default methods
            for f, h in self.by_method.get(name, []):
                if h[0] == "default" and h[1] == trait:
                    return f
            return None
        cands.sort(key=lambda x: -x[0])
        if len(cands) > 1:
            # implementations that canonical types do not tell apart (T and &T, Vec<u8> and HexBinary)
            same = [c for c in cands if tuple(raw_sig(a) for a in parse_type(self.header_of(c[1].crate, c[1].name)[1])[2]) == raw]
            if len(same) == 1:
                return same[0][1]
        if len(cands) > 1 and cands[0][0] == cands[1][0]:
            raise Unsupported("ambiguous impl %s for %s::%s" % (trait, tname(selfty), name))
        return cands[0][1]

    def header_match(self, f, h, targs, selfty):
        span = f.name[f.name.rindex("<impl at ") + 9:]
        file = re.match(r"^(.*?):\d+:\d+: ", span).group(1)
        path = file if file.startswith("/") else self.repo + "/" + file
        module = f.name.split("::<impl at")[0]
        module = module.split("::") if not module.startswith("<impl at") else []
        gens = impl_generics(h[3])
        sub = {g: ("adt", "?" + g, ()) for g in gens}
        st_ = self.ty.src_type(h[2], f.crate, path, module, sub)
        m1, sc1 = tmatch(st_, selfty)
        if not m1:
            return False, 0
        tt = parse_type(h[1])
        score = sc1
        ta = [a for a in tt[2]] if tt[0] == "adt" else []
        # default trait arguments: PartialEq without args means Self
        if len(ta) < len(targs) and not ta:
            m, sc = tmatch(selfty, targs[0])
            return m, score + sc
        if len(targs) < len(ta) and parse_type(h[1])[1].split("::")[-1] in SELF_DEFAULT:
            targs = tuple(targs) + (selfty,)
        for a, b in zip(ta, targs):
            ca = self.ty._src(a, f.crate, path, module, sub)
            m, sc = tmatch(ca, b)
            if not m:
                return False, 0
            score += sc
        return True, score


SELF_DEFAULT = {"PartialEq", "PartialOrd"} | {o + x for o in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor") for x in ("", "Assign")}


def raw_sig(t):
    if t[0] == "ref":
        return "&" + raw_sig(t[2])
    if t[0] == "adt":
        return t[1].split("::")[-1]
    return t[1] if t[0] == "prim" else t[0]


def tmatch(p, t):
    """match canonical pattern with ?vars; -> (bool, specificity)"""
    if p[0] == "adt" and p[1].startswith("?"):
        return True, 0
    if t == BYTES and p[0] == "adt" and p[1] == "Vec":
        m, s = tmatch(p[2][0], ("int", "u8"))
        return m, s + 1
    if p[0] != t[0]:
        return False, 0
    if p[0] == "adt":
        if p[1] != t[1]:
            return False, 0
        sc = 1
        for a, b in zip(p[2], t[2]):
            m, s = tmatch(a, b)
            if not m:
                return False, 0
            sc += s
        return True, sc
    if p[0] == "tuple":
        if len(p[1]) != len(t[1]):
            return False, 0
        sc = 1
        for a, b in zip(p[1], t[1]):
            m, s = tmatch(a, b)
            if not m:
                return False, 0
            sc += s
        return True, sc
    if p[0] == "dyn":
        return p[1] == t[1], 1
    return p == t, 1


def impl_generics(header):
    t = header[4:].strip()
    if not t.startswith("<"):
        return []
    from src import match_close, split_top
    e = match_close(t, 0)
    out = []
    for g in split_top(t[1:e]):
        g = g.strip()
        if g.startswith("'") or not g:
            continue
        out.append(re.match(r"(?:const\s+)?(\w+)", g).group(1))
    return out


def split_for(t):
    d = 0
    i = 0
    while i < len(t):
        c = t[i]
        if c in "<([":
            d += 1
        elif c in ">)]" and t[i - 1] != "-":
            d -= 1
        elif d == 0 and t.startswith(" for ", i):
            return t[:i].strip(), t[i + 5:].strip()
        i += 1
    return None


class CallInfo:
    __slots__ = ("eng", "path", "key", "fr", "ret", "text")

    def __init__(self, eng, path, key, fr, ret, text=None):
        self.eng, self.path, self.key, self.fr, self.ret, self.text = eng, path, key, fr, ret, text

    @property
    def depth(self):
        return self.fr.depth

    def canon(self, t):
        return self.eng.ty.canon(t, self.fr.crate, self.fr.subst)

    def generics(self, k=-1):
        s = self.path[k]
        if s[0] == "seg":
            return [self.canon(g) for g in s[2] if g[0] != "assoc"]
        return []

    def selfty(self):
        return self.canon(self.path[0][1])

    def trait_args(self):
        return [self.canon(g) for g in path_to_ty(self.path[0][2])[2]]


# ----------------------------------------------------------------------------- frames
class Frame:
    def __init__(self, eng, crate, fn, subst, depth):
        self.eng, self.crate, self.fn, self.subst, self.depth = eng, crate, fn, dict(subst or {}), depth
        self.fid = next(eng.fid)

    @staticmethod
    def stub(eng, crate, subst, depth):
        f = Frame.__new__(Frame)
        f.eng, f.crate, f.fn, f.subst, f.depth, f.fid = eng, crate, None, dict(subst or {}), depth, next(eng.fid)
        return f

    def run(self, st):
        return [o for o in self.run_from(st, 0, None)]

    def run_from(self, st, bb0, stop, visits0=None):
        """execute from block bb0.  Reaching block `stop` ends a path with Outcome kind "stop"."""
        outs = []
        work = [(st, bb0, visits0 or {})]
        first = True
        while work:
            st, bb, visits = work.pop()
            if bb == stop and not first:
                outs.append(Outcome(st, "stop", None))
                continue
            first = False
            self.eng.steps += 1
            if self.eng.steps > self.eng.step_limit:
                raise Unsupported("step limit")
            visits = dict(visits)
            visits[bb] = visits.get(bb, 0) + 1
            if visits[bb] > 64:
                raise Unsupported("loop without invariant in %s" % self.fn.name)
            blk = self.fn.blocks[bb]
            stmts = blk["stmts"]
            for s in stmts[:-1]:
                self.stmt(st, s)
            for nst, nxt in self.term(st, stmts[-1], bb, visits):
                if nxt == "return":
                    v = nst.cells.get((self.fid, 0), UNITV)
                    outs.append(Outcome(nst, RET, v))
                elif nxt == "panic":
                    outs.append(Outcome(nst, PANIC, None))
                elif isinstance(nxt, tuple):
                    # ("out", kind, value): an outcome found while summarising a loop
                    outs.append(Outcome(nst, nxt[1], nxt[2]))
                else:
                    work.append((nst, nxt, visits))
        return outs

    # -- statements
    def stmt(self, st, s):
        t = s["text"]
        if t in ("nop",) or t.startswith(("FakeRead", "AscribeUserType", "Retag", "PlaceMention", "Coverage", "Deinit", "ConstEvalCounter")):
            return
        if t.startswith("assume("):
            return
        m = re.match(r"^discriminant\((.*)\) = (\d+)$", t)
        if m:
            raise Unsupported("SetDiscriminant")
        i = find_assign(t)
        place = parse_place(t[:i])
        v = self.rvalue(st, t[i + 3:], s)
        c, p = self.eng.loc(st, self.fid, place)
        self.eng.write(st, c, p, v)

    def local_ty(self, n):
        return self.eng.ty.canon(self.fn.locals[n], self.crate, self.subst)

    def place_ty_text(self, place):
        local, projs = place
        t = self.fn.locals[local]
        for p in projs:
            if p[0] == "field":
                t = p[2]
            elif p[0] == "deref":
                t = t[2] if t[0] == "ref" else t
        return t

    def operand(self, st, o, s):
        o = o.strip()
        if o.startswith("move "):
            return self.eng.read_place(st, self.fid, parse_place(o[5:]))
        if o.startswith("const "):
            return self.const(st, o[6:], s)
        if o.startswith("copy "):
            return self.eng.read_place(st, self.fid, parse_place(o[5:]))
        if o.startswith("_") or o.startswith("("):
            try:
                return self.eng.read_place(st, self.fid, parse_place(o))
            except (ValueError, AssertionError):
                pass
        # a function item
        try:
            return FnV(parse_path(o), self.crate, self.subst, o)
        except TypeParseError as e:
            raise Unsupported("operand %r" % o)

    def const(self, st, c, s):
        e = self.eng
        if c == "()":
            return UNITV
        if c in ("true", "false"):
            return T(z3.BoolVal(c == "true"), BOOL)
        m = re.match(r"^(-?\d+)_([a-z]+\d*)$", c)
        if m:
            return T(z3.IntVal(int(m.group(1))), ("int", m.group(2)))
        if c.startswith('"'):
            return e.str_const(unescape(c[1:-1]))
        if c.startswith('b"'):
            return PyV("bytelit", {"text": c}, BYTES)
        m = re.match(r"^'(.*)'$", c)
        if m:
            ch = unescape(m.group(1))
            return T(z3.IntVal(ord(ch)), ("int", "char"))
        if c == "_" or c.startswith("_"):
            lits = s.get("lits", [])
            k = s.setdefault("litpos", 0)
            un = [l for l in lits if "Unevaluated(" in l]
            if not un:
                r = e.scalar_const(st, self, s.get("span"))
                if r is not None:
                    return r
                raise Unsupported("const _ without literal: %s in %s" % (s, self.fn.name))
            l = un[0] if len(un) == 1 else un[min(k, len(un) - 1)]
            if len(un) > 1:
                raise Unsupported("several unevaluated constants in one statement")
            d = parse_literal(l)
            m = re.match(r"^Unevaluated\((.*), \[(.*)\], (None|Some\(promoted\[(\d+)\]\))\)$", d["val"], re.S)
            path, _, pro, idx = m.group(1), m.group(2), m.group(3), m.group(4)
            return e.eval_const(st, self, path, None if pro == "None" else int(idx), d["ty"])
        m = re.match(r"^(.*)::(MAX|MIN|BITS)$", c)
        try:
            p = parse_path(c)
        except TypeParseError:
            raise Unsupported("constant %r" % c)
        r = e.lib.named_const(e, st, p, c, s, self)
        if r is not None:
            return r
        return FnV(p, self.crate, self.subst, c)

    def rvalue(self, st, r, s):
        e = self.eng
        r = r.strip()
        if r.startswith("&"):
            m = re.match(r"^&(raw (?:const|mut) |mut |\(fake\) |fake |)(.*)$", r)
            kind, pl = m.group(1), m.group(2)
            place = parse_place(pl)
            c, p = e.loc(st, self.fid, place)
            if kind.strip() == "mut" or kind.startswith("raw mut"):
                v = e.read(st, c, p)
                if isinstance(v, (Handle,)):
                    return v
                return Ref(c, p, getattr(v, "ty", None))
            v = e.read(st, c, p)
            return v
        if r.startswith(("SizeOf(", "AlignOf(")):
            return T(z3.IntVal(8), ("int", "usize"))
        if r.startswith("ShallowInitBox("):
            return Ref(("box", next(e.fid)), ())
        m = re.match(r"^\(\(\((_\d+)\.0: std::ptr::Unique<.*\)\.0: std::ptr::NonNull<.*\)\.0: \*const .*\)$", r)
        if m:
            return e.read_place(st, self.fid, parse_place(m.group(1)))
        if r.startswith("deref_copy "):
            return e.read_place(st, self.fid, parse_place(r[len("deref_copy "):]))
        m = re.match(r"^(CheckedAdd|CheckedSub|CheckedMul|Add|Sub|Mul|Div|Rem|BitXor|BitAnd|BitOr|Shl|Shr|Eq|Lt|Le|Ne|Ge|Gt|Offset|AddUnchecked|SubUnchecked)\((.*)\)$", r)
        if m:
            a, b = balanced_split(m.group(2))
            return self.binop(st, m.group(1), self.operand(st, a, s), self.operand(st, b, s))
        m = re.match(r"^(Not|Neg)\((.*)\)$", r)
        if m:
            v = e.deref(st, self.operand(st, m.group(2), s))
            if m.group(1) == "Not":
                if v.ty == BOOL:
                    return T(z3.Not(v.t), BOOL)
                raise Unsupported("bitwise not")
            return T(-v.t, v.ty)
        m = re.match(r"^Len\((.*)\)$", r)
        if m:
            return e.lib.length(e, st, e.read_place(st, self.fid, parse_place(m.group(1))))
        m = re.match(r"^discriminant\((.*)\)$", r)
        if m:
            try:
                v = e.deref(st, e.read_place(st, self.fid, parse_place(m.group(1))))
            except Unsupported:
                return PyV("undef", {})
            return Discr(v)
        # casts
        m = re.match(r"^(.*) as (.*) \((IntToInt|Pointer\(.*\)|PointerCoercion\(.*\)|PtrToPtr|FnPtrToPtr|Transmute)\)$", r)
        if m:
            v = self.operand(st, m.group(1), s)
            if m.group(3) == "IntToInt":
                return self.cast_int(st, v, m.group(2))
            return v
        if r.startswith("move ") or r.startswith("const ") or r.startswith("copy "):
            return self.operand(st, r, s)
        if re.match(r"^[_(]", r) and not r.startswith("()"):
            try:
                place = parse_place(r)
                return e.read_place(st, self.fid, place)
            except (ValueError, AssertionError):
                pass
        if r.startswith("[closure@"):
            j = r.index("]")
            span = r[len("[closure@"):j]
            rest = r[j + 1:].strip()
            fs = []
            if rest.startswith("{"):
                for x in balanced_split(rest[1:-1]):
                    fs.append(self.operand(st, x.split(": ", 1)[1], s))
            fs += self.hidden_captures(st, s, span, rest, len(fs))
            e.closure_subst[(self.crate, span)] = self.subst
            return Agg(("closure", self.crate, span), None, fs)
        if r.startswith("["):
            m = re.match(r"^\[(.*); (.*)\]$", r, re.S)
            inner = r[1:-1]
            parts = balanced_split(inner, ";")
            if len(parts) == 2 and re.match(r"^(const \d+_usize|\d+)$", parts[1]):
                n = int(re.search(r"\d+", parts[1]).group(0))
                v = self.operand(st, parts[0], s)
                return ListV(v.ty, [v] * n)
            items = [self.operand(st, x, s) for x in balanced_split(inner)]
            ty = e.deref(st, items[0]).ty if items else None
            return ListV(ty, items)
        if r.startswith("("):
            parts = balanced_split(r[1:-1])
            fs = [self.operand(st, x, s) for x in parts]
            return Agg(("tuple", tuple(getattr(e.deref(st, x) if not isinstance(x, Ref) else x, "ty", None) for x in fs)), "", fs)
        return self.aggregate(st, r, s)

    def hidden_captures(self, st, s, span, rest, m):
        """rustc prints one operand per captured variable, although a variable may be captured field by field: when the closure's
        body uses more captures than were printed, the rest are the temporaries built right before, in order"""
        fn = self.eng.by_closure.get((self.crate, span))
        if fn is None:
            return []
        self.eng.mods[self.crate].parse(fn)
        k = m
        for b in fn.blocks.values():
            for x in b["stmts"]:
                for mm in re.finditer(r"\(\*_1\)\.(\d+)|\(_1\.(\d+)", x["text"]):
                    k = max(k, int(mm.group(1) or mm.group(2)) + 1)
        if k == m:
            return []
        printed = [re.sub(r"^(move|copy) ", "", x.split(": ", 1)[1]) for x in balanced_split(rest[1:-1])] if m else []
        temps = []
        for b in self.fn.blocks.values():
            if s in b["stmts"]:
                for x in b["stmts"][:b["stmts"].index(s)]:
                    i = find_assign(x["text"]) if "=" in x["text"] else -1
                    if i > 0 and x.get("span") == s.get("span") and re.fullmatch(r"_\d+", x["text"][:i].strip()) and not x["text"][i + 3:].startswith("deref_copy"):
                        temps.append(x["text"][:i].strip())
        if temps[:m] != printed or len(temps) < k:
            raise Unsupported("captures of closure at %s" % span)
        return [self.operand(st, "move " + t, s) for t in temps[m:k]]

    def aggregate(self, st, r, s):
        e = self.eng
        # path { f: op, .. } | path(op, ..) | path
        if r.endswith("}") and " { " in r:
            i = top_index(r, " { ")
            path, inner = r[:i], r[i + 3:-1].strip()
            names, fs = [], []
            for x in balanced_split(inner):
                n, o = split_colon_field(x)
                names.append(n)
                fs.append(self.operand(st, o, s))
            return self.mk(st, path, names, fs)
        if r.endswith(")"):
            i = open_paren(r)
            path, inner = r[:i], r[i + 1:-1]
            fs = [self.operand(st, x, s) for x in balanced_split(inner)]
            return self.mk(st, path, None, fs)
        return self.mk(st, r, None, [])

    def mk(self, st, path, names, fs, p=None):
        e = self.eng
        if p is None:
            p = parse_path(path)
        # try as enum variant: last segment is the variant
        segs = [x for x in p]
        cands = []
        full = path_to_ty(p)
        if len(p) >= 2 and p[-1][0] == "seg":
            ety = path_to_ty(p[:-1])
            ct = e.ty.canon(ety, self.crate, self.subst)
            vs = e.ty.variants(ct)
            if vs is not None:
                for vn, ft, fn, _ in vs:
                    if vn == p[-1][1] and (e.ty.is_enum(ct) or ct[0] == "adt" and ct[1] in ("Option", "Result")):
                        return Agg(ct, vn, self.order(names, fn, fs))
        ct = e.ty.canon(full, self.crate, self.subst)
        vs = e.ty.variants(ct)
        if vs is None:
            r = e.lib.ext_aggregate(e, st, ct, path, names, fs)
            if r is not None:
                return r
            raise Unsupported("aggregate of unknown type %s" % path)
        vn, ft, fn, _ = vs[0]
        return Agg(ct, vn, self.order(names, fn, fs))

    def order(self, names, fn, fs):
        if names is None:
            return fs
        d = dict(zip(names, fs))
        return [d[n] for n in fn]

    def cast_int(self, st, v, ty):
        v = self.eng.deref(st, v)
        if isinstance(v, Discr):
            ds = self.eng.ty.variants(v.v.ty)
            t = None
            for vn, _, _, d in ds:
                c = self.eng.is_variant(v.v, vn)
                c = z3.BoolVal(c) if isinstance(c, bool) else c
                t = z3.IntVal(d) if t is None else z3.If(c, z3.IntVal(d), t)
            return T(t, ("int", ty))
        if v.ty == BOOL:
            return T(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), ("int", ty))
        lo, hi = INT_BOUNDS[ty]
        slo, shi = INT_BOUNDS[v.ty[1]]
        if slo >= lo and shi <= hi:
            return T(v.t, ("int", ty))
        m = hi - lo + 1
        if lo == 0:
            return T(v.t % m, ("int", ty))
        raise Unsupported("signed narrowing cast")

    def binop(self, st, op, a, b):
        e = self.eng
        a, b = e.deref(st, a), e.deref(st, b)
        if isinstance(a, Discr) or isinstance(b, Discr):
            if op in ("Eq", "Ne"):
                def num(x):
                    return self.cast_int(st, x, "isize").t if isinstance(x, Discr) else x.t
                t = num(a) == num(b)
                return T(t if op == "Eq" else z3.Not(t), BOOL)
            raise Unsupported("op on discriminant")
        if a.ty == BOOL:
            x, y = a.t, b.t
            f = {"Eq": x == y, "Ne": x != y, "BitAnd": z3.And(x, y), "BitOr": z3.Or(x, y), "BitXor": z3.Xor(x, y)}.get(op)
            if f is None:
                raise Unsupported("bool op " + op)
            return T(f, BOOL)
        if op in ("Eq", "Ne") and a.ty[0] not in ("int",):
            t = e.lib.eq(e, st, a, b)
            return T(t if op == "Eq" else z3.Not(t), BOOL)
        x, y = a.t, b.t
        if op in ("Eq", "Lt", "Le", "Ne", "Ge", "Gt"):
            t = {"Eq": x == y, "Lt": x < y, "Le": x <= y, "Ne": x != y, "Ge": x >= y, "Gt": x > y}[op]
            return T(t, BOOL)
        lo, hi = INT_BOUNDS[a.ty[1]]
        if op in ("Add", "CheckedAdd"):
            t = x + y
        elif op in ("Sub", "CheckedSub"):
            t = x - y
        elif op in ("Mul", "CheckedMul"):
            t = x * y
        elif op == "Div":
            if lo < 0:
                raise Unsupported("signed division")
            return T(x / y, a.ty)
        elif op == "Rem":
            if lo < 0:
                raise Unsupported("signed remainder")
            return T(x % y, a.ty)
        elif op in ("BitAnd", "BitOr", "BitXor"):
            return T(e.lib.bitop(e, op, x, y, a.ty), a.ty)
        elif op in ("Shl", "Shr") and z3.is_int_value(z3.simplify(y)):
            k = z3.simplify(y).as_long()
            t = x * (2 ** k) % (hi + 1) if op == "Shl" else x / (2 ** k)
            return T(t, a.ty)
        else:
            raise Unsupported("binop " + op)
        if op.startswith("Checked"):
            return Agg(("tuple", (a.ty, BOOL)), "", (T(t, a.ty), T(z3.Or(t < lo, t > hi), BOOL)))
        if lo == 0:
            return T(t % (hi + 1), a.ty)
        raise Unsupported("wrapping signed op")

    # -- terminators: yields (state, next)
    def term(self, st, s, bb, visits):
        e = self.eng
        t = s["text"]
        if t == "return":
            return [(st, "return")]
        if t in ("unreachable",):
            return []
        if t == "resume" or t.startswith("terminate"):
            return []
        m = re.match(r"^goto -> bb(\d+)$", t)
        if m:
            return [(st, int(m.group(1)))]
        m = re.match(r"^(falseEdge|falseUnwind) -> \[real: bb(\d+)", t)
        if m:
            return [(st, int(m.group(2)))]
        m = re.match(r"^drop\((.*)\) -> (?:\[return: )?bb(\d+)", t)
        if m:
            return [(st, int(m.group(2)))]
        m = re.match(r"^switchInt\((.*)\) -> \[(.*)\]$", t)
        if m:
            return self.switch(st, m.group(1), m.group(2), s)
        m = re.match(r"^assert\((!?)(.*?), \"(.*)\) -> (?:\[success: )?bb(\d+)", t, re.S)
        if m:
            v = self.operand(st, m.group(2), s)
            c = z3.Not(v.t) if m.group(1) else v.t
            out = []
            for s2, b in e.fork(st, c):
                out.append((s2, int(m.group(4)) if b else "panic"))
            return out
        i = find_assign(t)
        k = t.rfind(" -> ")
        if i < 0 or k < 0:
            raise Unsupported("terminator %r" % t)
        place = parse_place(t[:i])
        call, tgt = t[i + 3:k], t[k + 4:]
        m = re.match(r"^(?:\[return: )?bb(\d+)", tgt)
        ret = int(m.group(1)) if m and not tgt.startswith("unwind") else None
        p = open_paren(call)
        fpath, argt = call[:p], call[p + 1:-1]
        args = [self.operand(st, a, s) for a in balanced_split(argt)]
        rty = e.ty.canon(self.place_ty_text(place), self.crate, self.subst)
        if fpath.startswith("move _") or re.match(r"^_\d+$", fpath):
            outs = e.call_value(st, self.operand(st, fpath, s), args, self.depth)
        else:
            path = parse_path(fpath)
            lk = self.loop_hook(st, path, args, bb, visits, place, ret)
            if lk is not None:
                return lk
            outs = e.call_path(st, path, args, self, rty, fpath)
        res = []
        for o in outs:
            if o.kind == PANIC:
                res.append((o.st, "panic"))
                continue
            if ret is None:
                res.append((o.st, "panic"))
                continue
            st2 = o.st
            if st2 is st:
                st2 = st.copy()
            c, pp = e.loc(st2, self.fid, place)
            e.write(st2, c, pp, o.v)
            res.append((st2, ret))
        return res

    def loop_hook(self, st, path, args, bb, visits, place, ret):
        """the head of a for loop over a symbolic sequence"""
        e = self.eng
        if e.norm_key(path) != "Iterator::next" or ret is None:
            return None
        it = e.deref(st, args[0])
        if not isinstance(it, It):
            return None
        n = it.n
        if isinstance(n, int) or z3.is_int_value(z3.simplify(n)):
            return None
        import loops
        return loops.handle(self, st, path, args, bb, visits, place, ret, it)

    def switch(self, st, o, tg, s):
        e = self.eng
        v = self.operand(st, o, s)
        arms = []
        other = None
        for x in balanced_split(tg):
            a, b = x.rsplit(": ", 1)
            b = int(b[2:])
            if a == "otherwise":
                other = b
            else:
                arms.append((int(a), b))
        if isinstance(v, PyV) and v.kind == "undef":
            return [(st, other)]
        if isinstance(v, Discr):
            vs = e.ty.variants(v.v.ty)
            if vs is None:
                raise Unsupported("switch on %s" % tname(v.v.ty))
            byname = {}
            for vn, _, _, d in vs:
                byname[vn] = d
            out = []
            for st2, vn in e.fork_variant(st, v.v):
                d = byname[vn]
                tgt = other
                for a, b in arms:
                    if a == d or (d < 0 and a in (d + 2**8, d + 2**64, d + 2**16, d + 2**32)):
                        tgt = b
                if tgt is None:
                    continue
                out.append((st2 if st2 is not st else st, tgt))
            return out
        v = e.deref(st, v)
        out = []
        rest = []
        if v.ty == BOOL:
            for st2, b in e.fork(st, v.t):
                val = 1 if b else 0
                tgt = other
                for a, bb in arms:
                    if a == val:
                        tgt = bb
                if tgt is not None:
                    out.append((st2, tgt))
            return out
        cur = st
        for a, b in arms:
            c = v.t == a
            nxt = None
            for st2, bl in e.fork(cur, c):
                if bl:
                    out.append((st2, b))
                else:
                    nxt = st2
            if nxt is None:
                return out
            cur = nxt
        if other is not None:
            out.append((cur, other))
        return out


def find_assign(t):
    d = 0
    i = 0
    while i < len(t):
        c = t[i]
        if c in "([{<":
            d += 1
        elif c in ")]}" or (c == ">" and t[i - 1] not in "-="):
            d -= 1
        elif d == 0 and t.startswith(" = ", i):
            return i
        i += 1
    return -1


def open_paren(t):
    """index of the '(' matching the final ')'"""
    d = 0
    i = len(t) - 1
    instr = False
    # scan forward instead, remembering the last top-level '('
    pos = -1
    depth = 0
    i = 0
    while i < len(t):
        c = t[i]
        if c == '"':
            j = i + 1
            while t[j] != '"':
                j += 2 if t[j] == "\\" else 1
            i = j
        elif c in "([{<":
            if c == "(" and depth == 0:
                pos = i
            depth += 1
        elif c in ")]}" or (c == ">" and t[i - 1] not in "-="):
            depth -= 1
        i += 1
    return pos


def top_index(t, pat):
    d = 0
    for i, c in enumerate(t):
        if d == 0 and t.startswith(pat, i):
            return i
        if c in "([{<":
            d += 1
        elif c in ")]}" or (c == ">" and t[i - 1] not in "-="):
            d -= 1
    return -1


def split_colon_field(x):
    n, o = x.split(": ", 1)
    return n, o


def unescape(s):
    s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: "\\U%08x" % int(m.group(1), 16), s)
    return bytes(s, "utf-8").decode("unicode_escape").encode("latin1", "ignore").decode("utf-8", "ignore") if "\\" in s else s
