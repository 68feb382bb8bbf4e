"""Exact semantics of sequences of symbolic length: iteration, comprehension, collection, folds.

A body is executed once for a symbolic index i.  What it does for every i becomes quantified facts; state it changes
becomes a state function F with F(0) = the value before and F(i+1) = the body's result from F(i)."""
import z3

from engine import T, Agg, ListV, Ref, It, PyV, Outcome, PANIC, RET, Unsupported, UNITV, CwMap, Handle, FnV
from types_ import *


def conc(n):
    if isinstance(n, int):
        return n
    n = z3.simplify(n)
    return n.as_long() if z3.is_int_value(n) else None


def AND(xs):
    xs = [x for x in xs]
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def OR(xs):
    xs = list(xs)
    if not xs:
        return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def vars_in(e, v):
    seen = set()
    st = [e]
    vid = v.get_id()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() == vid:
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def has_ite(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT):
            return True
        st.extend(x.children())
    return False


def forall(vs, body, pats=None, qid=""):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if z3.is_true(body):
        return body
    if pats and not any(has_ite(p) for p in pats):
        try:
            return z3.ForAll(list(vs), body, patterns=pats, qid=qid)
        except z3.Z3Exception:
            pass
    return z3.ForAll(list(vs), body)


class Case:
    __slots__ = ("cond", "kind", "v", "st", "facts")

    def __init__(self, cond, kind, v, st, facts):
        self.cond, self.kind, self.v, self.st, self.facts = cond, kind, v, st, facts


class Done:
    """the iteration ran to its end.  Either concrete (items) or symbolic (cases over index i < n)"""
    __slots__ = ("items", "cases", "i", "n")

    def __init__(self, items=None, cases=None, i=None, n=None):
        self.items, self.cases, self.i, self.n = items, cases, i, n


def run(eng, st, it, body):
    """body(st, v, i) -> [(st, kind, v)], kind in cont/skip/brk/panic
    -> [("done", st, Done) | ("brk", st, v) | ("panic", st, None)]"""
    n = conc(it.n)
    if n is not None:
        return run_conc(eng, st, it, n, body)
    return run_sym(eng, st, it, body)


def step(eng, st, it, i, body):
    out = []
    for s, k, v in it.gen(eng, st, i):
        if k == "item":
            out.extend(body(s, v, i))
        else:
            out.append((s, k, v))
    return out


def run_conc(eng, st, it, n, body):
    states = [(st, [])]
    res = []
    for i in range(it.pos, n):
        nxt = []
        for s, items in states:
            for s2, k, v in step(eng, s.copy(), it, z3.IntVal(i), body):
                s2 = s2.copy()
                for mu in it.muts:
                    write_back(eng, s2, mu, z3.IntVal(i))
                if k == "cont":
                    nxt.append((s2, items + [v]))
                elif k == "skip":
                    nxt.append((s2, items))
                elif k == "brk":
                    res.append(("brk", s2, v))
                elif k == "panic":
                    res.append(("panic", s2, None))
                else:
                    raise Unsupported("iteration kind %s" % k)
        states = nxt
    return [("done", s, Done(items=items)) for s, items in states] + res


def write_back(eng, st, mu, i):
    cell, path, tmp = mu
    if tmp in st.cells:
        eng.write(st, cell, path + (("idx", i),), st.cells[tmp])
        del st.cells[tmp]


def changed_keys(eng, s0, s1, skip):
    r = []
    for k, v in s0.cells.items():
        if s1.cells.get(k) is not v and k not in skip and k in s1.cells:
            for path in diff(eng, s0, v, s1, s1.cells[k]):
                r.append(("cell", k) + ((path,) if path else ()))
    for ns, t in s1.storage.items():
        old = s0.storage.get(ns)
        if old is None:
            old = eng.store_init(ns)
        if not z3.eq(old, t):
            r.append(("store", ns))
    return r


def diff(eng, s0, a, s1, b, path=()):
    """the paths of the fields that differ; a value of a struct type is compared field by field"""
    if same(eng, s0, a, s1, b):
        return []
    if (isinstance(a, Agg) or isinstance(b, Agg)) and getattr(a, "ty", None) is not None and a.ty == getattr(b, "ty", None) and len(path) < 4 \
            and isinstance(a, (Agg, T)) and isinstance(b, (Agg, T)):
        vs = eng.ty.variants(a.ty) if a.ty[0] == "adt" else None
        if a.ty[0] == "tuple" or (vs is not None and len(vs) == 1):
            try:
                x, y = eng.expand(s0, a), eng.expand(s1, b)
            except Unsupported:
                return [path]
            r = []
            for j, (u, w) in enumerate(zip(x.f, y.f)):
                r += diff(eng, s0, u, s1, w, path + (("f", j, None),))
            return r
    return [path]


def same(eng, s0, a, s1, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, T):
        return a.t.eq(b.t)
    if isinstance(a, Agg):
        return a.variant == b.variant and len(a.f) == len(b.f) and all(same(eng, s0, x, s1, y) for x, y in zip(a.f, b.f))
    if isinstance(a, ListV):
        return len(a.items) == len(b.items) and all(same(eng, s0, x, s1, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Ref):
        return a.cell == b.cell and a.path == b.path
    return a is b


def get_key(eng, st, key):
    if key[0] == "cell":
        v = st.cells[key[1]]
        for p in (key[2] if len(key) > 2 else ()):
            v = eng.step_read(st, v, p)
        return v
    t = st.storage.get(key[1])
    return T(t if t is not None else eng.store_init(key[1]), eng.store_type(key[1]))


def set_key(eng, st, key, v):
    if key[0] == "cell":
        eng.write(st, key[1], key[2] if len(key) > 2 else (), v)
    else:
        st.storage[key[1]] = v.t


def inside(key, other):
    """key is other, or a part of it"""
    if key[:2] != other[:2]:
        return False
    a, b = (k[2] if len(k) > 2 else () for k in (key, other))
    return a[:len(b)] == b


def run_sym(eng, st, it, body):
    if conc(it.pos) != 0:
        it = shift(it)
    n = it.n
    i = z3.Int("i!%d" % next(eng.cnt))
    guard = z3.And(i >= 0, i < n)
    skip = {m[2] for m in it.muts}
    loopst = {}  # key -> (F, init value term, ty)
    for _ in range(12):
        s0 = st.copy()
        for key, (F, init, ty) in loopst.items():
            x = T(F(i), ty)
            set_key(eng, s0, key, x)
            eng.touch(s0, x)
        base = s0.copy()
        s0.binders = s0.binders + [(i, guard)]
        np, nf = len(s0.pc), len(s0.facts)
        outs = step(eng, s0.copy(), it, i, body)
        new = []
        for s2, k, v in outs:
            if k in ("cont", "skip"):
                for key in changed_keys(eng, base, s2, skip):
                    if key not in new and not any(inside(key, o) for o in list(loopst) + new):
                        new.append(key)
        if not new:
            break
        new = [k for k in new if not any(k != o and inside(k, o) for o in new)]
        for key in new:
            for o in [o for o in loopst if inside(o, key)]:
                del loopst[o]
            v0 = get_key(eng, st, key)
            ty = getattr(v0, "ty", None)
            if ty is None or ty[0] in ("opaque", "closure", "dyn"):
                raise Unsupported("loop changes untermable state %r" % (key,))
            t0 = eng.term(st, v0, ty)
            name = "F:" + (key[1] if key[0] == "store" else "cell")
            loopst[key] = (eng.fresh_fn(st, name, [z3.IntSort()], t0.sort()), t0, ty)
    else:
        raise Unsupported("loop state does not stabilise")
    cases = []
    for s2, k, v in outs:
        c = AND(s2.pc[np:])
        cases.append(Case(c, k, v, s2, s2.facts[nf:]))
    good = [c for c in cases if c.kind in ("cont", "skip")]
    bad = [c for c in cases if c.kind not in ("cont", "skip")]
    facts = []
    # facts common to every path hold for every index
    if cases:
        common = []
        ids = [set(f.get_id() for f in c.facts) for c in cases]
        seen = set()
        for f in cases[0].facts:
            if all(f.get_id() in s for s in ids) and f.get_id() not in seen:
                seen.add(f.get_id())
                common.append(f)
        for f in common:
            facts.append(forall(i, z3.Implies(guard, f)) if vars_in(f, i) else f)
        done = set()
        for c in cases:
            for f in c.facts:
                if f.get_id() in seen:
                    continue
                g = z3.Implies(AND([guard, c.cond]), f)
                key = (f.get_id(), c.cond.get_id())
                if key in done:
                    continue
                done.add(key)
                facts.append(forall(i, g) if vars_in(g, i) else g)
    # recursion of the changed state
    for key, (F, init, ty) in loopst.items():
        facts.append(F(z3.IntVal(0)) == init)
        for c in good:
            nv = eng.term(c.st, get_key(eng, c.st, key), ty)
            facts.append(forall(i, z3.Implies(AND([guard, c.cond]), F(i + 1) == nv), [F(i + 1)] if plain_writes(eng, key, F, init, ty, good, i) else None))
    sums(eng, st, loopst, good, i, n, facts)
    pushes(eng, st, loopst, good, i, n, facts)
    writers(eng, st, loopst, good, i, n, facts)
    res = []
    cover = OR([c.cond for c in good])
    total = forall(i, z3.Implies(guard, cover)) if good else (n <= 0)
    # 1. to the end
    sd = st.copy()
    sd.facts.extend(facts)
    if bad:
        sd.pc.append(total)
    elif len(good) > 1:
        sd.facts.append(total)
    sd.facts.append(n >= 0)
    for key, (F, init, ty) in loopst.items():
        x = T(F(n), ty)
        set_key(eng, sd, key, x)
        eng.touch(sd, x)
    for m in it.muts:
        pointwise(eng, sd, m, i, n, good)
    info = dict(i=i, n=n, guard=guard, state=loopst, good=good, st=st, facts=facts)
    if loopst:
        eng.apply_invariants(sd, info)
    if not bad or eng.feasible(sd):
        res.append(("done", sd, Done(cases=good, i=i, n=n)))
    # 2. cut short at index k
    if bad:
        sk = st.copy()
        sk.facts.extend(facts)
        k = eng.fresh(st, "k", z3.IntSort())
        j = z3.Int("j!%d" % next(eng.cnt))
        sk.pc.append(z3.And(k >= 0, k < n))
        if good:
            prev = z3.substitute(cover, (i, j))
            if not z3.is_true(z3.simplify(cover) if not vars_quant(cover) else cover):
                sk.pc.append(forall(j, z3.Implies(z3.And(j >= 0, j < k), prev)))
        else:
            sk.pc.append(k == 0)
        for key, (F, init, ty) in loopst.items():
            x = T(F(k), ty)
            set_key(eng, sk, key, x)
            eng.touch(sk, x)
        if loopst:
            eng.apply_invariants(sk, info, reuse=True)
        for s2, kind, v in step(eng, sk.copy(), it, k, body):
            if kind == "brk":
                for m in it.muts:
                    pointwise_cut(eng, s2, m, i, k, good)
                res.append(("brk", s2, v))
            elif kind == "panic":
                res.append(("panic", s2, None))
    return res


def sums(eng, st, loopst, good, i, n, facts):
    """closed form of an integer: F(i) = F(0) + the sum of the changes (by induction on i, rules.lean: loop_sum)"""
    import lib
    if st.binders:
        return
    names = {F(i).decl().name() for F, _, _ in loopst.values()}
    for key, (F, init, ty) in loopst.items():
        if ty[0] != "int" or not good:
            continue
        ds = []
        for c in good:
            v = get_key(eng, c.st, key)
            d = z3.simplify(eng.term(c.st, v, ty) - F(i), som=True)
            ds.append((c.cond, d))
        if not ds:
            continue
        body = ds[-1][1]
        for cond, d in reversed(ds[:-1]):
            body = z3.If(cond, d, body)
        a = z3.Const("amounts!%d" % next(eng.cnt), z3.ArraySort(z3.IntSort(), z3.IntSort()))
        facts.append(forall(i, z3.Implies(z3.And(i >= 0, i < n), z3.Select(a, i) == body), [z3.Select(a, i)]))
        j = z3.Int("j!%d" % next(eng.cnt))
        if not names & symnames(body):
            facts.append(forall(j, z3.Implies(z3.And(j >= 0, j <= n), F(j) == init + lib.psum()(a, j)), [F(j)]))
        facts.append(F(n) == init + lib.psum()(a, n))


def pushes(eng, st, loopst, good, i, n, facts):
    """closed form of a vector to which every iteration appends one element that does not depend on the vector:
    F(i) has len F(0) + i elements, and its element len F(0) + k is the one appended by iteration k (by induction on i, rules.lean: loop_pushes)"""
    for key, (F, init, ty) in loopst.items():
        if not (ty[0] == "adt" and ty[1] == "Vec") or not good:
            continue
        me = F(i)
        name = me.decl().name()
        xs, skip = [], []
        for c in good:
            nv = z3.simplify(eng.term(c.st, get_key(eng, c.st, key), ty))
            ln, arr = eng.seq_len(me), eng.seq_arr(me)
            if nv.eq(z3.simplify(me)) and name not in symnames(c.cond):
                skip.append(c.cond)
                continue
            if not (z3.is_app(nv) and nv.num_args() == 2 and z3.simplify(nv.arg(0) - ln - 1).eq(z3.IntVal(0)) and z3.is_store(nv.arg(1))
                    and nv.arg(1).arg(0).eq(z3.simplify(arr)) and nv.arg(1).arg(1).eq(z3.simplify(ln))) or name in symnames(nv.arg(1).arg(2)) | symnames(c.cond):
                xs = None
                break
            xs.append((c.cond, nv.arg(1).arg(2)))
        if not xs:
            continue
        if skip:
            some_pushes(eng, st, F, init, xs, i, n, facts)
            continue
        l0 = eng.seq_len(init)
        j, k = z3.Int("j!%d" % next(eng.cnt)), z3.Int("j!%d" % next(eng.cnt))
        inj = z3.And(j >= 0, j <= n)
        facts.append(forall(j, z3.Implies(inj, eng.seq_len(F(j)) == l0 + j), [F(j)]))
        facts.append(z3.Implies(n >= 0, eng.seq_len(F(n)) == l0 + n))
        at = eng.seq_at(F(j), k)
        for cond, x in xs:
            facts.append(forall([j, k], z3.Implies(z3.And(inj, k >= l0, k < l0 + j, z3.substitute(cond, (i, k - l0))), at == z3.substitute(x, (i, k - l0))), [at]))
        facts.append(forall([j, k], z3.Implies(z3.And(inj, k >= 0, k < l0), at == eng.seq_at(init, k)), [at]))


def some_pushes(eng, st, F, init, xs, i, n, facts):
    """the same when some iterations append nothing: the element at place p was appended by iteration Q(p), and an iteration that
    appends puts its element at the end (by induction on i, rules.lean: loop_some_pushes; elements stay where they are)"""
    Q = eng.fresh_fn(st, "Q", [z3.IntSort()], z3.IntSort())
    l0 = eng.seq_len(init)
    ln = lambda t: eng.seq_len(F(t))
    j, p, p2 = (z3.Int("j!%d" % next(eng.cnt)) for _ in range(3))
    guard = z3.And(i >= 0, i < n)
    app = OR([c for c, _ in xs])
    facts.append(forall(j, z3.Implies(z3.And(j >= 0, j <= n), z3.And(ln(j) >= l0, ln(j) <= l0 + j, ln(j) <= z3.If(n >= 0, ln(n), ln(j)))), [F(j)]))
    facts.append(z3.Implies(n >= 0, z3.And(ln(n) >= l0, ln(n) <= l0 + n)))
    at = eng.seq_at(F(n), p)
    inp = z3.And(p >= l0, p < ln(n))
    facts.append(forall(p, z3.Implies(inp, z3.And(Q(p) >= 0, Q(p) < n, z3.substitute(app, (i, Q(p))), ln(Q(p)) == p)), [Q(p)]))
    facts.append(forall([p, p2], z3.Implies(z3.And(l0 <= p, p < p2, p2 < ln(n)), Q(p) < Q(p2)), [z3.MultiPattern(Q(p), Q(p2))]))
    facts.append(forall(p, z3.Implies(z3.And(n >= 0, p >= 0, p < l0), at == eng.seq_at(init, p)), [at]))
    for c, x in xs:
        facts.append(forall(p, z3.Implies(z3.And(inp, z3.substitute(c, (i, Q(p)))), at == z3.substitute(x, (i, Q(p)))), [at]))
        facts.append(forall(i, z3.Implies(AND([guard, c]), z3.And(ln(i) < ln(n), Q(ln(i)) == i, eng.seq_at(F(n), ln(i)) == x))))
    end = F(n)
    eng.sources[end.get_id()] = (end, Q)
    eng.places[end.get_id()] = (end, ln)


def plain_writes(eng, key, F, init, ty, good, i):
    """what each good iteration writes, if that is at most one entry and does not depend on the map"""
    if not z3.is_array(init) or not good:
        return None
    out = []
    for c in good:
        nv = eng.term(c.st, get_key(eng, c.st, key), ty)
        if nv.eq(F(i)):
            continue
        if not (z3.is_store(nv) and nv.arg(0).eq(F(i))) or F(i).decl().name() in symnames(nv.arg(1)) | symnames(nv.arg(2)):
            return None
        out.append((c.cond, nv.arg(1), nv.arg(2)))
    return out


def writers(eng, st, loopst, good, i, n, facts):
    """a map that iteration i changes at most at the keys K(i): by induction on j (rules.lean: loop_writers, loop_plain_writes), F(j)[k] is F(w+1)[k] for the last w < j with
    k in K(w), or the initial value at k if there is none.  Stated for the final map, and for F(i) at the keys of iteration i."""
    for key, (F, init, ty) in loopst.items():
        if not z3.is_array(init) or not good:
            continue
        ks = []
        ok = True
        for c in good:
            nv = eng.term(c.st, get_key(eng, c.st, key), ty)
            if not stored_keys(nv, F(i), ks):
                ok = False
                break
        if not ok or not ks or len(ks) > 3:
            continue
        W = eng.fresh_fn(st, "W", [z3.IntSort(), init.sort().domain()], z3.IntSort())
        u = z3.Int("u!%d" % next(eng.cnt))
        k = z3.Const("k!%d" % next(eng.cnt), init.sort().domain())

        def member(x, at):
            return OR([x == z3.substitute(kk, (i, at)) for kk in ks])

        plain = plain_writes(eng, key, F, init, ty, good, i)

        def wrote(x, at):
            """iteration `at` writes entry x: for plain writes only under the condition of the write (rules.lean: loop_plain_writes)"""
            if not plain:
                return member(x, at)
            return OR([z3.substitute(z3.And(cc, x == kk), (i, at)) for cc, kk, _ in plain])

        def last(j, x):
            w = W(j, x)
            none = z3.And(z3.Select(F(j), x) == z3.Select(init, x), forall(u, z3.Implies(z3.And(u >= 0, u < j), z3.Not(wrote(x, u)))))
            some = z3.And(w >= 0, w < j, member(x, w), z3.Select(F(j), x) == z3.Select(F(w + 1), x),
                          forall(u, z3.Implies(z3.And(u > w, u < j), z3.Not(member(x, u)))))
            if plain:
                some = z3.And(w >= 0, w < j, z3.Or(*[z3.substitute(z3.And(cc, x == kk, z3.Select(F(j), x) == vv), (i, w)) for cc, kk, vv in plain]),
                              forall(u, z3.Implies(z3.And(u > w, u < j), z3.Not(wrote(x, u)))))
            return z3.Or(none, some)
        facts.append(forall(k, z3.Implies(n >= 0, last(n, k)), [z3.Select(F(n), k)]))
        for kk in ks:
            # without the bound on the other writes: enough when the keys are distinct
            w = W(i, kk)
            facts.append(forall(i, z3.Implies(z3.And(i >= 0, i < n), z3.Or(
                z3.Select(F(i), kk) == z3.Select(init, kk),
                z3.And(w >= 0, w < i, member(kk, w), z3.Select(F(i), kk) == z3.Select(F(w + 1), kk)))), [z3.Select(F(i), kk)]))


def stored_keys(t, base, ks):
    if t.eq(base):
        return True
    if z3.is_store(t):
        if not stored_keys(t.arg(0), base, ks):
            return False
        if not any(x.eq(t.arg(1)) for x in ks):
            ks.append(t.arg(1))
        return True
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return stored_keys(t.arg(1), base, ks) and stored_keys(t.arg(2), base, ks)
    return False


def symnames(e):
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            out.add(x.decl().name())
            todo.extend(x.children())
    return out


def vars_quant(e):
    from engine import has_quant
    return has_quant(e)


def pointwise(eng, st, m, i, n, good):
    cell, path, tmp = m
    old = eng.as_T(st, eng.read(st, cell, path))
    et = old.ty[2][0]
    nv = eng.fresh_v(st, "upd", old.ty)
    arr, oarr = eng.seq_arr(nv.t), eng.seq_arr(old.t)
    guard = z3.And(i >= 0, i < n)
    st.facts.append(eng.seq_len(nv.t) == eng.seq_len(old.t))
    for c in good:
        if tmp in c.st.cells:
            x = eng.term(c.st, c.st.cells[tmp], et)
            st.facts.append(forall(i, z3.Implies(AND([guard, c.cond]), z3.Select(arr, i) == x)))
        else:
            st.facts.append(forall(i, z3.Implies(AND([guard, c.cond]), z3.Select(arr, i) == z3.Select(oarr, i))))
    st.facts.append(forall(i, z3.Implies(z3.And(i >= n, i < eng.seq_len(old.t)), z3.Select(arr, i) == z3.Select(oarr, i)),
                           [z3.Select(arr, i)]))
    eng.write(st, cell, path, nv)
    st.cells.pop(tmp, None)


def pointwise_cut(eng, st, m, i, k, good):
    pointwise(eng, st, m, i, k, good)


def shift(it):
    p = it.pos
    g = it.gen
    r = It(it.n - p, lambda eng, st, i: g(eng, st, i + p), it.noskip, it.elem)
    r.muts = it.muts
    return r


# ----------------------------------------------------------------------------- collectors
def reraise(res, on_done, on_brk=None):
    """turn run()'s results into Outcomes"""
    out = []
    for k, s, v in res:
        if k == "done":
            r = on_done(s, v)
            out.extend(r if isinstance(r, list) else [r])
        elif k == "brk":
            r = on_brk(s, v)
            out.extend(r if isinstance(r, list) else [r])
        else:
            out.append(Outcome(s, PANIC, None))
    return out


def same_seq(eng, st, d, vt):
    """one name for sequences of the same length with the same elements: the facts that define such a sequence are the same
    wherever it is made (terms that depend on an enclosing binder get a name of their own)"""
    c0 = z3.Int("memo?i")
    parts, keep = [], [z3.simplify(d.n)]
    for c in d.cases:
        x = eng.term(c.st, c.v, vt[2][0])
        keep += [z3.substitute(c.cond, (d.i, c0)), z3.substitute(x, (d.i, c0))]
    names = set()
    for k in keep:
        names |= symnames(k)
    if any(b[0].decl().name() in names for b in st.binders):
        return None
    key = (str(vt),) + tuple(k.get_id() for k in keep)
    if key not in eng.seqs:
        eng.seqs[key] = (z3.Const("seq!%d" % next(eng.cnt), eng.ty.sort(vt)), keep)
    r = T(eng.seqs[key][0], vt)
    eng.touch(st, r)
    return r


def seq_of(eng, st, d, et):
    """the sequence of the values of a finished iteration (adds facts to st)"""
    if d.items is not None:
        return ListV(et, d.items)
    vt = VEC(et)
    if vt == BYTES:
        raise Unsupported("symbolic byte sequence")
    i, n = d.i, d.n
    guard = z3.And(i >= 0, i < n)
    full = all(c.kind == "cont" for c in d.cases)
    r = same_seq(eng, st, d, vt) if full else None
    if r is None:
        r = eng.fresh_v(st, "seq", vt)
    arr, ln = eng.seq_arr(r.t), eng.seq_len(r.t)
    if full:
        st.facts.append(ln == n)
        for c in d.cases:
            x = eng.term(c.st, c.v, et)
            st.facts.append(forall(i, z3.Implies(AND([guard, c.cond]), z3.Select(arr, i) == x)))
        return r
    src = eng.fresh_fn(st, "src", [z3.IntSort()], z3.IntSort())
    inv = eng.fresh_fn(st, "inv", [z3.IntSort()], z3.IntSort())
    eng.sources[r.t.get_id()] = (r.t, src)
    eng.places[r.t.get_id()] = (r.t, inv)
    j = z3.Int("j!%d" % next(eng.cnt))
    j2 = z3.Int("j!%d" % next(eng.cnt))
    keep = OR([c.cond for c in d.cases if c.kind == "cont"])
    inr = z3.And(j >= 0, j < ln)
    st.facts.append(z3.And(ln >= 0, ln <= n))
    kj = z3.substitute(keep, (i, src(j)))
    st.facts.append(forall(j, z3.Implies(inr, z3.And(src(j) >= 0, src(j) < n, kj, inv(src(j)) == j)), [src(j)]))
    # every element of the result comes from a kept one
    for c in d.cases:
        if c.kind != "cont":
            continue
        x = eng.term(c.st, c.v, et)
        st.facts.append(forall(j, z3.Implies(AND([inr, z3.substitute(c.cond, (i, src(j)))]),
                                             z3.Select(arr, j) == z3.substitute(x, (i, src(j)))), [z3.Select(arr, j)]))
        st.facts.append(forall(i, z3.Implies(AND([guard, c.cond]), z3.And(inv(i) >= 0, inv(i) < ln, src(inv(i)) == i,
                                                                         z3.Select(arr, inv(i)) == x))))
    st.facts.append(forall([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < ln), src(j) < src(j2)), [z3.MultiPattern(src(j), src(j2))]))
    if not st.binders:
        # how many are kept (by induction on n, rules.lean: filter_count)
        import lib
        a = z3.Const("kept!%d" % next(eng.cnt), z3.ArraySort(z3.IntSort(), z3.IntSort()))
        st.facts.append(forall(i, z3.Select(a, i) == z3.If(z3.And(guard, keep), z3.IntVal(1), z3.IntVal(0)), [z3.Select(a, i)]))
        st.facts.append(ln == lib.psum()(a, n))
        # the place of a kept element is the number of elements kept before it
        st.facts.append(forall(i, z3.Implies(z3.And(guard, keep), inv(i) == lib.psum()(a, i)), [inv(i)], qid="sums"))
    # nothing kept <=> empty
    st.facts.append(z3.Implies(ln == 0, forall(i, z3.Implies(guard, z3.Not(keep)))))
    return r


def map_of(eng, st, d, kt, vt):
    """the map collected from (key, value) pairs, later entries winning"""
    mt = ("adt", "Map", (kt, vt))
    some = eng.ty.constructor(OPT(vt), "Some")
    if d.items is not None:
        t = eng.empty_map(kt, vt)
        for x in d.items:
            k, v = pair(eng, st, x)
            t = z3.Store(t, eng.term(st, k, kt), some[0](eng.term(st, v, vt)))
        return T(t, mt)
    r = eng.fresh_v(st, "map", mt)
    w = eng.fresh_fn(st, "wit", [eng.ty.sort(kt)], z3.IntSort())
    k = z3.Const("k!%d" % next(eng.cnt), eng.ty.sort(kt))
    i, n = d.i, d.n
    guard = z3.And(i >= 0, i < n)
    has = some[1](z3.Select(r.t, k))
    parts = []
    for c in d.cases:
        if c.kind != "cont":
            continue
        a, b = pair(eng, c.st, c.v)
        kk, vv = eng.term(c.st, a, kt), eng.term(c.st, b, vt)
        parts.append((c.cond, kk, vv))
        # a kept pair's key is in the map, and its last writer is at or after i
        st.facts.append(forall(i, z3.Implies(AND([guard, c.cond]), z3.And(some[1](z3.Select(r.t, kk)), w(kk) >= i))))
    at = lambda e: z3.substitute(e, (i, w(k)))
    st.facts.append(forall(k, z3.Implies(has, z3.And(w(k) >= 0, w(k) < n, OR([
        z3.And(at(c), at(kk) == k, z3.Select(r.t, k) == some[0](at(vv))) for c, kk, vv in parts]))), [z3.Select(r.t, k)]))
    none = eng.ty.constructor(OPT(vt), "None")
    return r


def set_of(eng, st, d, kt):
    ty = ("adt", "Set", (kt,))
    if d.items is not None:
        t = z3.K(eng.ty.sort(kt), z3.BoolVal(False))
        for x in d.items:
            t = z3.Store(t, eng.term(st, x, kt), z3.BoolVal(True))
        return T(t, ty)
    r = eng.fresh_v(st, "set", ty)
    i, n = d.i, d.n
    guard = z3.And(i >= 0, i < n)
    w = eng.fresh_fn(st, "wit", [eng.ty.sort(kt)], z3.IntSort())
    k = z3.Const("k!%d" % next(eng.cnt), eng.ty.sort(kt))
    parts = []
    for c in d.cases:
        if c.kind == "cont":
            kk = eng.term(c.st, c.v, kt)
            parts.append((c.cond, kk))
            st.facts.append(forall(i, z3.Implies(AND([guard, c.cond]), z3.Select(r.t, kk))))
    at = lambda e: z3.substitute(e, (i, w(k)))
    st.facts.append(forall(k, z3.Implies(z3.Select(r.t, k), z3.And(w(k) >= 0, w(k) < n, OR([z3.And(at(c), at(kk) == k) for c, kk in parts]))),
                           [z3.Select(r.t, k)]))
    return r


def pair(eng, st, v):
    v = eng.deref(st, v)
    if isinstance(v, T):
        v = eng.expand(st, v)
    return v.f[0], v.f[1]


def elem_ty(eng, st, d, default=None):
    if d.items is not None:
        for x in d.items:
            y = eng.deref(st, x)
            if getattr(y, "ty", None) is not None:
                return y.ty
        return default
    for c in d.cases:
        if c.kind == "cont":
            y = eng.deref(c.st, c.v)
            return y.ty
    return default


def bool_forall(eng, st, d):
    """Bool term: every value of a finished iteration of booleans is true"""
    if d.items is not None:
        return AND([eng.deref(st, x).t for x in d.items])
    guard = z3.And(d.i >= 0, d.i < d.n)
    parts = [z3.Implies(c.cond, eng.deref(c.st, c.v).t) for c in d.cases if c.kind == "cont"]
    return forall(d.i, z3.Implies(guard, AND(parts)))


# ----------------------------------------------------------------------------- map entries
def ents(eng, st, m):
    """enumeration of a map's entries: (n, key(i)) with the defining facts"""
    kt, vt = m.ty[2]
    ks, ms = eng.ty.sort(kt), m.t.sort()
    nm = str(ms)
    ln = z3.Function("ent_len:" + nm, ms, z3.IntSort())
    key = z3.Function("ent_key:" + nm, ms, z3.IntSort(), ks)
    pos = z3.Function("ent_pos:" + nm, ms, ks, z3.IntSort())
    some = eng.ty.constructor(OPT(vt), "Some")
    i = z3.Int("e!%d" % next(eng.cnt))
    k = z3.Const("ek!%d" % next(eng.cnt), ks)
    t = m.t
    fs = [ln(t) >= 0,
          forall(i, z3.Implies(z3.And(i >= 0, i < ln(t)), z3.And(some[1](z3.Select(t, key(t, i))), pos(t, key(t, i)) == i)), [key(t, i)]),
          forall(k, z3.Implies(some[1](z3.Select(t, k)), z3.And(pos(t, k) >= 0, pos(t, k) < ln(t), key(t, pos(t, k)) == k)), None)]
    mark = ("ents", t.get_id())
    if mark not in eng.ent_seen or True:
        st.facts.extend(fs)
    return ln(t), lambda x: key(t, x)


def map_iter(eng, st, m, what, mutref=None):
    m = eng.as_T(st, m)
    kt, vt = m.ty[2]
    n, key = ents(eng, st, m)
    some = eng.ty.constructor(OPT(vt), "Some")

    def gen(e, s, i):
        k = T(key(i), kt)
        e.touch(s, k)
        if what == "keys":
            return [(s, "item", k)]
        v = T(some[2][0](z3.Select(m.t, key(i))), vt)
        e.touch(s, v)
        if what == "values":
            return [(s, "item", v)]
        return [(s, "item", Agg(("tuple", (kt, vt)), "", (k, v)))]
    et = {"keys": kt, "values": vt, "items": ("tuple", (kt, vt))}[what]
    it = It(n, gen, True, et)
    it.src = ("map", m, what)
    return it


def set_iter(eng, st, s_):
    kt = s_.ty[2][0]
    ms = s_.t.sort()
    ln = z3.Function("set_len:" + str(ms), ms, z3.IntSort())
    key = z3.Function("set_key:" + str(ms), ms, z3.IntSort(), eng.ty.sort(kt))
    pos = z3.Function("set_pos:" + str(ms), ms, eng.ty.sort(kt), z3.IntSort())
    i = z3.Int("e!%d" % next(eng.cnt))
    k = z3.Const("ek!%d" % next(eng.cnt), eng.ty.sort(kt))
    t = s_.t
    st.facts.extend([ln(t) >= 0,
                     forall(i, z3.Implies(z3.And(i >= 0, i < ln(t)), z3.And(z3.Select(t, key(t, i)), pos(t, key(t, i)) == i)), [key(t, i)]),
                     forall(k, z3.Implies(z3.Select(t, k), z3.And(pos(t, k) >= 0, pos(t, k) < ln(t), key(t, pos(t, k)) == k)))])
    return It(ln(t), lambda e, s, i: [(s, "item", T(key(t, i), kt))], True, kt)


def list_iter(eng, st, v, mut=None):
    """iterator over a Vec value; mut=(cell, path) for iter_mut"""
    v = eng.deref(st, v)
    if isinstance(v, ListV):
        items = v.items
        et = v.elem

        def gen(e, s, i):
            k = conc(i)
            if k is None:
                vv = e.as_T(s, v)
                return [(s, "item", T(e.seq_at(vv.t, i), et))]
            if mut:
                s = s.copy()
                s.cells[mut[2]] = e.read(s, mut[0], mut[1] + (("idx", i),))
                return [(s, "item", Ref(mut[2], (), et))]
            return [(s, "item", items[k])]
        it = It(len(items), gen, True, et)
    else:
        if v.ty == BYTES:
            raise Unsupported("iteration over bytes")
        et = v.ty[2][0]
        n = eng.seq_len(v.t)

        def gen(e, s, i):
            if mut:
                s = s.copy()
                x = T(e.seq_at(v.t, i), et)
                e.touch(s, x)
                s.cells[mut[2]] = x
                return [(s, "item", Ref(mut[2], (), et))]
            x = T(e.seq_at(v.t, i), et)
            e.touch(s, x)
            return [(s, "item", x)]
        it = It(n, gen, True, et)
        it.src = ("seq", v)
    if mut:
        it.muts = [mut]
    return it
