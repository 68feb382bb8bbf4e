"""for loops over a sequence of symbolic length: the blocks from the loop head back to it are the body."""
import z3

from engine import T, Agg, It, Outcome, PANIC, RET, Unsupported
from types_ import OPT
import seq


def handle(frame, st, path, args, bb, visits, place, ret, it):
    """called at `place = Iterator::next(it) -> ret` in block bb; returns [(state, next)] for the frame"""
    eng = frame.eng
    iref = args[0]
    oc = ("loopiter", next(eng.fid))

    def put(s, v):
        c, p = eng.loc(s, frame.fid, place)
        eng.write(s, c, p, v)

    def body(s, v, i):
        s = s.copy()
        put(s, eng.some(v, getattr(eng.deref(s, v), "ty", None) or it.elem))
        out = []
        for o in frame.run_from(s, ret, bb):
            if o.kind == "stop":
                # temporaries of the body are dead at the head
                out.append((o.st, "cont", None))
            elif o.kind == PANIC:
                out.append((o.st, "panic", None))
            else:
                out.append((o.st, "brk", ("out", o.kind, o.v)))
        return out

    # locals assigned inside the body and not before it are body temporaries: seq only tracks cells present before
    live = live_at(frame, bb)
    s0 = st.copy()
    for k in [k for k in s0.cells if k[0] == frame.fid and isinstance(k[1], int) and k[1] not in live]:
        del s0.cells[k]
    res = []
    for kind, s, v in seq.run(eng, s0, it, body):
        if kind == "done":
            put(s, eng.none(it.elem or ("opaque", "item")))
            res.append((s, ret))
        elif kind == "panic":
            res.append((s, "panic"))
        else:
            res.append((s, v))
    return res


def live_at(frame, bb):
    """locals that may be read before being overwritten on some path from block bb (a syntactic liveness analysis)"""
    fn = frame.fn
    use, defs, succ = {}, {}, {}
    import re
    for b, blk in fn.blocks.items():
        u, d = set(), set()
        for s in blk["stmts"]:
            t = s["text"]
            i = find_assign(t)
            lhs, rhs = (t[:i], t[i + 3:]) if i >= 0 else ("", t)
            for m in re.finditer(r"\b_(\d+)\b", rhs):
                if int(m.group(1)) not in d:
                    u.add(int(m.group(1)))
            m = re.match(r"^_(\d+)$", lhs.strip())
            if m:
                d.add(int(m.group(1)))
            else:
                for m in re.finditer(r"\b_(\d+)\b", lhs):
                    if int(m.group(1)) not in d:
                        u.add(int(m.group(1)))
        use[b], defs[b] = u, d
        last = blk["stmts"][-1]["text"]
        if "drop(" in last[:5]:
            use[b] -= {int(x) for x in re.findall(r"^drop\(_(\d+)\)", last)}
        succ[b] = [int(x) for x in re.findall(r"\bbb(\d+)\b", last)]
    live = {b: set() for b in fn.blocks}
    ch = True
    while ch:
        ch = False
        for b in fn.blocks:
            out = set()
            for s in succ[b]:
                out |= live.get(s, set())
            n = use[b] | (out - defs[b])
            if n != live[b]:
                live[b] = n
                ch = True
    r = live[bb] | {0}
    # a cell another live local refers to is live as well
    return r | refs(frame)


def refs(frame):
    """locals whose address is taken: conservatively live"""
    import re
    out = set()
    for b, blk in frame.fn.blocks.items():
        for s in blk["stmts"]:
            for m in re.finditer(r"&mut \(?\*?_(\d+)", s["text"]):
                out.add(int(m.group(1)))
    return out


def find_assign(t):
    from engine import find_assign as f
    return f(t)
