"""Parser for rustc's textual MIR (rustc 1.71, --emit=mir -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no).

Functions are indexed by header and parsed lazily.  Nothing is dropped except unwind (cleanup) blocks,
StorageLive/StorageDead markers and debug-scope comments.
"""
import re
from functools import lru_cache

# ----------------------------------------------------------------------------- types


class TypeParseError(Exception):
    pass


_tok_re = re.compile(
    r"\s*(?:"
    r"(?P<closure>\[closure@[^\]]*\])"
    r"|(?P<impl_at><impl at [^>]*>)"
    r"|(?P<lt>'[A-Za-z_][A-Za-z_0-9]*)"
    r"|(?P<closureseg>\{closure#\d+\}|\{impl#\d+\}|\{constant#\d+\})"
    r"|(?P<arrow>->)|(?P<dcolon>::)"
    r"|(?P<id>[A-Za-z_][A-Za-z_0-9]*)"
    r"|(?P<num>\d[0-9A-Za-z_]*)"
    r"|(?P<str>\"(?:[^\"\\]|\\.)*\")"
    r"|(?P<p>[<>()\[\],&*!;:+=?{}#@.\-]))"
)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = _tok_re.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "":
                break
            raise TypeParseError("cannot tokenize %r at %d" % (s, i))
        kind = m.lastgroup
        out.append((kind, m.group(kind)))
        i = m.end()
    return out


# Types are tuples:
#  ('adt', 'a::b::C', (args...))   ('ref', mut:bool, t)   ('ptr', t)   ('tuple', (ts...))
#  ('slice', t)  ('array', t, n)   ('closure', 'file:l:c: l:c')  ('dyn', path)  ('never',)
#  ('fn', ...)   ('proj', self, trait, name)   ('impl', text) ('prim', name)
PRIMS = {
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize",
    "bool", "char", "str", "f32", "f64",
}


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise TypeParseError("expected %r got %r in %r" % (v, x, self.t))
        return x

    # -- types
    def ty(self):
        k, v = self.peek()
        if v == "&":
            self.next()
            if self.peek()[0] == "lt":
                self.next()
            mut = self.accept("mut")
            return ("ref", mut, self.ty())
        if v == "*":
            self.next()
            self.next()  # const | mut
            return ("ptr", self.ty())
        if v == "!":
            self.next()
            return ("never",)
        if v == "(":
            self.next()
            ts = []
            while not self.accept(")"):
                ts.append(self.ty())
                if not self.accept(","):
                    self.expect(")")
                    break
            return ("tuple", tuple(ts))
        if k == "closure":
            self.next()
            return ("closure", v[len("[closure@"):-1])
        if v == "[":
            self.next()
            t = self.ty()
            if self.accept(";"):
                n = ""
                while self.peek()[1] != "]":
                    n += str(self.next()[1])
                self.expect("]")
                return ("array", t, n)
            self.expect("]")
            return ("slice", t)
        if v == "dyn":
            self.next()
            return self.bounds("dyn")
        if v == "impl":
            self.next()
            return self.bounds("impl")
        if v == "for":
            self.next()
            self.expect("<")
            self.skip_angle()
            return self.ty()
        if v in ("unsafe",):
            self.next()
            return self.ty()
        if v == "extern":
            self.next()
            self.next()
            return self.ty()
        if v == "fn":
            self.next()
            self.expect("(")
            ts = []
            while not self.accept(")"):
                ts.append(self.ty())
                if not self.accept(","):
                    self.expect(")")
                    break
            r = ("tuple", ())
            if self.accept("->"):
                r = self.ty()
            # fn item types: fn(..) -> T {path}
            if self.peek()[1] == "{":
                self.next()
                p = self.path()
                self.expect("}")
                return ("fnitem", p)
            return ("fn", tuple(ts), r)
        p = self.path()
        return path_to_ty(p)

    def skip_angle(self):
        d = 1
        while d:
            v = self.next()[1]
            if v == "<":
                d += 1
            elif v == ">":
                d -= 1
            elif v is None:
                raise TypeParseError("unbalanced")

    def bounds(self, kind):
        b = []
        while True:
            if self.peek()[0] == "lt":
                self.next()
            else:
                if self.accept("for"):
                    self.expect("<")
                    self.skip_angle()
                if self.accept("?"):
                    pass
                if self.accept("("):
                    x = self.bounds(kind)
                    self.expect(")")
                    b.append(x[1])
                else:
                    b.append(self.path())
            if not self.accept("+"):
                break
        return (kind, b[0] if b else None)

    # -- paths: list of segments; each ('seg', name, generics) ; or first ('q', selfty, traitpath)
    def path(self):
        segs = []
        k, v = self.peek()
        if v == "<":
            self.next()
            st = self.ty()
            tr = None
            if self.accept("as"):
                tr = self.path()
            self.expect(">")
            segs.append(("q", st, tr))
            if not self.accept("::"):
                return tuple(segs)
        while True:
            k, v = self.peek()
            if k == "impl_at":
                self.next()
                segs.append(("implat", v[len("<impl at "):-1]))
            elif k in ("id", "closureseg"):
                self.next()
                gen = ()
                # generics directly (types) or turbofish
                if self.peek()[1] == "<" :
                    self.next()
                    gen = self.generics()
                elif self.peek()[1] == "(" and v in ("Fn", "FnMut", "FnOnce"):
                    self.next()
                    ts = []
                    while not self.accept(")"):
                        ts.append(self.ty())
                        if not self.accept(","):
                            self.expect(")")
                            break
                    if self.accept("->"):
                        self.ty()
                    gen = (("tuple", tuple(ts)),)
                segs.append(("seg", v, gen))
            elif v == "<":
                # `::<...>` turbofish, or `::<impl [T]>` / `<impl Trait for T>`
                self.next()
                if self.peek()[1] == "impl":
                    self.next()
                    t = self.ty()
                    if self.accept("for"):
                        t2 = self.ty()
                        self.expect(">")
                        segs.append(("implfor", t2, t))
                    else:
                        self.expect(">")
                        segs.append(("implty", t))
                else:
                    gen = self.generics()
                    if not segs:
                        raise TypeParseError("turbofish first")
                    last = segs[-1]
                    if last[0] == "seg":
                        segs[-1] = ("seg", last[1], last[2] + gen)
                    else:
                        segs.append(("seg", "", gen))
            else:
                raise TypeParseError("bad path token %r in %r" % ((k, v), self.t))
            if not self.accept("::"):
                return tuple(segs)

    def generics(self):
        out = []
        while not self.accept(">"):
            k, v = self.peek()
            if k == "lt":
                self.next()
            elif k == "num" or (v == "-" ):
                self.next()
                out.append(("const", v))
            elif k == "id" and self.peek(1)[1] == "=" :
                name = v
                self.next()
                self.next()
                out.append(("assoc", name, self.ty()))
            elif v == "{":
                d = 1
                self.next()
                while d:
                    x = self.next()[1]
                    if x == "{":
                        d += 1
                    elif x == "}":
                        d -= 1
                out.append(("const", "?"))
            else:
                out.append(self.ty())
            if not self.accept(","):
                self.expect(">")
                break
        return tuple(out)


def path_to_ty(p):
    if p[0][0] == "q":
        q = p[0]
        if len(p) == 2 and q[2] is not None:
            return ("proj", q[1], path_to_ty(q[2]), p[1][1])
        if len(p) == 1:
            return q[1]
        return ("adt", "<" + show(q[1]) + ">::" + "::".join(x[1] for x in p[1:] if x[0] == "seg"), ())
    if len(p) == 1 and p[0][0] == "seg" and p[0][1] in PRIMS:
        return ("prim", p[0][1])
    names = []
    gens = ()
    for s in p:
        if s[0] == "seg":
            names.append(s[1])
            gens = gens + s[2]
        elif s[0] == "implat":
            names.append("<impl at %s>" % s[1])
        else:
            names.append("<impl>")
    gens = tuple(g for g in gens if g[0] != "assoc")
    return ("adt", "::".join(names), gens)


def show(t):
    k = t[0]
    if k == "adt":
        return t[1] + ("<" + ", ".join(show(a) for a in t[2]) + ">" if t[2] else "")
    if k == "ref":
        return "&" + ("mut " if t[1] else "") + show(t[2])
    if k == "tuple":
        return "(" + ", ".join(show(a) for a in t[1]) + ")"
    if k == "slice":
        return "[" + show(t[1]) + "]"
    if k == "array":
        return "[" + show(t[1]) + "; " + t[2] + "]"
    if k == "prim":
        return t[1]
    if k == "closure":
        return "[closure@" + t[1] + "]"
    if k == "proj":
        return "<%s as %s>::%s" % (show(t[1]), show(t[2]), t[3])
    if k == "const":
        return t[1]
    if k == "dyn":
        return "dyn " + show(path_to_ty(t[1]))
    if k == "impl":
        return "impl " + show(path_to_ty(t[1]))
    return str(t)


@lru_cache(maxsize=None)
def parse_type(s):
    p = P(tokenize(s))
    t = p.ty()
    if p.i != len(p.t):
        raise TypeParseError("trailing tokens in type %r: %r" % (s, p.t[p.i:]))
    return t


@lru_cache(maxsize=None)
def parse_path(s):
    p = P(tokenize(s))
    t = p.path()
    if p.i != len(p.t):
        raise TypeParseError("trailing tokens in path %r: %r" % (s, p.t[p.i:]))
    return t


# ----------------------------------------------------------------------------- bodies


class Fn:
    __slots__ = ("crate", "name", "args", "ret", "locals", "blocks", "debug", "kind", "lines", "promoted_of", "file", "parsed")

    def __repr__(self):
        return "<fn %s::%s>" % (self.crate, self.name)


_span_comment = re.compile(r"// scope \d+ at ([^ ]+:\d+:\d+: \d+:\d+)")
_scope_comment = re.compile(r"\s+// (?:in scope|scope|return place in scope) .*$")
_hdr = re.compile(r"^(fn|const|static|static mut|promoted\[\d+\] in) (.*?)(?:\((_1: .*?|)\) -> (.*?) \{|: (.*) = \{)\s*$")


def balanced_split(s, sep=","):
    out, depth, cur, instr = [], 0, "", False
    i = 0
    while i < len(s):
        c = s[i]
        if instr:
            cur += c
            if c == "\\":
                i += 1
                cur += s[i]
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
            cur += c
        elif c == "'" and i + 2 < len(s) and (s[i + 2] == "'" or s[i + 1] == "\\"):
            # char literal
            j = s.index("'", i + 2 if s[i + 1] != "\\" else i + 3)
            cur += s[i:j + 1]
            i = j
        elif c in "([{<":
            depth += 1
            cur += c
        elif c in ")]}" or (c == ">" and s[i - 1] != "-" and s[i - 1] != "="):
            depth -= 1
            cur += c
        elif c == sep and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


class Module:
    """All the MIR of one crate."""

    def __init__(self, crate, path):
        self.crate = crate
        self.path = path
        self.fns = {}      # name -> Fn
        self.consts = {}   # name -> Fn
        self.promoted = {} # (owner, idx) -> Fn
        self.dups = {}
        self.all_fns = []
        with open(path) as f:
            lines = f.read().split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l and l[0] not in " }/" and l.endswith("{"):
                j = i + 1
                while j < n and lines[j] != "}":
                    j += 1
                self._header(l, lines[i + 1:j])
                i = j + 1
            else:
                i += 1

    def _header(self, l, body):
        f = Fn()
        f.crate = self.crate
        f.lines = body
        f.parsed = False
        f.debug = {}
        f.promoted_of = None
        if l.startswith("fn "):
            f.kind = "fn"
            # name up to the '(' that starts "(_1:" or "()"
            m = re.match(r"^fn (.*?)\((_1: .*)?\) -> (.*) \{$", l)
            if not m:
                return
            f.name = m.group(1)
            rest = l[len("fn ") + len(f.name):]
            # split args / ret with balance
            depth = 0
            for k, c in enumerate(rest):
                if c in "([{<":
                    depth += 1
                elif c in ")]}" or (c == ">" and rest[k - 1] != "-"):
                    depth -= 1
                    if depth == 0:
                        break
            f.args = rest[1:k]
            f.ret = rest[k + 1:].strip()[len("-> "):-2].strip()
            self.all_fns.append(f)
            if f.name in self.fns:
                self.dups.setdefault(f.name, [self.fns[f.name]]).append(f)
            self.fns[f.name] = f
        elif l.startswith("promoted["):
            m = re.match(r"^promoted\[(\d+)\] in (.*?): (.*) = \{$", l)
            if not m:
                return
            # name may contain ": " inside <impl at ..:..: ..>; find the split with balance
            idx = int(m.group(1))
            rest = l[l.index(" in ") + 4:]
            name, ty = split_colon(rest[:-len(" = {")])
            f.kind = "promoted"
            f.name, f.args, f.ret = name, "", ty
            self.promoted[(name, idx)] = f
        elif l.startswith("const ") or l.startswith("static "):
            rest = l.split(" ", 1)[1][:-len(" = {")]
            name, ty = split_colon(rest)
            f.kind = "const"
            f.name, f.args, f.ret = name, "", ty
            self.consts[name] = f

    def parse(self, f):
        if f.parsed:
            return f
        f.parsed = True
        f.locals = {}
        if isinstance(f.args, str):
            args = []
            for a in balanced_split(f.args):
                m = re.match(r"^_(\d+): (.*)$", a)
                args.append((int(m.group(1)), parse_type(m.group(2))))
                f.locals[int(m.group(1))] = parse_type(m.group(2))
            f.args = args
        f.ret = parse_type(f.ret) if isinstance(f.ret, str) else f.ret
        f.locals[0] = f.ret
        f.blocks = {}
        cur = None
        pend = None
        for l in f.lines:
            s = l.strip()
            if not s:
                continue
            if s.startswith("//"):
                if pend is not None and s.startswith("// + literal: Const"):
                    # attach to previous statement; several constants are possible
                    pend.setdefault("lits", []).append(s[len("// + literal: "):])
                continue
            l2 = _scope_comment.sub("", l)
            s = l2.strip()
            if cur is None:
                m = re.match(r"^(?:let )(?:mut )?_(\d+): (.*);$", s)
                if m:
                    f.locals[int(m.group(1))] = parse_type(m.group(2))
                    continue
                m = re.match(r"^debug (\S+) => (.*);$", s)
                if m:
                    f.debug.setdefault(m.group(1), m.group(2))
                    continue
            m = re.match(r"^bb(\d+)( \(cleanup\))?: \{$", s)
            if m:
                cur = int(m.group(1))
                f.blocks[cur] = {"cleanup": bool(m.group(2)), "stmts": []}
                continue
            if s == "}" or s.startswith("scope "):
                if s == "}" and cur is not None and l.startswith("    }"):
                    cur = None if False else cur
                continue
            if cur is not None:
                m = re.match(r"^debug (\S+) => (.*);$", s)
                if m:
                    continue
                pend = {"text": s[:-1] if s.endswith(";") else s}
                m = _span_comment.search(l)
                if m:
                    pend["span"] = m.group(1)
                if s.startswith("StorageLive") or s.startswith("StorageDead"):
                    continue
                f.blocks[cur]["stmts"].append(pend)
        return f


def split_colon(s):
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c in "([{<":
            depth += 1
        elif c in ")]}" or (c == ">" and s[i - 1] != "-"):
            depth -= 1
        elif c == ":" and depth == 0 and s[i + 1] == " ":
            return s[:i], s[i + 2:]
        i += 1
    raise ValueError(s)


# ----------------------------------------------------------------------------- places, operands, statements

# place: (local, [proj...]); proj: ('deref',) ('field', idx, ty) ('down', variant) ('index', local) ('cidx', n, fromend) ('sub',a,b)


class PlaceP:
    """Recursive descent over the place syntax."""

    def __init__(self, s):
        self.s = s
        self.i = 0

    def parse(self):
        base = self.base()
        while self.i < len(self.s):
            if self.s[self.i] == "[":
                j = self.s.index("]", self.i)
                inner = self.s[self.i + 1:j]
                self.i = j + 1
                m = re.match(r"^_(\d+)$", inner)
                if m:
                    base = (base[0], base[1] + [("index", int(m.group(1)))])
                else:
                    m = re.match(r"^(-?)(\d+) of (\d+)$", inner)
                    if m:
                        base = (base[0], base[1] + [("cidx", int(m.group(2)), m.group(1) == "-")])
                    else:
                        m = re.match(r"^(\d+):(-?\d*)$", inner)
                        if not m:
                            raise ValueError("place " + self.s)
                        base = (base[0], base[1] + [("sub", m.group(1), m.group(2))])
            else:
                break
        return base

    def base(self):
        s = self.s
        if s[self.i] == "_":
            m = re.match(r"_(\d+)", s[self.i:])
            self.i += m.end()
            return (int(m.group(1)), [])
        assert s[self.i] == "(", s
        self.i += 1
        if s[self.i] == "*":
            self.i += 1
            b = self.inner()
            assert s[self.i] == ")", (s, self.i)
            self.i += 1
            return (b[0], b[1] + [("deref",)])
        b = self.inner()
        if s.startswith(" as ", self.i):
            j = s.index(")", self.i)
            var = s[self.i + 4:j]
            self.i = j + 1
            return (b[0], b[1] + [("down", var)])
        if s[self.i] == ".":
            m = re.match(r"\.(\d+): ", s[self.i:])
            self.i += m.end()
            depth = 0
            j = self.i
            while True:
                c = s[j]
                if c in "([{<":
                    depth += 1
                elif c in "]}" or (c == ">" and s[j - 1] != "-"):
                    depth -= 1
                elif c == ")":
                    if depth == 0:
                        break
                    depth -= 1
                j += 1
            ty = s[self.i:j]
            self.i = j + 1
            return (b[0], b[1] + [("field", int(m.group(1)), parse_type(ty))])
        raise ValueError("place %r at %d" % (s, self.i))

    def inner(self):
        b = self.base()
        while self.i < len(self.s) and self.s[self.i] == "[":
            j = self.s.index("]", self.i)
            inner = self.s[self.i + 1:j]
            self.i = j + 1
            m = re.match(r"^_(\d+)$", inner)
            if m:
                b = (b[0], b[1] + [("index", int(m.group(1)))])
            else:
                m = re.match(r"^(-?)(\d+) of (\d+)$", inner)
                b = (b[0], b[1] + [("cidx", int(m.group(2)), m.group(1) == "-")])
        return b


@lru_cache(maxsize=None)
def parse_place(s):
    p = PlaceP(s)
    r = p.parse()
    if p.i != len(s):
        raise ValueError("place %r" % s)
    return r


def parse_literal(lit):
    """'Const { ty: T, val: V }' -> (ty text, val text)"""
    inner = lit[len("Const { "):-2]
    parts = balanced_split(inner)
    d = {}
    for p in parts:
        k, v = p.split(": ", 1)
        d[k] = v
    return d


