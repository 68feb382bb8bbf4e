"""Source-level information the MIR text does not carry: struct/enum layouts and impl headers.

A small Rust item scanner; it reads /repo's current sources (and cosmwasm-std's, for its message types)."""
import os
import re

from mir import parse_type, TypeParseError


def blank(src):
    """Replace comments and string/char literals by spaces of the same length (newlines kept)."""
    out = list(src)
    i, n = 0, len(src)

    def wipe(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "

    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            wipe(i, j)
            i = j
        elif src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            wipe(i, j)
            i = j
        elif c == '"' or (c == "r" and re.match(r'r#*"', src[i:i + 8]) and not (i and (src[i - 1].isalnum() or src[i - 1] == "_"))):
            if c == '"':
                j = i + 1
                while src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                j += 1
            else:
                m = re.match(r'r(#*)"', src[i:])
                end = '"' + m.group(1)
                j = src.index(end, i + m.end()) + len(end)
            wipe(i + 1, j - 1)
            i = j
        elif c == "'" and re.match(r"'(\\.[^']*|[^\\'])'", src[i:i + 12]):
            m = re.match(r"'(\\.[^']*|[^\\'])'", src[i:i + 12])
            wipe(i + 1, i + m.end() - 1)
            i += m.end()
        else:
            i += 1
    return "".join(out)


def match_close(s, i):
    o = s[i]
    c = {"{": "}", "(": ")", "[": "]", "<": ">"}[o]
    d = 0
    while i < len(s):
        if s[i] == o:
            d += 1
        elif s[i] == c and not (c == ">" and s[i - 1] in "-="):
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ValueError("unbalanced")


def split_top(s, sep=","):
    out, d, cur = [], 0, ""
    for k, c in enumerate(s):
        if c in "([{<":
            d += 1
        elif c in ")]}" or (c == ">" and s[k - 1] not in "-="):
            d -= 1
        if c == sep and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


def strip_attrs(s):
    s = s.strip()
    attrs = []
    while s.startswith("#"):
        j = match_close(s, s.index("["))
        attrs.append(s[:j + 1])
        s = s[j + 1:].strip()
    return attrs, s


class Def:
    def __init__(self, kind, crate, module, name, generics, file):
        self.kind, self.crate, self.module, self.name = kind, crate, module, name
        self.generics, self.file = generics, file
        self.variants = []  # list of (vname, [(fname, type text)], explicit discriminant or None)
        self.attrs = []

    @property
    def path(self):
        return "::".join([self.crate] + self.module + [self.name])

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.path)


class Sources:
    def __init__(self):
        self.defs = {}       # (crate, name) -> [Def]
        self.uses = {}       # file -> {name: [segs]}
        self.globs = {}
        self.files = {}
        self.aliases = {}    # (crate, name) -> (type text, file, module)
        self.reexports = {}  # (crate, name) -> [segs]

    def add_crate(self, crate, root):
        src = os.path.join(root, "src")
        for d, _, fs in os.walk(src):
            for f in sorted(fs):
                if not f.endswith(".rs"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, src)[:-3].split(os.sep)
                if rel[-1] in ("lib", "mod", "main"):
                    rel = rel[:-1]
                if rel and rel[0] == "bin":
                    continue
                self.scan(crate, rel, p)

    def scan(self, crate, module, path):
        with open(path, encoding="utf-8") as fh:
            raw = fh.read()
        b = blank(raw)
        self.files[path] = raw
        self.uses.setdefault(path, {})
        self.globs.setdefault(path, [])
        self._items(crate, module, path, b, 0, len(b))

    @staticmethod
    def _disc(text, variants):
        """value of a discriminant expression over earlier variants (flags! { C = (E::A | E::B).bits() })"""
        known = {}
        n = 0
        for vn, _, ex in variants:
            n = ex if ex is not None else n
            known[vn] = n
            n += 1
        t = re.sub(r"\.\s*bits\s*\(\s*\)", "", text)
        t = re.sub(r"(?:\w+\s*::\s*)+(\w+)", lambda m: str(known.get(m.group(1), "?")), t)
        t = t.replace("_", "").strip()
        if re.fullmatch(r"[0-9|&^()<>\s]+", t):
            return eval(t)
        return None

    def _items(self, crate, module, path, b, lo, hi):
        i = lo
        item = re.compile(r"\b(?:(pub(?:\s*\([^)]*\))?)\s+)?(struct|enum|mod|use|type|impl|fn|trait|macro_rules|extern|union)\b")
        while True:
            m = item.search(b, i, hi)
            if not m:
                return
            kind = m.group(2)
            # attributes right before
            j = m.start()
            attrs = ""
            k = j
            while True:
                t = b[lo:k].rstrip()
                if t.endswith("]"):
                    # find the matching '#['
                    d = 0
                    q = lo + len(t) - 1
                    while q >= lo:
                        if b[q] == "]":
                            d += 1
                        elif b[q] == "[":
                            d -= 1
                            if d == 0:
                                break
                        q -= 1
                    if q > 0 and b[q - 1] == "#":
                        attrs = self.files[path][q - 1:lo + len(t)] + "\n" + attrs
                        k = q - 1
                        continue
                break
            if kind == "use":
                e = b.index(";", m.end())
                self._use(crate, module, path, b[m.end():e].strip(), bool(m.group(1)))
                i = e + 1
                continue
            if kind == "mod":
                mm = re.match(r"\s*(\w+)\s*([;{])", b[m.end():hi])
                if not mm:
                    i = m.end()
                    continue
                if mm.group(2) == "{":
                    o = m.end() + mm.end() - 1
                    c = match_close(b, o)
                    if "cfg(test)" not in attrs:
                        self._items(crate, module + [mm.group(1)], path, b, o + 1, c)
                    i = c + 1
                else:
                    i = m.end() + mm.end()
                continue
            if kind == "type":
                mm = re.match(r"\s*(\w+)\s*(?:<[^=;]*>)?\s*=\s*([^;]*);", b[m.end():hi])
                if mm:
                    self.aliases[(crate, mm.group(1))] = (mm.group(2).strip(), path, module)
                    i = m.end() + mm.end()
                else:
                    i = m.end()
                continue
            if kind in ("struct", "enum"):
                mm = re.match(r"\s*(\w+)\s*", b[m.end():hi])
                if not mm:
                    i = m.end()
                    continue
                name = mm.group(1)
                p = m.end() + mm.end()
                gens = []
                if p < hi and b[p] == "<":
                    c = match_close(b, p)
                    for g in split_top(b[p + 1:c]):
                        g = g.strip()
                        if g.startswith("'") or not g:
                            continue
                        gens.append(re.match(r"(?:const\s+)?(\w+)", g).group(1))
                    p = c + 1
                d = Def(kind, crate, list(module), name, gens, path)
                d.attrs = attrs
                # skip where clause
                q = p
                while q < hi and b[q] not in "{(;":
                    q += 1
                if b[q] == ";":
                    d.variants = [(name, [], None)]
                    e = q
                elif b[q] == "(" and kind == "struct":
                    c = match_close(b, q)
                    d.variants = [(name, self._fields(b[q + 1:c], True), None)]
                    e = b.index(";", c)
                else:
                    c = match_close(b, q)
                    inner = b[q + 1:c]
                    if kind == "struct":
                        d.variants = [(name, self._fields(inner, False), None)]
                    else:
                        for v in split_top(inner):
                            _, v = strip_attrs(v)
                            if not v:
                                continue
                            vm = re.match(r"(\w+)\s*", v)
                            vn = vm.group(1)
                            rest = v[vm.end():].strip()
                            disc = None
                            fl = []
                            if rest.startswith("("):
                                cc = match_close(rest, 0)
                                fl = self._fields(rest[1:cc], True)
                                rest = rest[cc + 1:].strip()
                            elif rest.startswith("{"):
                                cc = match_close(rest, 0)
                                fl = self._fields(rest[1:cc], False)
                                rest = rest[cc + 1:].strip()
                            if rest.startswith("="):
                                try:
                                    disc = int(rest[1:].strip().replace("_", ""), 0)
                                except ValueError:
                                    disc = self._disc(rest[1:], d.variants)
                            d.variants.append((vn, fl, disc))
                    e = c
                self.defs.setdefault((crate, name), []).append(d)
                i = e + 1
                continue
            # impl / fn / trait / macro: skip the body
            if kind == "macro_rules":
                mm = re.match(r"\s*!\s*\w+\s*([{(\[])", b[m.end():hi])
                i = m.end() if mm is None else match_close(b, m.end() + mm.end() - 1) + 1
                continue
            q = m.end()
            depth = 0
            while q < hi and not (b[q] in "{;" and depth == 0):
                if b[q] in "([":
                    depth += 1
                elif b[q] in ")]":
                    depth -= 1
                q += 1
            if q < hi and b[q] == "{":
                i = match_close(b, q) + 1
            else:
                i = q + 1

    def _fields(self, s, tup):
        out = []
        for k, f in enumerate(split_top(s)):
            _, f = strip_attrs(f)
            f = re.sub(r"^pub(\s*\([^)]*\))?\s+", "", f.strip())
            if not f:
                continue
            if tup:
                out.append((str(k), " ".join(f.split())))
            else:
                n, t = f.split(":", 1)
                out.append((n.strip().replace("r#", ""), " ".join(t.split())))
        return out

    def _use(self, crate, module, path, text, public):
        def expand(prefix, t):
            t = t.strip()
            m = re.match(r"^(.*?)\{(.*)\}$", t, re.S)
            if m:
                pre = [x for x in m.group(1).strip().split("::") if x.strip()]
                for part in split_top(m.group(2)):
                    yield from expand(prefix + [x.strip() for x in pre], part)
            elif t:
                am = re.match(r"^(.*?)\s+as\s+(\w+)$", t)
                alias = None
                if am:
                    t, alias = am.group(1), am.group(2)
                segs = prefix + [x.strip() for x in t.split("::") if x.strip()]
                yield segs, alias
        for segs, alias in expand([], " ".join(text.split())):
            if segs[-1] == "self":
                segs = segs[:-1]
            if segs[-1] == "*":
                self.globs[path].append(segs[:-1])
                continue
            full = self.absolute(crate, module, segs)
            self.uses[path][alias or segs[-1]] = full
            if public:
                self.reexports[(crate, alias or segs[-1])] = full

    def absolute(self, crate, module, segs):
        if segs[0] == "crate":
            return [crate] + segs[1:]
        if segs[0] == "self":
            return [crate] + module + segs[1:]
        if segs[0] == "super":
            m = list(module)
            s = list(segs)
            while s and s[0] == "super":
                m = m[:-1]
                s = s[1:]
            return [crate] + m + s
        return list(segs)

    def impl_header(self, file, l1, c1, l2, c2):
        raw = self.files.get(file)
        if raw is None:
            with open(file, encoding="utf-8") as fh:
                raw = self.files[file] = fh.read()
        lines = raw.split("\n")
        if l1 == l2:
            return lines[l1 - 1][c1 - 1:c2 - 1]
        return " ".join([lines[l1 - 1][c1 - 1:]] + lines[l1:l2 - 1] + [lines[l2 - 1][:c2 - 1]])
