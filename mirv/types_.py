"""Rust types -> canonical types -> z3 sorts."""
import z3
from mir import parse_type, show, path_to_ty

STD_ROOTS = {"std", "core", "alloc"}

INT_BOUNDS = {
    "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1),
    "u128": (0, 2**128 - 1), "usize": (0, 2**64 - 1),
    "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
    "i64": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1), "isize": (-2**63, 2**63 - 1),
    "char": (0, 0x10FFFF),
    "Uint64": (0, 2**64 - 1), "Uint128": (0, 2**128 - 1), "Uint256": (0, 2**256 - 1), "Uint512": (0, 2**512 - 1),
    "Timestamp": (0, 2**64 - 1),
    "U256": (0, 2**256 - 1),
}
CW_INTS = {"Uint64", "Uint128", "Uint256", "Uint512", "Timestamp"}

UNIT = ("tuple", ())
BOOL = ("bool",)
STR = ("adt", "String", ())
BYTES = ("adt", "Bytes", ())
U64 = ("int", "u64")
USIZE = ("int", "usize")


def OPT(t):
    return ("adt", "Option", (t,))


def RES(t, e):
    return ("adt", "Result", (t, e))


def VEC(t):
    if t == ("int", "u8"):
        return BYTES
    return ("adt", "Vec", (t,))


def tname(t):
    k = t[0]
    if k == "adt":
        return t[1].replace("::", ".") + ("<" + ",".join(tname(a) for a in t[2]) + ">" if t[2] else "")
    if k == "tuple":
        return "(" + ",".join(tname(a) for a in t[1]) + ")"
    if k == "int":
        return t[1]
    if k == "bool":
        return "bool"
    return "_".join(str(x) for x in t)


class Types:
    def __init__(self, sources, crates):
        self.src = sources
        self.crates = set(crates)
        self.sorts = {}
        self.dts = {}
        self.defcache = {}

    # ------------------------------------------------------------------ definitions
    def find_def(self, segs, crate):
        """segs: path segments incl. crate as first (absolute).  Returns Def or None."""
        key = (tuple(segs), crate)
        if key in self.defcache:
            return self.defcache[key]
        r = self._find_def(segs, crate)
        self.defcache[key] = r
        return r

    def _find_def(self, segs, crate):
        c, name = segs[0], segs[-1]
        cands = self.src.defs.get((c, name), [])
        if not cands:
            # re-exported from another crate
            re_ = self.src.reexports.get((c, name))
            if re_ and re_[0] != c:
                return self.find_def(re_, crate)
            return None
        if len(cands) == 1:
            return cands[0]
        mids = segs[1:-1]
        best = []
        for d in cands:
            # module path must contain mids as a subsequence (visible path vs definition path)
            it = iter(d.module)
            if all(m in it for m in mids):
                best.append((len(d.module) - len(mids), d))
        best.sort(key=lambda x: x[0])
        if best and (len(best) == 1 or best[0][0] < best[1][0]):
            return best[0][1]
        return None

    def canon(self, t, crate, subst=None):
        k = t[0]
        if k in ("ref", "ptr"):
            return self.canon(t[2] if k == "ref" else t[1], crate, subst)
        if k == "prim":
            if t[1] == "bool":
                return BOOL
            if t[1] == "str":
                return STR
            return ("int", t[1])
        if k == "tuple":
            return ("tuple", tuple(self.canon(x, crate, subst) for x in t[1]))
        if k in ("slice", "array"):
            return VEC(self.canon(t[1], crate, subst))
        if k == "closure":
            return ("closure", crate, t[1])
        if k == "never":
            return ("never",)
        if k == "dyn":
            return ("dyn", t[1][-1][1] if t[1] else "?")
        if k == "impl":
            name = show(t)
            if subst and name in subst:
                return subst[name]
            return ("opaque", name)
        if k in ("fn", "fnitem"):
            return ("opaque", "fn")
        if k == "proj":
            nm = show(t)
            if t[3] in ("IntoIter", "Item", "Target", "Output", "Residual"):
                return ("opaque", nm)
            return ("opaque", nm)
        if k == "const":
            return ("const", t[1])
        if k in ("int", "bool", "opaque"):
            return t
        assert k == "adt", t
        segs = t[1].split("::")
        if len(segs) == 1 and subst and segs[0] in subst and not t[2]:
            return subst[segs[0]]
        args = tuple(self.canon(a, crate, subst) for a in t[2])
        return self.canon_path(segs, args, crate)

    def canon_path(self, segs, args, crate):
        last = segs[-1]
        root = segs[0]
        if root in STD_ROOTS:
            if last in ("Box", "Rc", "Arc", "Cow"):
                return args[-1] if last == "Cow" else args[0]
            if last in ("Vec", "VecDeque"):
                return VEC(args[0])
            if last in ("Option", "Result"):
                return ("adt", last, args)
            if last == "String":
                return STR
            if last in ("BTreeMap", "HashMap"):
                return ("adt", "Map", args[:2])
            if last in ("BTreeSet", "HashSet"):
                return ("adt", "Set", args[:1])
            return ("adt", "std::" + last, args)
        if root == "cosmwasm_std":
            if last in CW_INTS:
                return ("int", last)
            if last in ("Binary", "HexBinary"):
                return BYTES
            if last == "Addr":
                return STR
            if last == "Response":
                return ("adt", "Response", ())
        if root == "primitive_types" or root == "ethereum_types" or root == "ethabi":
            if last == "U256":
                return ("int", "U256")
            if last == "Token":
                return ("adt", "ethabi::Token", ())
        if root == "cw_storage_plus" and last == "Key":
            return ("adt", "cw_storage_plus::Key", ())
        if len(segs) == 1 and last in ("String",):
            return STR
        if segs[-2:] == ["flagset", "FlagSet"] and (len(segs) == 2 or segs[0] == "axelar_wasm_std"):
            # flagset::FlagSet<F> and the newtype axelar_wasm_std::flagset::FlagSet<F> around it: one value, a set of bits
            return ("adt", "FlagSet", args)
        full = segs if root in self.crates else [crate] + list(segs)
        al = self.src.aliases.get((full[0], last))
        d = self.find_def(full, crate)
        if d is None and al is not None:
            return self.src_type(al[0], full[0], al[1], al[2], {})
        if d is None and root not in self.crates:
            # maybe an unlisted external crate root
            d2 = None
            return ("adt", "::".join(segs), args)
        if d is None:
            return ("adt", "::".join(full), args)
        if d.path.startswith("cosmwasm_std::") and d.generics and len(args) == 0:
            args = ()
        if d.path.startswith("cosmwasm_std::"):
            args = ()
        return ("adt", d.path, args)

    # type text from source, with imports
    def src_type(self, text, crate, file, module, subst):
        t = parse_type(text)
        return self._src(t, crate, file, module, subst)

    def _src(self, t, crate, file, module, subst):
        k = t[0]
        if k in ("ref", "ptr"):
            return self._src(t[2] if k == "ref" else t[1], crate, file, module, subst)
        if k == "tuple":
            return ("tuple", tuple(self._src(x, crate, file, module, subst) for x in t[1]))
        if k in ("slice", "array"):
            return VEC(self._src(t[1], crate, file, module, subst))
        if k != "adt":
            return self.canon(t, crate, subst)
        segs = t[1].split("::")
        if len(segs) == 1 and segs[0] in subst and not t[2]:
            return subst[segs[0]]
        args = tuple(self._src(a, crate, file, module, subst) for a in t[2])
        segs = self.resolve(segs, crate, file, module)
        return self.canon_path(segs, args, crate)

    PRELUDE = {
        "Option": ["std", "option", "Option"], "Result": ["std", "result", "Result"], "Vec": ["std", "vec", "Vec"],
        "String": ["std", "string", "String"], "Box": ["std", "boxed", "Box"],
    }

    def resolve(self, segs, crate, file, module):
        if segs[0] in ("crate", "self", "super"):
            return self.src.absolute(crate, module, segs)
        u = self.src.uses.get(file, {})
        if segs[0] in u:
            return self.src_abs(u[segs[0]] + segs[1:], crate)
        if (crate, segs[0]) in self.src.defs and len(segs) == 1:
            for d in self.src.defs[(crate, segs[0])]:
                if d.file == file:
                    return [crate] + d.module + [segs[0]]
        for g in self.src.globs.get(file, []):
            g2 = self.src.absolute(crate, module, g)
            if (g2[0], segs[-1]) in self.src.defs and len(segs) == 1:
                return g2 + segs
        if segs[0] in self.PRELUDE and len(segs) == 1:
            return self.PRELUDE[segs[0]]
        if segs[0] in self.crates or segs[0] in STD_ROOTS:
            return segs
        if len(segs) > 1 or (crate, segs[0]) in self.src.defs:
            return [crate] + module + segs
        return segs

    def src_abs(self, segs, crate):
        if segs[0] in self.crates or segs[0] in STD_ROOTS:
            return segs
        if segs[0] == crate:
            return segs
        return segs

    # ------------------------------------------------------------------ layouts
    def variants(self, t):
        """[(variant, [field types], [field names], discriminant)] or None when t has no known layout"""
        if t[0] == "tuple":
            return [("", list(t[1]), [str(i) for i in range(len(t[1]))], 0)]
        if t[0] != "adt":
            return None
        key = ("var", t)
        if key in self.dts:
            return self.dts[key]
        n, a = t[1], t[2]
        r = None
        if n == "cw_storage_plus::Key":
            r = [(v, [BYTES], ["0"], i) for i, v in enumerate(("Ref", "Val8", "Val16", "Val32", "Val64", "Val128"))]
        elif n == "Option":
            r = [("None", [], [], 0), ("Some", [a[0]], ["0"], 1)]
        elif n == "Result":
            r = [("Ok", [a[0]], ["0"], 0), ("Err", [a[1]], ["0"], 1)]
        elif n == "std::ControlFlow":
            r = [("Continue", [a[1] if len(a) > 1 else UNIT], ["0"], 0), ("Break", [a[0]], ["0"], 1)]
        elif n == "std::Ordering":
            r = [("Less", [], [], -1), ("Equal", [], [], 0), ("Greater", [], [], 1)]
        elif n == "std::Infallible":
            r = []
        elif n == "Response":
            r = [("Response", [VEC(("adt", self.cw("SubMsg"), ())), ("opaque", "attributes"), ("opaque", "events"), OPT(BYTES)],
                  ["messages", "attributes", "events", "data"], 0)]
        elif n.split("::")[0] == "cw_utils" and n.endswith("::MsgExecuteContractResponse"):
            r = [("MsgExecuteContractResponse", [OPT(BYTES)], ["data"], 0)]
        elif n in ("Vec", "Map", "Set", "String", "Bytes", "FlagSet"):
            r = None
        else:
            segs = n.split("::")
            d = self.find_def(segs, segs[0])
            if d is not None and d.path == n:
                subst = dict(zip(d.generics, a))
                r = []
                disc = 0
                for vn, fl, ex in d.variants:
                    if ex is not None:
                        disc = ex
                    r.append((vn if d.kind == "enum" else d.name,
                              [self.src_type(ft, d.crate, d.file, d.module, subst) for _, ft in fl],
                              [fn for fn, _ in fl], disc))
                    disc += 1
        self.dts[key] = r
        return r

    def cw(self, name):
        return self.src.defs[("cosmwasm_std", name)][0].path

    def is_enum(self, t):
        v = self.variants(t)
        return v is not None and (len(v) != 1 or (t[0] == "adt" and v[0][0] != t[1].split("::")[-1] and v[0][0] != ""))

    # ------------------------------------------------------------------ sorts
    def sort(self, t):
        if t in self.sorts:
            s = self.sorts[t]
            if s is None:
                raise RecursionError("recursive type %s" % tname(t))
            return s
        self.sorts[t] = None
        try:
            s = self._sort(t)
        except RecursionError:
            s = z3.DeclareSort("Opq<" + tname(t) + ">")
            self.dts[("var", t)] = None
        self.sorts[t] = s
        return s

    def _sort(self, t):
        k = t[0]
        if k == "int":
            return z3.IntSort()
        if k == "bool":
            return z3.BoolSort()
        if t == STR:
            return z3.DeclareSort("Str")
        if t == BYTES:
            return z3.DeclareSort("Bytes")
        if k == "adt" and t[1] == "Vec":
            es = self.sort(t[2][0])
            d = z3.Datatype("Seq<" + tname(t[2][0]) + ">")
            d.declare("mk", ("len", z3.IntSort()), ("at", z3.ArraySort(z3.IntSort(), es)))
            return d.create()
        if k == "adt" and t[1] == "Map":
            return z3.ArraySort(self.sort(t[2][0]), self.sort(OPT(t[2][1])))
        if k == "adt" and t[1] == "Set":
            return z3.ArraySort(self.sort(t[2][0]), z3.BoolSort())
        if k == "adt" and t[1] == "FlagSet":
            return z3.BitVecSort(8)
        v = self.variants(t)
        if v is None or v == []:
            return z3.DeclareSort("Opq<" + tname(t) + ">")
        d = z3.Datatype(tname(t))
        for vn, ft, fn, _ in v:
            d.declare("c_" + vn, *[("%s_%d" % (vn, i), self.sort(x)) for i, x in enumerate(ft)])
        return d.create()

    def constructor(self, t, variant):
        s = self.sort(t)
        for i, (vn, ft, fn, _) in enumerate(self.variants(t)):
            if vn == variant:
                return s.constructor(i), s.recognizer(i), [s.accessor(i, j) for j in range(len(ft))], ft, fn
        raise KeyError((t, variant))
