"""paths whose facts z3 refutes: proved trivially.  Prints one line per such path (fn, path number, kind, whether the last step of its condition is what contradicts)."""
import sys, importlib, multiprocessing
sys.path.insert(0, '/verif/mirv')
import load
import z3
from spec import *
pid = sys.argv[1]
jobs = int(sys.argv[2]) if len(sys.argv) > 2 else 3
e = load.load('/verif/build/target/debug/deps')
m = importlib.import_module("specs." + pid)
S = Spec(e, pid)
for p in (getattr(m, "PARTS", None) or [m.spec]):
    S.begin()
    try: p(S)
    except Exception as ex: print("PART", p.__name__, type(ex).__name__, ex)
seen = {}
for o in S.obls:
    if o.sp is None: continue
    k = id(o.sp.st)
    seen.setdefault(k, o)
L = list(seen.values())


def one(ix):
    o = L[ix]
    o.goal = z3.BoolVal(False)
    s = z3.Solver(); s.set("timeout", 6000); s.set("auto_config", False); s.set("smt.mbqi", False)
    for f in S.relevant(o) + o.facts + o.pc: s.add(f)
    r = s.check()
    t = ""
    if r == z3.unsat:
        s = z3.Solver(); s.set("timeout", 6000); s.set("auto_config", False); s.set("smt.mbqi", False)
        for f in S.relevant(o) + o.facts: s.add(f)
        if s.check() == z3.unsat: t = "FACTS ALONE"
    return ix, str(r), t


with multiprocessing.get_context("fork").Pool(jobs) as P:
    res = P.map(one, range(len(L)), chunksize=1)
print(pid, len(L), "paths,", sum(1 for r in res if r[1] == "unsat"), "refuted")
for ix, r, t in res:
    if r == "unsat": print("  ", L[ix].sp.kind if hasattr(L[ix].sp, "kind") else "?", L[ix].name.split("/")[0], "#%d" % L[ix].sp.pathno, t)
