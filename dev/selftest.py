"""Differential test of mirv: the functions of dev/selftest are compiled and run on random inputs, and what they did must not be
excluded by the paths mirv derives from their MIR.  Prints UNSOUND for a behaviour every path excludes; `loose` counts results the
paths do not determine.  usage: selftest.py [seed [samples [name...]]]"""
import os, re, subprocess, sys, glob, json, multiprocessing, traceback
sys.path.insert(0, "/verif/mirv")
import load
import z3
from spec import *
seed, n = (sys.argv[1:3] + ["1", "10"][len(sys.argv[1:3]):])
names = sys.argv[3:]
D = "/verif/dev/selftest"
O = "/verif/build/selftest"
DEPS = "/verif/build/target/debug/deps"
os.makedirs(O, exist_ok=True)
env = dict(os.environ)
for l in open("/opt/vp/env.sh"):
    m = re.match(r"export (RUSTUP_TOOLCHAIN)=(\S+)", l)
    if m: env[m.group(1)] = m.group(2)
env["RUSTC_BOOTSTRAP"] = "1"


def newest(x):
    return sorted(glob.glob("%s/lib%s-*.rlib" % (DEPS, x)), key=os.path.getmtime)[-1]


ext = ["--extern", "itertools=" + newest("itertools"), "--extern", "cosmwasm_std=" + newest("cosmwasm_std"), "-L", "dependency=" + DEPS]
subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "selftest", "dev/selftest/src/lib.rs", "--emit=mir,link", "-C", "overflow-checks=on",
                "--out-dir", O, "-Ztrim-diagnostic-paths=no", "-Zmir-opt-level=0", "-Zmir-enable-passes=-CheckAlignment"] + ext, cwd="/verif", env=env, check=True)
subprocess.run(["rustc", "--edition", "2021", "--crate-name", "selftest_main", "src/main.rs", "--out-dir", O, "-C", "overflow-checks=on", "--extern", "selftest=%s/libselftest.rlib" % O]
               + ext, cwd=D, env=env, check=True)
out = subprocess.run([O + "/selftest_main", seed, n], capture_output=True, text=True, check=True).stdout
load.CRATES.clear()
load.CRATES["selftest"] = "dev/selftest"
samples = {}
for l in out.splitlines():
    m = re.match(r"(\w+) (\[.*?\]) (\[.*?\]) (\d+) (.*)$", l)
    samples.setdefault(m[1], []).append((json.loads(m[2]), json.loads(m[3]), int(m[4]), None if m[5] == "panic" else json.loads(m[5])))


def one(f):
    try:
        e = load.load(O, "/verif")
        S = Spec(e, "SELF")
        S.begin()
        r = S.call("selftest::" + f, ["a", "b", "k"])
    except Exception as ex:
        if names: traceback.print_exc()
        return f, "lost: %s: %s" % (type(ex).__name__, str(ex)[:150]), 0, 0, []
    bad, loose = [], 0

    def sq(x, v):
        return [e.seq_len(x.t) == len(v)] + [e.seq_at(x.t, z3.IntVal(i)) == y for i, y in enumerate(v)]

    def excluded(c, extra, goal=None):
        o = Obl()
        o.name, o.fn, o.facts, o.pc, o.sp = f, f, list(c.st.facts), list(c.st.pc), c
        o.goal = z3.Not(z3.And(extra))
        for mb in (False,):
            s = z3.Solver()
            s.set("timeout", 4000); s.set("auto_config", False); s.set("smt.mbqi", mb)
            s.add(*S.relevant(o), *o.facts, *o.pc, z3.And(extra))
            if s.check() == z3.unsat: return True
        return False
    kinds = {c.kind for c in r.cases}
    for a, b, k, res in samples[f]:
        inp = sq(r.args["a"], a) + sq(r.args["b"], b) + [r.args["k"].t == k]
        good = [c for c in r.cases if (c.kind == "panic") == (res is None)]
        if all(excluded(c, inp + (sq(c.ret, res) if res is not None else [])) for c in good):
            bad.append((a, b, k, res))
        else:
            # is it the only result?
            for c in r.cases:
                g = inp + ([z3.Not(z3.And(sq(c.ret, res)))] if c in good and res is not None else [])
                if c in good and res is None: continue
                if not excluded(c, g):
                    loose += 1
                    break
    return f, "ok" if not bad else "UNSOUND", len(samples[f]), loose, bad


L = [f for f in samples if not names or f in names]
with multiprocessing.get_context("fork").Pool(int(os.environ.get("JOBS", "3"))) as P:
    res = P.map(one, L, chunksize=1)
for f, st, m, loose, bad in res:
    if st != "ok" or loose:
        print(f, st, "%d of %d loose" % (loose, m) if loose else "")
    for b in bad[:3]: print("    ", b)
print("%d functions, %d outside mirv, %d unsound; %d runs, %d of them fully determined" % (
    len(res), sum(1 for r in res if r[1].startswith("lost")), sum(1 for r in res if r[1] == "UNSOUND"), sum(r[2] for r in res), sum(r[2] - r[3] for r in res)))
