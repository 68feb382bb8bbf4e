#!/usr/bin/env python3
"""check.py <property>: rebuilds the MIR of the crates under check from /repo, discharges the property's obligations, runs its
executable contracts, writes evidence/<property>.json.  Exit 0 held, 1 violation, 2 the check itself failed."""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

V = "/verif"
BUILD = V + "/build"
TARGET = BUILD + "/target"
REPO = "/repo"
sys.path.insert(0, V + "/mirv")

# property -> (replay binary, argument)
REPLAY = {"C01": ("c01", "C01"), "C02": ("c01", "C02"), "C03": ("c01", "C03"),
          "C04": ("fm", "C04"), "C05": ("ms", "C05"), "C06": ("ms", "C06"), "C07": ("ms", "C07"),
          "C08": ("rt", "C08"), "C09": ("rt", "C09"), "C10": ("gw", "C10"), "C12": ("vv", "C12"), "C13": ("vv", "C13"), "C16": ("sr", "C16"), "C17": ("sr", "C17"), "C18": ("mp", "C18"), "C19": ("mp", "C19"), "C20": ("nx", "C20"), "C21": ("nx", "C21"), "C22": ("nx", "C22"), "C23": ("nx", "C23"),
          "C14": ("rw", "C14"), "C15": ("rw", "C15")}
CONFIRM = {}  # property -> replay of a failed obligation is sought longer

PACKAGES = ["axelar-wasm-std", "axelar-wasm-std-derive", "connection-router-api", "gateway-api", "report", "events", "events-derive"]


def crate_dirs():
    return [d for d in sorted(glob.glob(REPO + "/contracts/*") + glob.glob(REPO + "/packages/*")) if os.path.exists(d + "/Cargo.toml")]


def digest(d):
    h = hashlib.sha256()
    for root, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".json")):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(HOME="/root", PATH="/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", ""), RUSTUP_TOOLCHAIN="1.71.1", RUSTUP_AUTO_INSTALL="0",
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0",
             CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER=V + "/mirv/rustc_wrapper.sh", RUST_BACKTRACE="0")
    return e


def cargo(*args):
    for i in range(3):
        # a sound build can fail once in a long while when two artifacts of one name are linked at the same moment
        p = subprocess.run(["cargo", "build", "--offline", *args], cwd=V + "/replay", env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
    return p.returncode, p.stdout


def build(bins):
    """-> (error or None, {bin: error or None})"""
    os.makedirs(BUILD, exist_ok=True)
    sf = BUILD + "/sources.json"
    try:
        old = json.load(open(sf))
    except (OSError, ValueError):
        old = {}
    new = {d: digest(d) for d in crate_dirs()}
    for d, h in new.items():
        if old.get(d) != h:
            # by content, whatever the file times say
            n = os.path.basename(d)
            for m in {n, n.replace("-", "_")}:
                for x in glob.glob("%s/debug/.fingerprint/%s-*" % (TARGET, m)):
                    if re.match(r"^%s-[0-9a-f]{16}$" % re.escape(m), os.path.basename(x)):
                        shutil.rmtree(x, ignore_errors=True)
    rc, out = cargo("--lib")
    if rc != 0:
        return out, {}
    res = {}
    for b in bins:
        rc, out = cargo("--bin", b)
        res[b] = None if rc == 0 else out
    json.dump(new, open(sf + ".tmp", "w"))
    os.replace(sf + ".tmp", sf)
    return None, res


def rules():
    """the proof rules about sums, loops and collections, checked by Lean's kernel: (theorem names, error)"""
    try:
        p = subprocess.run(["lean", V + "/mirv/rules.lean"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    except (OSError, subprocess.TimeoutExpired) as ex:
        return [], "Lean was not run: %s" % type(ex).__name__
    import re
    names = re.findall(r"'Mirv\.(\w+)' depends on axioms: \[([^\]]*)\]", p.stdout)
    bad = [n for n, a in names if set(a.replace(" ", "").split(",")) - {"propext", "Classical.choice", "Quot.sound"}]
    if p.returncode or bad or not names:
        return [n for n, _ in names if n not in bad], "not all proof rules were accepted: %s" % (bad or p.stdout[-200:])
    return [n for n, _ in names], None


def prove(pid, tier, settled=None):
    import importlib
    import load
    import spec as sp
    from engine import Unsupported
    r = {"obligations": [], "functions": {}, "undecided": [], "models": {}, "inlined": [], "vacuous": [], "error": None, "secs": 0.0}
    t0 = time.time()
    eng = load.load(TARGET + "/debug/deps", REPO)
    mod = importlib.import_module("specs." + pid.lower())
    S = sp.Spec(eng, pid, tier)
    S.settled = settled
    parts = getattr(mod, "PARTS", None) or [mod.spec]
    for f in parts:
        n0, c0 = len(S.obls), len(S.covers)
        try:
            S.begin()
            f(S)
        except (sp.Lost, Unsupported, KeyError, AttributeError, IndexError, TypeError, ValueError, RecursionError, AssertionError, Exception) as ex:
            # out of the verifier's reach on this tree: undecided, never an alarm
            r["undecided"].append("%s: %s: %s" % (f.__name__, type(ex).__name__, str(ex)[:300]))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            del S.covers[c0:]
        for o in S.obls[n0:]:
            o.part = f.__name__
    S.discharge(int(os.environ.get("VERIF_JOBS", "8")))
    # a loop invariant that does not fit this tree's code leaves what was proved with it open; it is no violation by itself
    open_parts = {o.part for o in S.obls if getattr(o, "aux", False) and o.status != "proved"}
    for o in S.obls:
        if o.part in open_parts and (getattr(o, "aux", False) or o.status == "proved"):
            o.status, o.solver = "unknown", "depends on a loop invariant that was not proved"
    r["vacuous"] = S.check_covers()
    r["obls"] = S.obls
    r["functions"] = S.functions
    r["models"] = dict(eng.models_used)
    r["rules"], r["rules_error"] = rules()
    r["inlined"] = sorted("%s::%s" % x for x in eng.inlined)
    r["secs"] = time.time() - t0
    r["assumptions"] = list(getattr(mod, "ASSUMPTIONS", []))
    return r


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        err, bins = build(sorted({b for b, _ in REPLAY.values()}))
        bad = [b for b, e in bins.items() if e]
        print(err or ("failed: %s" % bad if bad else "built"))
        return 2 if err or bad else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(BUILD + "/out", exist_ok=True)
    lock = open(BUILD + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    bin_, arg = REPLAY[pid]
    err, bins = build([bin_])
    fcntl.flock(lock, fcntl.LOCK_UN)
    if err:
        print(err[-3000:])
        print("the tree does not build")
        return 2
    known = load_known(pid)
    # the executable contracts run beside the prover
    rp = rout = None
    exe = "%s/debug/%s" % (TARGET, bin_)
    millis = 25000 if tier == "quick" else 240000
    if bins[bin_] is None:
        rout = tempfile.TemporaryFile("w+")
        rp = subprocess.Popen([exe, arg, "--seed", str(seed), "--millis", str(millis), "--threads", "4"], stdout=rout,
                              stderr=subprocess.DEVNULL, text=True)

    def report():
        rout.seek(0)
        return json.loads(rout.read().strip().splitlines()[-1])

    def settled():
        try:
            if rp is None or rp.poll() is None:
                return False
            d = report()
            return bool(d.get("failure") or [k for k in d.get("known", []) if not any(x["id"] == k["id"] for x in known)])
        except Exception:
            return False
    try:
        pr = prove(pid, tier, settled)
    except Exception as ex:
        traceback.print_exc()
        pr = {"obls": [], "functions": {}, "undecided": ["prover: %r" % (ex,)], "models": {}, "inlined": [], "vacuous": [], "secs": 0.0, "assumptions": []}
    rep = None
    if rp is not None:
        try:
            rp.wait(timeout=millis / 1000 + 120)
            rep = report()
        except Exception as ex:
            rp.kill()
            rep = None
            pr["undecided"].append("executable contracts: %r" % (ex,))
    else:
        pr["undecided"].append("executable contracts do not compile against this tree: " + bins[bin_][-400:])
    obls = pr["obls"]
    proved = [o for o in obls if o.status == "proved"]
    failed = [o for o in obls if o.status in ("failed", "saturated")]
    unknown = [o for o in obls if o.status not in ("proved", "failed", "saturated")]
    violation = None
    for k in (rep or {}).get("known", []):
        if any(x["id"] == k["id"] for x in known):
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], [x["what"] for x in known if x["id"] == k["id"]][0]))
        elif violation is None:
            violation = {"kind": "concrete", "clause": k["id"], "detail": k["detail"], "case": k["case"]}
    if rep and rep.get("failure"):
        f = rep["failure"]
        violation = {"kind": "concrete", **f}
    path = "%s/out/%s.json" % (BUILD, pid)
    if violation is None and (failed or unknown or pr["undecided"]):
        # look longer for a failing input
        more = None
        if rp is not None:
            try:
                p = subprocess.run([exe, arg, "--seed", str(seed + 1000), "--millis", "40000", "--threads", "8"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                   text=True, timeout=150)
                more = json.loads(p.stdout.strip().splitlines()[-1])
                if more.get("failure"):
                    violation = {"kind": "concrete", **more["failure"], "seed": seed + 1000}
            except Exception:
                pass
    note = ""
    if violation is not None:
        violation["replay"] = "%s %s --seed %s --case %s" % (exe, arg, violation.get("seed", seed), violation.get("case"))
        violation["failed_obligations"] = [o.name for o in failed][:20]
    elif failed:
        note = " no-failing-input-found"
        violation = {"kind": "obligation", "failed": [{"obligation": o.name, "status": o.status, "solver": o.solver, "model": o.model} for o in failed][:20]}
    if violation is not None:
        violation["property"] = pid
        json.dump(violation, open(path, "w"), indent=1)
    evidence(pid, tier, seed, t0, pr, rep, proved, failed, unknown, violation, known)
    for u in pr["undecided"]:
        print("undecided:", u)
    for o in unknown:
        print("undecided obligation:", o.name, o.solver)
    for x in pr["vacuous"]:
        print("vacuous precondition:", x)
    print("%s: %d obligations, %d proved, %d failed, %d undecided; executable contracts: %s cases; %.1f s" % (
        pid, len(obls), len(proved), len(failed), len(unknown), (rep or {}).get("evaluations", 0), time.time() - t0))
    if violation is not None:
        if violation["kind"] == "concrete":
            print("  clause: %s: %s" % (violation.get("clause"), str(violation.get("detail"))[:500]))
        for o in failed[:5]:
            print("  failed obligation: %s (%s)" % (o.name, o.status))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, note))
        return 1
    if not obls and rep is None:
        print("nothing could be checked")
        return 2
    return 0


def load_known(pid):
    try:
        d = json.load(open(V + "/known_findings.json"))
    except OSError:
        return []
    return [x for x in d.get("findings", []) if x["property"] == pid]


def evidence(pid, tier, seed, t0, pr, rep, proved, failed, unknown, violation, known):
    by = {}
    for o in pr["obls"]:
        b = by.setdefault(o.fn, [0, 0, 0.0])
        b[0] += 1
        b[1] += o.status == "proved"
        b[2] += o.secs
    tb = ["dependency contract (mirv/lib.py): " + k for k in sorted(pr["models"])]
    tb += ["rustc 1.71.1's MIR construction", "z3 5.3.2", "mirv (MIR semantics, loop rule, sequence and map encodings)"]
    cov = {
        "obligations": len(pr["obls"]), "discharged": len(proved),
        "checker_cmd": "python3-vt /verif/check.py %s" % pid,
        "trusted_base": tb,
        "functions_under_contract": {k: {"obligations": v[0], "discharged": v[1], "solver_s": round(v[2], 2)} for k, v in sorted(by.items())},
        "proof_rules_checked_by_lean": pr.get("rules", []), "proof_rules_error": pr.get("rules_error"),
        "paths": sum(pr["functions"].values()),
        "back_end": "z3 5.3.2 (pattern instantiation, then model-based instantiation); z3 4.8.12 on what that leaves open",
        "functions_executed_from_their_own_body": pr["inlined"],
        "undecided": pr["undecided"] + ["%s: %s" % (o.name, o.solver) for o in unknown],
        "vacuous": pr["vacuous"],
        "executable_contracts_bounded": {
            "evaluations": (rep or {}).get("evaluations", 0), "distinct_nontrivial": (rep or {}).get("distinct", 0),
            "rule": "random histories of calls against the real contracts, checked against the property's clauses; a case is non-trivial if it reached an "
                    "event the clause speaks of, and distinct by the sequence of those events. Bounded; not counted as proved.",
            "samples": (rep or {}).get("samples", [])[:3], "harness_panics": (rep or {}).get("harness_panics", 0)},
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": pr.get("assumptions", []) + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": 0 if violation is None else 1}
    json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)


COMMON_ASSUMPTIONS = [
    "machine integers are mathematical integers with explicit range checks; an overflow panics, and a panic reverts the transaction",
    "cw-storage-plus: maps behave as total functions from keys to optional values, distinct keys never collide, IndexedMap keeps its index consistent",
    "strings and byte strings are abstract values with injective encodings where the code encodes them (JSON, UTF-8, storage keys)",
    "hash functions and signature checks are uninterpreted functions",
    "events, attributes and error values are not modelled",
    "cross-contract queries return arbitrary values",
]

LIMIT = 780  # seconds for a quick run, of the 900 a check has


def guarded():
    """main(), in a process of its own: a solver or the symbolic execution of a tree it cannot get through is stopped, and
    the executable contracts decide alone"""
    sys.stdout.flush()
    child = os.fork()
    if child == 0:
        os.setsid()
        rc = 2
        try:
            rc = main()
        except SystemExit as ex:
            rc = ex.code if isinstance(ex.code, int) else 2
            print(ex)
        except BaseException:
            traceback.print_exc()
        sys.stdout.flush()
        os._exit(rc)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    end = time.time() + (LIMIT if tier == "quick" or pid == "--setup" else 5400)
    if pid == "--setup":
        end += 900
    while time.time() < end:
        p, st = os.waitpid(child, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(st) if os.WIFEXITED(st) else 2
        time.sleep(0.1)
    try:
        os.killpg(child, 9)
    except OSError:
        pass
    os.waitpid(child, 0)
    if pid == "--setup":
        return 2
    print("undecided: the prover did not finish in time; the executable contracts decide alone")
    bin_, arg = REPLAY[pid]
    exe = "%s/debug/%s" % (TARGET, bin_)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    known = load_known(pid)
    pr = {"obls": [], "functions": {}, "undecided": ["the prover did not finish in time"], "models": {}, "inlined": [], "vacuous": [], "secs": LIMIT, "assumptions": []}
    p = subprocess.run([exe, arg, "--seed", str(seed), "--millis", "40000", "--threads", "8"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=90)
    rep = json.loads(p.stdout.strip().splitlines()[-1])
    violation = None
    for k in rep.get("known", []):
        if any(x["id"] == k["id"] for x in known):
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], [x["what"] for x in known if x["id"] == k["id"]][0]))
        elif violation is None:
            violation = {"kind": "concrete", "clause": k["id"], "detail": k["detail"], "case": k["case"]}
    if rep.get("failure"):
        violation = {"kind": "concrete", **rep["failure"]}
    evidence(pid, tier, seed, t0, pr, rep, [], [], [], violation, known)
    if violation is None:
        return 0
    path = "%s/out/%s.json" % (BUILD, pid)
    violation["replay"] = "%s %s --seed %s --case %s" % (exe, arg, seed, violation.get("case"))
    violation["property"] = pid
    json.dump(violation, open(path, "w"), indent=1)
    print("  clause: %s: %s" % (violation.get("clause"), str(violation.get("detail"))[:500]))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


if __name__ == "__main__":
    rc = 2
    try:
        rc = guarded()
    except BaseException:
        traceback.print_exc()
    sys.stdout.flush()
    os._exit(rc)
