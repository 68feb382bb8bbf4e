"""Builds an Engine over the MIR in a directory and the current sources in a repository."""
import glob
import os
import re
import sys

sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mir import Module
from src import Sources
from types_ import Types
from engine import Engine

PACKAGES = ["axelar-wasm-std", "connection-router-api", "gateway-api", "report"]
CONTRACTS = ["aggregate-verifier", "batching", "connection-router", "gateway", "multisig", "multisig-prover", "nexus-gateway", "rewards",
             "service-registry", "voting-verifier"]
CRATES = {**{p.replace("-", "_"): "packages/" + p for p in PACKAGES}, **{c.replace("-", "_"): "contracts/" + c for c in CONTRACTS}}

_cache = {}


def cosmwasm_src():
    for d in glob.glob("/usr/local/cargo/registry/src/*/cosmwasm-std-1.4.0") + glob.glob(os.path.expanduser("~/.cargo/registry/src/*/cosmwasm-std-1.4.0")) \
            + glob.glob(os.environ.get("CARGO_HOME", "/nonexistent") + "/registry/src/*/cosmwasm-std-1.4.0"):
        return d
    raise SystemExit("cosmwasm-std sources not found")


def load(mirdir, repo="/repo", only=None):
    src = Sources()
    mods = {}
    names = []
    for crate, rel in CRATES.items():
        if only and crate not in only:
            continue
        c = sorted(glob.glob("%s/%s.mir" % (mirdir, crate)) + glob.glob("%s/%s-*.mir" % (mirdir, crate)), key=os.path.getmtime)
        c = [x for x in c if re.match(r"^%s(-[0-9a-f]+)?\.mir$" % crate, os.path.basename(x))]
        if not c:
            raise SystemExit("no MIR of %s in %s" % (crate, mirdir))
        mods[crate] = Module(crate, c[-1])
        src.add_crate(crate, os.path.join(repo, rel))
        names.append(crate)
    src.add_crate("cosmwasm_std", cosmwasm_src())
    types = Types(src, names + ["cosmwasm_std"])
    return Engine(mods, types, repo)
