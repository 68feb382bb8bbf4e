# usage: mkseed.py <mutname> <needs> <what> <deps comma sep>  < demo.rs
import sys, os, json, shutil; sys.path.insert(0,"/tmp")
from mut import *
name, needs, what, deps = sys.argv[1:5]
m=[x for x in MUT if x[0]==name][0]
sid=m[1]+"-"+name
d="/verif/seeded/"+sid; os.makedirs(d,exist_ok=True)
open(d+"/demo.rs","w").write(sys.stdin.read())
shutil.copy("/tmp/seedgen/demo.sh",d); shutil.copy("/verif/replay/Cargo.lock",d+"/demo.lock")
P={"cosmwasm-std":'"1.3.4"',"serde_json":'"1"'}
toml='[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\nresolver = "1"\n\n[workspace]\n\n[dependencies]\n'
for x in deps.split(","):
    if x in P: toml+=f"{x} = {P[x]}\n"; continue
    k="packages" if os.path.exists("/repo/packages/"+x) else "contracts"
    t=open(f"/repo/{k}/{x}/Cargo.toml").read()
    f=', features = ["library"]' if "\nlibrary" in t else ""
    toml+=f'{x} = {{ path = "/repo/{k}/{x}"{f} }}\n'
open(d+"/demo.toml","w").write(toml)
json.dump({"property":m[1],"needs":needs,"what_it_breaks":what},open(d+"/meta.json","w"),indent=1)
import time
t=time.time(); r=sh("bash",d+"/demo.sh",cwd="/repo"); t=time.time()-t
print(sid,"clean",r.returncode,f"{t:.0f}s",r.stderr[-1500:] if r.returncode else "")
try:
    apply(m); open(d+"/patch.diff","w").write(sh("git","-C","/repo","diff").stdout)
    if "-t" in sys.argv:
        base=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        sh("bash","/opt/vp/test.sh","/tmp/muts/out.json"); print("tests missing:", sorted(base-set(json.load(open("/tmp/muts/out.json"))["passed"]))[:3])
    r=sh("bash",d+"/demo.sh",cwd="/repo"); print("bug",r.returncode,r.stderr[-300:])
finally: revert()
