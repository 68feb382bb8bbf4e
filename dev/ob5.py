exec(open('/tmp/ob.py').read())
print(str(o.goal)[:1500])
fs=uniq(base+o.facts+o.pc)
print(len(fs))
from engine import has_quant
for f in fs:
    if has_quant(f): print("  --",str(f).replace("\n"," ").replace("  ","")[:330])
print("=====PAT")
for f in fs:
    if z3.is_quantifier(f):
        print(f.num_patterns(), [str(f.pattern(j))[:150].replace("\n","") for j in range(f.num_patterns())], str(f.body())[:100].replace("\n","") if f.num_patterns()==0 else "")
s=z3.Solver(); s.set("timeout",8000); s.set("smt.mbqi",False); s.set("smt.qi.profile",True); s.add(*fs, z3.Not(o.goal)); print(s.check()); print(s.statistics())
