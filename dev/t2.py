import sys
sys.path.insert(0,'/verif/mirv')
import load,time
from spec import *
e=load.load('/verif/build/target/debug/deps')
S=Spec(e,"x")
crate,which,var=sys.argv[1:4]
t=time.time()
r=S.entry(crate,which,var if var!='-' else None)
print(time.time()-t,[ (c.kind) for c in r.cases], list(r.args))
for c in r.cases:
    if len(sys.argv)>4 and str(c.pathno) not in sys.argv[4:]: continue
    print("=== case",c.pathno,c.kind)
    for f in c.st.pc: print("   pc",str(f)[:900].replace("\n"," "))
    if len(sys.argv)>4:
        for f in c.st.facts: print("   fact",str(f)[:1200].replace("\n"," "))
        for ns,t in c.st.storage.items(): print("   store",ns,str(t)[:1500].replace("\n"," "))
    try: print("   ret",str(c.ret.t)[:1200].replace("\n"," "))
    except Exception as ex: print("   ret?",ex)
    try: print("   msgs",str(c.msgs.t)[:1500].replace("\n"," "))
    except Exception as ex: pass
