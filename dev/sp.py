import sys,time,importlib,traceback
sys.path.insert(0,'/verif/mirv')
import load
from spec import *
t=time.time()
e=load.load('/verif/build/target/debug/deps'); print("load %.1f"%(time.time()-t))
for pid in [a for a in sys.argv[1:] if a[0]!='-' and '=' not in a]:
    m=importlib.import_module("specs."+pid)
    only=[a[5:] for a in sys.argv if a.startswith("part=")]
    S=Spec(e,pid); t=time.time()
    for p in (getattr(m,"PARTS",None) or [m.spec]):
        if only and p.__name__ not in only: continue
        S.begin()
        try: p(S)
        except Exception: traceback.print_exc()
    print(pid,"exec %.1f"%(time.time()-t), len(S.obls),"obls", dict(S.functions)); t=time.time()
    pat=[a[5:] for a in sys.argv if a.startswith("only=")]
    if pat: S.obls=[o for o in S.obls if any(x in o.name for x in pat)]
    S.discharge()
    from collections import Counter
    print(Counter(o.status for o in S.obls),"discharge %.1f"%(time.time()-t),"max %.1f"%max([o.secs for o in S.obls] or [0]))
    for o in S.obls:
        if o.secs>3: print("  SLOW",o.name,"%.1f"%o.secs)
        if o.status!="proved":
            print(" ",o.status,o.name,o.solver,"%.1f"%o.secs); 
            if "-v" in sys.argv:
                for l in (o.model or [])[:12]: print("      ",l[:300])
    print("covers bad",S.check_covers())
