import sys
sys.path.insert(0,'/verif/mirv')
import load,time
from spec import *
e=load.load('/verif/build/target/debug/deps')
S=Spec(e,"x")
names=sys.argv[2].split(",")
r=S.call(sys.argv[1],names)
for c in r.cases:
    print("=== case",c.pathno,c.kind)
    for f in c.st.pc: print("   pc",str(f)[:900].replace("\n"," "))
    if len(sys.argv)>3:
      for f in c.st.facts: print("   fact",str(f)[:1200].replace("\n"," "))
    try: print("   ret",str(c.ret.t)[:1200].replace("\n"," "))
    except Exception as ex: print("   ret?",ex)
