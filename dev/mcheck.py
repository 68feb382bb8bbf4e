import sys; sys.path.insert(0,"/tmp")
from mut import *
# usage: mcheck.py name[:PID[,PID]] ...
for a in sys.argv[1:]:
    n,_,p=a.partition(":")
    m=[x for x in MUT if x[0]==n][0]
    try:
        apply(m)
        for pid in (p or m[1]).split(","):
            r=sh("python3-vt","check.py",pid,"quick",cwd="/verif")
            print(n,pid,r.returncode,(r.stdout+r.stderr)[-700:].strip(),flush=True)
    finally: revert()
