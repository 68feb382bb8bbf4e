import sys
body=sys.stdin.read()
p='/verif/meta/props.py'; s=open(p).read()
i=s.index("]\nPROPS.sort")
s=s[:i]+body.rstrip()+"\n"+s[i:]
open(p,'w').write(s)
