#!/usr/bin/env python3
"""claim.py ID...: removes the not-yet-claimed mark of properties in props.py and regenerates."""
import re, sys, os, subprocess
d=os.path.dirname(os.path.abspath(__file__)); f=os.path.join(d,'props.py')
L=open(f).read().split('\n'); cur=None
for i,l in enumerate(L):
    m=re.match(r'P\("(C\d+)"',l)
    if m: cur=m.group(1)
    if cur in sys.argv[1:]: L[i]=l.replace(', claimed=False, reason=WIP','')
open(f,'w').write('\n'.join(L))
subprocess.check_call([sys.executable, os.path.join(d,'gen.py')])
