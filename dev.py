#!/usr/bin/env python3
import os
"""developer helper: dev.py GROUP [PREFIX] -- print law verdicts"""
import sys, time
from engine import laws
t=time.time()
for l in laws.run_group(sys.argv[1], next((a for a in sys.argv[2:] if a[0]!="-"),""), int(os.environ.get("TRIALS","64")), 1):
    print(f"{l['law']:50s} {l['status']:9s} out={l.get('outputs')} nodes={l.get('nodes')} sel={l.get('selects')} sq={l.get('sqrts')} tr={l.get('trials')} {l.get('why','')}")
    if l['status']=='differ' and '-v' in sys.argv:
        print('   output',l['output'],'L:',l['left_root'],' R:',l['right_root'])
        for k in ('left_only','right_only'):
            for e in l[k]: print('     ',k,e['at'],e['op'])
print('time',time.time()-t)
