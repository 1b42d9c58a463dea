"""inst.py SPECMODULE CLASS [REPO] : decide one specification and show the attempts with two elements"""
import sys
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa import oblig
from sa.oblig import *
prog=load(sys.argv[3] if len(sys.argv)>3 else '/repo')
old=oblig.instances
oblig.instances=lambda *a: old(*a[:6], True)
for c in spec_classes(prog,'spec_'+sys.argv[1]):
    if c.name==sys.argv[2]:
        r=decide(prog,c); print(r.status, r.text[:1500] if hasattr(r,'text') else vars(r))
