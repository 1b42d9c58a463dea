"""dbg.py SPECMODULE CLASS [DEPTH] [REPO] : the two normal forms of one specification"""
import sys
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa.oblig import *
prog=load(sys.argv[4] if len(sys.argv)>4 else '/repo')
mod,name=sys.argv[1:3]; d=int(sys.argv[3]) if len(sys.argv)>3 else 12
for c in spec_classes(prog,'spec_'+mod):
    if c.name==name:
        x,y=both(prog,c,lit(c,'budget',400000),tuple(x for n in ('opaque','calls','mutates','stream') for x in lit(c,n,())))
        for n,s in (('code',x),('spec',y)):
            print(n,'RET',show(s.ret,d)); print(n,'TRACE',show(s.trace,d)); print(n,'RAISE',show(s.raises,d))
