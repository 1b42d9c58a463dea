"""refone.py rel mods funcname newsrc-file : replace a top-level function by new source; run spec modules"""
import sys,os,shutil,ast
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa.oblig import *
rel,mods,new=sys.argv[1:4]
src='/repo/src/python/ficus/'+rel
text=open(src).read()
dst='/tmp/mm/src/python/ficus/'+rel
newtext=open(new).read()
blocks=newtext.split('#----\n')
for blk in blocks:
    names=[n.name for n in ast.parse(blk).body if hasattr(n,'name')]
    tree=ast.parse(text); L=text.split('\n'); 
    rep=[n for n in tree.body if getattr(n,'name',None) in names]
    for n in reversed(rep):
        st=n.lineno-1-len(n.decorator_list)
        L[st:n.end_lineno]=[]
        ins=st
    L[ins:ins]=blk.split('\n')
    open(dst,'w').write('\n'.join(L))
    prog=load('/tmp/mm')
    bad=[(r.rule,r.status,r.detail[:600]) for mm in mods.split(',') for c in spec_classes(prog,'spec_'+mm) for r in [decide(prog,c)] if r.status!=OK]
    print(names,bad or 'ALL OK')
open(dst,'w').write(text)
