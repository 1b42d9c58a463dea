"""mut.py FILE specmod 'python replace old=>new' ... : apply one replacement at a time to a copy of the program text"""
import sys,time,os,shutil,subprocess
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa import program
from sa.oblig import *
rel=sys.argv[1]; mod=sys.argv[2]
src='/repo/src/python/ficus/'+rel
text=open(src).read()
import re
if not os.path.isdir('/tmp/mm'): shutil.copytree('/repo','/tmp/mm',symlinks=True)
dst='/tmp/mm/src/python/ficus/'+rel
for m in sys.argv[3:]:
    old,new=m.split('=>')
    old=old.encode().decode('unicode_escape'); new=new.encode().decode('unicode_escape')
    n=text.count(old)
    if n==0: print('NOT FOUND',old); continue
    open(dst,'w').write(text.replace(old,new,1))
    try:
        prog=load('/tmp/mm')
        rs=[decide(prog,c) for mm in mod.split(',') for c in spec_classes(prog,'spec_'+mm)]
        bad=[(r.rule,r.status) for r in rs if r.status!=OK]
        print(repr(m)[:100],'->', bad or 'MISSED')
    except Exception as e: print(repr(m)[:80],'EXC',repr(e)[:200])
open(dst,'w').write(text)
