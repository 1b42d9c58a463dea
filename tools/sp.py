import sys,time
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa.oblig import *
repo = '/repo'
for a in sys.argv[1:]:
    if a.startswith('--repo='): repo=a[7:]
prog=load(repo)
mod=sys.argv[1]; only=[a for a in sys.argv[2:] if not a.startswith('-')]
for c in spec_classes(prog,'spec_'+mod):
    if only and c.name not in only: continue
    t=time.time()
    r=decide(prog,c,verbose='-v' in sys.argv)
    print(r.status[:10].ljust(10),'%.2f'%(time.time()-t),c.name,r.where,'' if r.status==OK else r.detail[:1500])
