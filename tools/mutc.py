"""mutc.py REL PROPS 'old=>new'... : run checks on single-replacement mutants of a copy"""
import sys,os,shutil,subprocess
rel,props=sys.argv[1:3]
src='/repo/src/python/ficus/'+rel
text=open(src).read()
if not os.path.isdir('/tmp/mm'): shutil.copytree('/repo','/tmp/mm',symlinks=True)
dst='/tmp/mm/src/python/ficus/'+rel
for m in sys.argv[3:]:
    old,new=m.split('=>')
    old=old.encode().decode('unicode_escape'); new=new.encode().decode('unicode_escape')
    if text.count(old)==0: print('NOT FOUND',old); continue
    open(dst,'w').write(text.replace(old,new,1))
    for p in props.split(','):
        r=subprocess.run(['python3','/verif/check.py','--property',p,'--repo','/tmp/mm'],capture_output=True,text=True)
        o=[l for l in r.stdout.split('\n') if ': [' in l]
        print(repr(m)[:90],p,'rc',r.returncode,(o[0][:170] if o else r.stderr[-200:] or '-'))
open(dst,'w').write(text)
