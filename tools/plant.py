"""plant.py FILE: FILE is python with ID, PROPERTY, EDITS=[(rel, old, new)], DEMO, NEEDS, BREAKS.
Verifies in a scratch copy and writes /verif/seeded/ID."""
import json, os, runpy, shutil, subprocess, sys
for f in sys.argv[1:]:
    d = runpy.run_path(f)
    W = '/tmp/plant_repo'
    subprocess.run(['rm', '-rf', W]); subprocess.run(['cp', '-a', '/repo', W], check=True)
    out = '/verif/seeded/' + d['ID']
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.py', 'w').write(d['DEMO'])
    open(out + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD/src:$PWD/src/python"\n'
                                      'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    r0 = subprocess.run(['bash', out + '/demo.sh'], cwd=W, capture_output=True, text=True)
    for rel, old, new in d['EDITS']:
        p = W + '/src/python/ficus/' + rel
        s = open(p).read(); assert s.count(old) == 1, (rel, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True).stdout
    open(out + '/patch.diff', 'w').write(diff)
    r1 = subprocess.run(['bash', out + '/demo.sh'], cwd=W, capture_output=True, text=True)
    json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    c = subprocess.run(['python3', '/verif/check.py', '--property', d['PROPERTY'], '--repo', W], capture_output=True, text=True)
    # stable tests
    t = subprocess.CompletedProcess([], 0, 'not run')
    if not os.environ.get('NOTEST'):
        subprocess.run(['git', 'apply', out + '/patch.diff'], cwd='/repo', check=True)
        try:
            t = subprocess.run(['bash', '/verif/tools/tst.sh'], capture_output=True, text=True)
        finally:
            subprocess.run(['git', 'checkout', '--', '.'], cwd='/repo')
    # blame: changed lines must be original
    fx = subprocess.run("git diff -U0 a9041e6 HEAD | grep -c . ", shell=True, cwd='/repo', capture_output=True, text=True)
    print(d['ID'], 'clean rc', r0.returncode, 'bug rc', r1.returncode, 'check rc', c.returncode, 'tests', t.stdout.strip()[-60:])
    if r0.returncode: print(r0.stderr[-800:])
    print('   ', (r1.stderr or r1.stdout).strip().split('\n')[-1][:200]); print('   ', c.stdout[:400])
    subprocess.run(['rm', '-rf', W])
