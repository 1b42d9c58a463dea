"""reform.py FILE..: apply each behaviour-preserving edit of the files to a scratch copy of /repo, run every check there,
and report the checks that raise an alarm (each one is a false alarm).

File format:   %% name  /  @@ path under src/python/ficus  /  <<<  old lines  ===  new lines  >>>
TESTS=1 also runs the stable tests in the copy."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = [c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open(root + '/MANIFEST.json'))['checks']]
if os.environ.get('CHECKS'):
    checks = os.environ['CHECKS'].split()
only = os.environ.get('ONLY')


def read(path):
    out, cur = [], None
    rel, old, new, where = None, [], [], None
    for line in open(path):
        l = line.rstrip('\n')
        if l.startswith('%% '):
            cur = (l[3:], [])
            out.append(cur)
        elif l.startswith('@@ '):
            rel = l[3:]
        elif l == '<<<':
            where, old, new = 'old', [], []
        elif l == '===':
            where = 'new'
        elif l == '>>>':
            cur[1].append((rel, '\n'.join(old), '\n'.join(new)))
            where = None
        elif where:
            (old if where == 'old' else new).append(l)
    return out


def run(args):
    repo, p = args
    r = subprocess.run(['python3', root + '/check.py', '--property', p, '--repo', repo, '--verbose'], capture_output=True, text=True, cwd=root,
                       env=dict(os.environ, VERIF_EVIDENCE='/tmp/reform_ev%d' % os.getpid()))
    return p, r.returncode, [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or 'violat' in l.lower() or ': ' in l][:6], r.stdout, r.stderr


def main():
    jobs = []
    for f in sys.argv[1:]:
        jobs += [(f, n, e) for n, e in read(f)]
    dst = os.environ.get('DST', '/tmp/reform_copy%d' % os.getpid())
    bad = 0
    for f, n, edits in jobs:
        if only and only not in n:
            continue
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree('/repo', dst, ignore=shutil.ignore_patterns('.git', 'target', 'node_modules'), symlinks=True)
        ok = True
        for rel, old, new in edits:
            p = dst + '/src/python/ficus/' + rel
            s = open(p).read()
            pat = r'\n(?:[ \t]*\n)*'.join(re.escape(l) for l in old.split('\n') if l.strip())
            found = re.findall('^' + pat, s, re.M)
            if len(found) != 1:
                print(n, 'DOES NOT APPLY (%d) in %s: %s' % (len(found), rel, old[:80]))
                ok = False
                break
            s = s.replace(found[0], new)
            compile(s, p, 'exec')
            open(p, 'w').write(s)
        if not ok:
            continue
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(run, [(dst, p) for p in checks]))
        al = [r for r in res if r[1] != 0]
        und = sum(int(m.group(1)) for r in res for m in [re.search(r'undecided=(\d+)', r[3])] if m)
        print(n, 'quiet' if not al else 'ALARM', 'undecided=%d' % und, *([r[0] for r in al] if os.environ.get('BUGS') else []), flush=True)
        if os.environ.get('OPEN') and not (al and os.environ.get('BUGS')):
            for r in res:
                for l in r[3].splitlines():
                    if l.startswith('  undecided'):
                        print('    ', r[0], l[:int(os.environ['OPEN'])])
        for p, rc, lines, so, se in al:
            bad += 1
            if os.environ.get('BUGS') and rc == 1:
                continue
            print('    ', p, rc, (so + se)[-900:].replace('\n', '\n        ')[:1200])
    if not os.environ.get('KEEP'):
        shutil.rmtree(dst, ignore_errors=True)
    print('alarms', bad)


main()
