"""eq.py FILE : decide the specification classes (methods code / spec) of any file; shows normal forms with -v"""
import sys
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
import sa.oblig as O
from sa.program import Program
import os
ex = {'spec_' + n[:-3]: os.path.join(O.SPEC_DIR, n) for n in os.listdir(O.SPEC_DIR) if n.endswith('.py')}
ex['spec_tmp'] = os.path.abspath(sys.argv[1])
prog = Program('/repo', extra=ex)
for c in O.spec_classes(prog, 'spec_tmp'):
    r = O.decide(prog, c)
    print(r.status[:10].ljust(10), c.name, '' if r.status == O.OK else r.detail[:1500])
    if '-v' in sys.argv:
        x, y = O.both(prog, c, 400000, ())
        for n, s in (('code', x), ('spec', y)):
            print('  ', n, 'RET', O.show(s.ret, 14)); print('  ', n, 'TRACE', O.show(s.trace, 12)); print('  ', n, 'RAISE', O.show(s.raises, 12))
