"""auto.py MODULE-SUBSTRING [--props C06,C07] [--show] : mutate every function the specifications reach and report what
the obligations that reach it say (violated / undecided / missed).  Development tool, no check uses it."""
import ast, copy, os, sys, time, collections, tempfile, multiprocessing
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
from sa import engine
from sa.oblig import *
from rules.specs import modules

REPO = '/repo'
CHECKS_TOO = os.environ.get('CHECKS', '').split()


def coverage():
    """spec class -> functions its two sides enter"""
    seen = set()
    orig = engine.Engine.call_fn
    def cf(self, st, f, args, kw, node, cls=None):
        if not (f.name in self.opaque or f.qual.split(':')[-1] in self.opaque):
            seen.add(f.qual)
        return orig(self, st, f, args, kw, node, cls)
    engine.Engine.call_fn = cf
    prog = load(REPO)
    out = {}
    for m in modules():
        for c in spec_classes(prog, 'spec_' + m):
            seen.clear()
            decide(prog, c)
            out[m, c.name] = set(seen)
    engine.Engine.call_fn = orig
    return out


def targets(tree, modname):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield modname + ':' + n.name, n
        elif isinstance(n, ast.ClassDef):
            for k in n.body:
                if isinstance(k, ast.FunctionDef):
                    yield modname + ':' + n.name + '.' + k.name, k


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def mutations(fn):
    """(description, apply) pairs; apply edits a deep copy given by index path"""
    out = []
    nodes = list(ast.walk(fn))
    params = [a.arg for a in fn.args.args if a.arg not in ('self', 'cls')]
    attrs = collections.defaultdict(set)
    for n in nodes:
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            attrs[n.value.id].add(n.attr)
    def add(i, d, f):
        out.append((i, d, f))
    for i, n in enumerate(nodes):
        if getattr(n, '_skip', False):
            continue
        L = getattr(n, 'lineno', 0)
        src = ast.unparse(n)[:70].replace('\n', ' ') if isinstance(n, (ast.expr, ast.stmt)) else ''
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.If, ast.For, ast.Raise)) and \
                            not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        def f(m, fld=fld, j=j):
                            getattr(m, fld)[j] = ast.Pass()
                        add(i, 'L%d delete: %s' % (s.lineno, ast.unparse(s)[:60].replace('\n', ' ')), f)
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for j in range(len(n.args) - 1):
                    def f(m, j=j):
                        m.args[j], m.args[j + 1] = m.args[j + 1], m.args[j]
                    add(i, 'L%d swap args %d: %s' % (L, j, src), f)
            for j, k in enumerate(n.keywords):
                def f(m, j=j):
                    del m.keywords[j]
                add(i, 'L%d drop kw %s: %s' % (L, k.arg, src), f)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            def f(m):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            add(i, 'L%d negate: %s' % (L, ast.unparse(n.test)[:60]), f)
        if isinstance(n, ast.comprehension) and n.ifs:
            def f(m):
                m.ifs = []
            add(i, 'drop comp if: %s' % ast.unparse(n.ifs[0])[:60], f)
        if isinstance(n, (ast.For, ast.comprehension)):
            def f(m):
                m.iter = ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [m.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())
            add(i, 'L%d skip first: %s' % (L, ast.unparse(n.iter)[:60]), f)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            def f(m):
                m.ops = [CMP[type(m.ops[0])]()]
            add(i, 'L%d compare: %s' % (L, src), f)
        if isinstance(n, ast.BoolOp):
            def f(m):
                m.op = ast.And() if isinstance(m.op, ast.Or) else ast.Or()
            add(i, 'L%d and/or: %s' % (L, src), f)
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and isinstance(n.op, (ast.Add, ast.Sub)):
            def f(m):
                m.op = ast.Sub() if isinstance(m.op, ast.Add) else ast.Add()
            add(i, 'L%d +/-: %s' % (L, src), f)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            def f(m):
                m.value = not m.value
            add(i, 'L%d bool %s' % (L, n.value), f)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            def f(m):
                m.value += 1
            add(i, 'L%d number %s' % (L, n.value), f)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in params and len(params) > 1:
            o = params[(params.index(n.id) + 1) % len(params)]
            def f(m, o=o):
                m.id = o
            add(i, 'L%d name %s->%s' % (L, n.id, o), f)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and len(attrs[n.value.id]) > 1:
            A = sorted(attrs[n.value.id])
            o = A[(A.index(n.attr) + 1) % len(A)]
            def f(m, o=o):
                m.attr = o
            add(i, 'L%d attr %s->%s' % (L, src, o), f)
    return out


def job(a):
    rel, modname, qual, i, k, specs = a
    path = REPO + '/src/python/ficus/' + rel
    tree = ast.parse(open(path).read())
    fn = dict(targets(tree, modname))[qual]
    # annotations are no behaviour
    for n in ast.walk(fn):
        for fld in ('annotation', 'returns'):
            x = getattr(n, fld, None)
            if isinstance(x, ast.AST):
                for y in ast.walk(x):
                    y._skip = True
    m = mutations(fn)[k]
    node = list(ast.walk(fn))[m[0]]
    m[2](node)
    ast.fix_missing_locations(tree)
    try:
        text = ast.unparse(tree)
        ast.parse(text)
    except Exception as e:
        return qual, m[1], 'invalid', repr(e)
    fd, tmp = tempfile.mkstemp(suffix='.py', dir='/tmp/auto')
    os.write(fd, text.encode()); os.close(fd)
    try:
        prog = load(REPO)
        prog.paths[modname] = (tmp, prog.paths[modname][1])
        bad, opn = [], []
        if CHECKS_TOO:
            from rules.registry import CHECKS
            from rules.common import Run
            for p in CHECKS_TOO:
                run = Run(REPO)
                run.prog.paths[modname] = (tmp, run.prog.paths[modname][1])
                CHECKS[p].rules[0](run)
                for r in run.results:
                    if r.status == BAD and 'underlying_events_count' not in r.key: bad.append(p)
                    elif r.status == OPEN: opn.append(p + ':' + r.rule + ' ' + r.construct)
                if bad: return qual, m[1], 'violated', ' '.join(bad)
        for sm, sc in specs:
            c = prog.module('spec_' + sm).bindings[sc][1]
            r = decide(prog, c)
            if r.status == BAD: bad.append(sc)
            elif r.status == OPEN: opn.append(sc + ((': ' + r.detail[:700]) if os.environ.get('DETAIL') else ''))
            if bad: break
        return qual, m[1], 'violated' if bad else 'undecided' if opn else 'MISSED', ' '.join(bad or opn)
    except Exception as e:
        return qual, m[1], 'crash', repr(e)[:100]
    finally:
        os.unlink(tmp)


def main():
    sub = sys.argv[1]
    cov = coverage()
    byfn = collections.defaultdict(set)
    for s, fs in cov.items():
        for f in fs:
            byfn[f].add(s)
    prog = load(REPO)
    jobs, uncovered = [], []
    for mod, (p, ispkg) in sorted(prog.paths.items()):
        if mod.startswith('spec_') or prog._is_pb(mod):
            continue
        rel = os.path.relpath(p, REPO + '/src/python/ficus')
        if not any(s in rel for s in sub.split(',')):
            continue
        tree = ast.parse(open(p).read())
        for qual, fn in targets(tree, mod):
            if not byfn.get(qual) and not CHECKS_TOO:
                uncovered.append(qual)
                continue
            if len(sys.argv) > 2 and not sys.argv[2].startswith('-') and not any(x in qual for x in sys.argv[2].split(',')):
                continue
            for n in ast.walk(fn):
                for fld in ('annotation', 'returns'):
                    x = getattr(n, fld, None)
                    if isinstance(x, ast.AST):
                        for y in ast.walk(x):
                            y._skip = True
            for k in range(len(mutations(fn))):
                jobs.append((rel, mod, qual, 0, k, sorted(byfn[qual])))
    print(len(jobs), 'mutants;', 'not reached:', ' '.join(q.replace('ficus.', '') for q in uncovered))
    tot = collections.Counter()
    with multiprocessing.Pool(8, maxtasksperchild=40) as pool:
        per = collections.defaultdict(list)
        for q, d, s, w in pool.imap_unordered(job, jobs, chunksize=4):
            tot[s] += 1
            per[q].append((s, d, w))
    print(dict(tot))
    for q in sorted(per):
        c = collections.Counter(s for s, d, w in per[q])
        print(q.split(':')[-1].ljust(50), dict(c))
        for s, d, w in sorted(per[q]):
            if s != 'violated' or os.environ.get('ALL'):
                print('      ', s.ljust(9), d, '' if s == 'MISSED' else '[' + w[:80] if not os.environ.get('DETAIL') else w + ']')


if __name__ == '__main__':
    main()
