"""Obligations: pairs of summaries (what the code does / what the property says) decided by normal-form equality."""
import ast
import os
import time
import traceback
from .terms import *
from .terms import LIMIT
from .state import *
from .engine import Engine
from .summary import finish, canon, Summary
from .compare import verdict, clip, HARD, free
from .program import Program, AnalysisError, ClassInfo, FuncInfo

OK, BAD, OPEN = 'discharged', 'violated', 'undecided'


class Result:
    def __init__(self, rule, construct, where, status, detail='', key=None, size=0):
        self.rule, self.construct, self.where, self.status, self.detail = rule, construct, where, status, detail
        self.key = key or '%s|%s' % (rule, construct)
        self.size = size

    def json(self):
        return {'rule': self.rule, 'construct': self.construct, 'where': self.where, 'status': self.status,
                'detail': self.detail}


SPEC_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


def load(repo='/repo'):
    extra = {}
    for n in sorted(os.listdir(SPEC_DIR)):
        if n.endswith('.py'):
            extra['spec_' + n[:-3]] = os.path.join(SPEC_DIR, n)
    return Program(repo, extra=extra)


def lit(cls, name, default=None):
    v = cls.attrs.get(name)
    return ast.literal_eval(v) if v is not None else default


def gone(prog, mod):
    """names a specification module takes from the package that no longer exist"""
    out = {}
    for s in mod.tree.body:
        if isinstance(s, ast.ImportFrom) and s.module and s.module.split('.')[0] == 'ficus':
            m = prog.module(s.module)
            if m is None and s.module.endswith(('_pb2', '_pb2_grpc')):
                continue
            for a in s.names:
                if m is None or a.name != '*' and a.name not in m.bindings:
                    out[a.asname or a.name] = '%s.%s' % (s.module, a.name)
    return out


def mentions(mod, cls):
    """names of its module a specification uses, directly or through other definitions of the module"""
    top = {d.name: d for d in mod.tree.body if isinstance(d, (ast.FunctionDef, ast.ClassDef))}
    seen, todo = set(), [cls.name]
    while todo:
        d = top.get(todo.pop())
        for x in ast.walk(d) if d is not None else ():
            if isinstance(x, ast.Name) and x.id not in seen:
                seen.add(x.id)
                todo.append(x.id)
    return seen


def spec_classes(prog, module):
    m = prog.module(module)
    lost = gone(prog, m)
    for n, b in m.bindings.items():
        if b[0] == 'class' and b[1].module is m and 'code' in b[1].methods and 'spec' in b[1].methods:
            if lost:
                b[1].lost = sorted(lost[x] for x in mentions(m, b[1]) & set(lost))
            yield b[1]


def locate(prog, spec_cls):
    """the repository construct an obligation is about"""
    t = lit(spec_cls, 'target')
    if not t:
        return spec_cls.name, ''
    name = t.split('.')
    b = spec_cls.module.bindings.get(name[0])
    if b and b[0] == 'lazy':
        b = prog.resolve(spec_cls.module, name[0])
    f = b[1] if b and b[0] in ('class', 'func') else prog.find_class(name[0], required=False) or \
        next((x for x in prog.all_functions() if x.name == name[0]), None)
    if len(name) == 2 and isinstance(f, ClassInfo):
        m = prog.lookup(f, name[1])
        f = m[1] if m and m[0] == 'method' else f
    return t, getattr(f, 'where', '')


def run_side(prog, cls, side, budget, opaque, order, known, shared=None, instance=None):
    E = Engine(prog, budget=budget, opaque=opaque, mutating=lit(cls, 'mutates', ()))
    E.dispatch = side == 'code' and lit(cls, 'dispatch', False)
    E.types.sym.update(known)
    E.instance, E.members = {}, {}
    for d, (vals, field) in (instance or {}).items():
        E.members[d] = vals
        E.instance[d if field is None else t_attr(d, field)] = vals
    f = cls.methods[side]
    st = E.begin(budget)
    E.stream = set(lit(cls, 'stream', ()))
    if side == 'spec':
        for n in lit(cls, 'recursive', ()):
            b = prog.resolve(cls.module, n)
            if b is not None and b[0] == 'func':
                E.stack.append(b[1].qual)
    E.preload(st, shared or {})
    args = {}
    for p, q in zip(order.node.args.args, f.node.args.args):
        ty = E.types.ann(order.module, p.annotation) if p.annotation is not None else None
        s = E.sym(p.arg, ty)
        args[q.arg] = s
    v = E.call_fn(st, f, [], args, None)
    if set(E.shared) - set(shared or {}) and len(shared or {}) < 8:
        return run_side(prog, cls, side, budget, opaque, order, known, {**(shared or {}), **E.shared}, instance)
    given = {p.arg for p in order.node.args.args if p.annotation is not None}
    for t, ty in E.types.sym.items():
        if t.kind not in ('ref', 'phi', 'hole') and not (t.kind == 'sym' and t.args[0] in given):
            known.setdefault(t, ty)
    r = finish(E, st, v, f.where)
    r.types = E.types
    return r


def both(prog, cls, budget, opaque, instance=None):
    """summaries of the two sides; what one learns from annotations about a value, the other may use"""
    known = {}
    for _ in range(3):
        n = len(known)
        x = run_side(prog, cls, 'code', budget, opaque, cls.methods['code'], known, None, instance)
        y = run_side(prog, cls, 'spec', budget, opaque, cls.methods['code'], known, None, instance)
        if len(known) == n:
            break
    return x, y


UNDEF = T('undef')


def normal(s):
    """the condition under which a construct returns normally"""
    n = TRUE
    for c in s.raises.args:
        n = land(n, neg(c.args[0]))
    return n


BLUNDERS = ('TypeError', 'AttributeError', 'NameError', 'UnboundLocalError')


def exn_cases(c, e):
    if e.kind == 'ite':
        return exn_cases(land(c, e.args[0]), e.args[1]) + exn_cases(land(c, neg(e.args[0])), e.args[2])
    return [(c, e)]


def blunder(x, y):
    """the case in which the code fails in a way no caller can mean, where the specification returns"""
    ny = normal(y)
    for r in x.raises.args:
        for c, e in exn_cases(r.args[0], r.args[1]):
            if e.kind == 'exn' and e.args[1:] == ('!',) and e.args[0] in BLUNDERS:
                k = land(c, ny)
                if k is not FALSE and not any(z.kind in HARD for z in subterms(k)):
                    return e.args[0], k
    return None


def spread(e):
    """one effect or another, as a choice of sequences"""
    if e.kind == 'ite':
        return ite(e.args[0], spread(e.args[1]), spread(e.args[2]))
    return T('segs', T('item', e))


def strip(t, drop):
    """an effect sequence without the effects an obligation is not about"""
    if t.kind == 'segs':
        out = ()
        for x in t.args:
            if x.kind == 'alt':
                out = cat_segs(out, mk_alt(strip(x.args[0], drop)))
            elif x.kind == 'each':
                inner = strip(x.args[2], drop)
                out = cat_segs(out, mk_each(x.args[0], x.args[1], inner.args))
            elif x.kind == 'item' and x.args[0].kind == 'ite':
                out = cat_segs(out, mk_alt(strip(spread(x.args[0]), drop)))
            elif x.kind == 'item' and drop(x.args[0]):
                pass
            else:
                out = cat_segs(out, (x,))
        return T('segs', *out)
    if t.kind == 'ite':
        return ite(t.args[0], strip(t.args[1], drop), strip(t.args[2], drop))
    return t


# parameter names of library methods that may be passed by position
LIBRARY = {'node': ('name', 'label'), 'edge': ('tail_name', 'head_name', 'label'), 'os.makedirs': ('name', 'mode', 'exist_ok')}


def by_name(t, memo=None):
    """calls of known library functions with their arguments by name"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = t
    if any(isinstance(a, Term) for a in t.args):
        na = [by_name(a, memo) if isinstance(a, Term) else a for a in t.args]
        r = rebuild(t.kind, na) if any(x is not y for x, y in zip(na, t.args)) else t
    if r.kind == 'dict' and r.args and r.args[0].kind == 'segs' and len(r.args[0].args) == 1:
        x = r.args[0].args[0]
        if x.kind == 'splat' and x.args[0].kind == 'deepcopy':
            r = x.args[0]
    if r.kind == 'dict' and r.args and r.args[0].kind == 'segs' and len(r.args[0].args) > 1:
        x, rest = r.args[0].args[0], r.args[0].args[1:]
        if x.kind == 'splat' and x.args[0].kind == 'defaultdict' and all(grouping(y) for y in rest):
            r = T('dict', T('segs', *rest))
    if r.kind == 'list' and r.args and r.args[0].kind == 'segs' and len(r.args[0].args) == 1:
        x = r.args[0].args[0]
        if x.kind == 'splat' and x.args[0].kind == 'sorted':
            r = x.args[0]
    off = {'mcall': 2, 'call': 1}.get(r.kind)
    if off:
        sig = LIBRARY.get(r.args[off - 1]) if isinstance(r.args[off - 1], str) else None
        if sig:
            rest, pos = r.args[off:], []
            while len(pos) < len(rest) and rest[len(pos)].kind not in ('kw', 'kwsplat', 'splat'):
                pos.append(rest[len(pos)])
            if len(pos) <= len(sig) and all(x.kind == 'kw' for x in rest[len(pos):]):
                kws = [T('kw', n, v) for n, v in zip(sig, pos)] + list(rest[len(pos):])
                r = T(r.kind, *(list(r.args[:off]) + sorted(kws, key=lambda k: k.args[0])))
    memo[t] = r
    return r


def grouping(s):
    if s.kind == 'each':
        return isinstance(s.args[2], Term) and all(grouping(y) for y in s.args[2].args)
    if s.kind == 'alt':
        return all(l.kind == 'segs' and all(grouping(y) for y in l.args) for l in leaves(s.args[0]))
    return s.kind == 'group'


def is_mkdir(e):
    """the directory an effect creates if it is missing"""
    if e.kind == 'do' and e.args[0].kind == 'call' and e.args[0].args[0] == 'os.makedirs':
        k = {x.args[0]: x.args[1] for x in e.args[0].args[1:] if x.kind == 'kw'}
        if k.get('exist_ok') is TRUE:
            return k.get('name')
    return None


def mkdirs(t):
    """creating a directory unless it exists is creating it if missing"""
    if t.kind == 'segs':
        out = ()
        for x in t.args:
            if x.kind == 'alt':
                out = cat_segs(out, mk_alt(mkdirs(x.args[0])))
            elif x.kind == 'item' and x.args[0].kind == 'do' and x.args[0].args[0].kind == 'call' and \
                    x.args[0].args[0].args[0] in ('os.path.exists', 'os.path.isdir', 'os.path.dirname', 'os.path.splitext'):
                pass                # queries
            else:
                out = cat_segs(out, (x,))
        return T('segs', *out)
    if t.kind == 'ite':
        for a in cond_atoms(t.args[0]):
            if a.kind == 'truthy' and a.args[0].kind == 'call' and a.args[0].args[0] in ('os.path.exists', 'os.path.isdir'):
                d = a.args[0].args[1]
                yes, no = mkdirs(assume(t, a, True)), mkdirs(assume(t, a, False))
                if strip(yes, lambda e: is_mkdir(e) is d) is strip(no, lambda e: is_mkdir(e) is d):
                    return no
        return ite(t.args[0], mkdirs(t.args[1]), mkdirs(t.args[2]))
    return t


def focused(names, about=None):
    def drop(e):
        if e.kind == 'print' and about is not None:
            return not any(x.kind == 'attr' and x.args[1] == about for x in subterms(e))
        if e.kind == 'do':
            c = e.args[0]
            if c.kind in ('mcall', 'vcall'):
                return c.args[1] not in names
            if c.kind == 'call':
                return c.args[0] not in names and c.args[0].split('.')[-1] not in names
        return e.kind not in names
    return drop


def dropper(cls):
    if lit(cls, 'focus') is not None:
        return focused(set(lit(cls, 'focus')), lit(cls, 'print_about'))
    quiet = set(lit(cls, 'opaque', ()))
    prints, apps = lit(cls, 'prints', False), lit(cls, 'pure_args', False)

    def drop(e):
        if e.kind == 'print':
            return not prints
        if e.kind == 'do':
            c = e.args[0]
            if c.kind == 'call':
                return c.args[0] in quiet or c.args[0].split('.')[-1] in quiet
            if c.kind == 'app':
                return apps
        if e.kind in ('setitem', 'delitem', 'append', 'add', 'mutate', 'setattr'):
            # a change of a value an uninterpreted function has just made
            b = e.args[0]
            while b.kind in ('sub', 'attr'):
                b = b.args[0]
            return b.kind == 'call' and (b.args[0] in quiet or b.args[0].split('.')[-1] in quiet)
        return False
    return drop


PURE_LIBS = ('numpy.', 'math.', 'os.path.', 'copy.', 'operator.', 'itertools.', 'functools.', 'collections.')


def idle(e):
    """a library call that only makes a value"""
    if e.kind == 'do' and e.args[0].kind == 'call' and isinstance(e.args[0].args[0], str):
        n = e.args[0].args[0]
        return n.startswith(PURE_LIBS) or '.' in n and n.split('.')[-1][:1].isupper() and n.split('.')[0] != 'ficus' \
            and n.split('.')[-1] != 'Popen' and n.split('.')[0] in FOREIGN
    return False


# libraries whose classes do nothing but hold what they are made of
FOREIGN = {'matplotlib', 'graphviz', 'numpy', 'pandas', 'sklearn', 'ipycanvas', 'IPython', 'suffix_tree', 'intervaltree',
           'xml', 'datetime', 'uuid', 'threading', 'pm4py'}
# settings of a plot that do not depend on each other
SETTINGS = {'set_xlabel', 'set_ylabel', 'set_zlabel', 'set_title', 'tick_params', 'axis', 'suptitle', 'legend'}


def setting(x):
    if x.kind == 'item' and x.args[0].kind == 'do' and x.args[0].args[0].kind == 'mcall':
        return x.args[0].args[0].args[1] in SETTINGS
    if x.kind == 'alt':
        return all(l.kind == 'segs' and len(l.args) <= 1 and all(setting(y) for y in l.args) for l in leaves(x.args[0]))
    return False


def settle(t):
    """runs of independent settings in a fixed order"""
    if t.kind == 'segs':
        out, run = [], []

        def flush():
            out.extend(sorted(run, key=lambda x: x.dig))
            run.clear()
        for x in t.args:
            if x.kind == 'each':
                x = T('each', x.args[0], x.args[1], settle(x.args[2]))
            elif x.kind == 'alt' and not setting(x):
                x = T('alt', settle(x.args[0]))
            if setting(x):
                run.append(x)
            else:
                flush()
                out.append(x)
        flush()
        return T('segs', *out)
    if t.kind == 'ite':
        return ite(t.args[0], settle(t.args[1]), settle(t.args[2]))
    return t


def project(cls, s, care):
    """the part of a summary an obligation is about; what is returned matters only where both sides return"""
    weak = lit(cls, 'compare', 'all')
    d = dropper(cls)
    trace = settle(strip(strip(s.trace, idle), d))
    raises = T('raises', *[T('case', c.args[0], c.args[1], settle(strip(strip(c.args[2], idle), d))) for c in s.raises.args])
    ret = ite(care, s.ret, UNDEF)
    if weak == 'ret':
        t = T('summary', ret, EMPTY, T('raises'))
    elif weak == 'trace':
        t = T('summary', NONE, trace, T('raises'))
    elif weak == 'noraise':
        t = T('summary', ret, T('segs', *mk_alt(ite(care, trace, EMPTY))), T('raises'))
    else:
        t = T('summary', ret, trace, raises)
    t = by_name(t)
    t = T('summary', t.args[0], mkdirs(t.args[1]), t.args[2])
    t = canon(t)
    if lit(cls, 'unordered'):
        from .wire import unorder
        t = canon(unorder(t))
    return t


def called(t, names):
    return {n for x in subterms(t) if x.kind == 'call' for n in names
            if x.args[0] == n or x.args[0].split('.')[-1] == n}


def by_length(a, b):
    """what is measured somewhere has a length, so testing it directly is testing that length"""
    for _ in range(6):
        if a is b:
            break
        both = set(subterms(a)) | set(subterms(b))
        m = {x: T('nonempty', x.args[0]) for x in both if x.kind == 'truthy'
             and (T('nonempty', x.args[0]) in both or T('len', x.args[0]) in both)}
        # a method called on a value whose class is known on one side only
        m.update({x: T('mcall', *x.args) for x in both if x.kind == 'vcall' and T('mcall', *x.args) in both})
        # what is measured inside what is measured first
        m = {x: y for x, y in m.items() if not any(z in m for z in subterms(x) if z is not x)}
        if not m:
            break
        a, b = subst(a, m), subst(b, m)
    return a, b


BOUND = ('each', 'elem', 'idx', 'fold', 'foldc', 'any', 'until', 'first', 'firstidx', 'lastof', 'sum', 'splat')


SIMPLE = {'sym', 'attr', 'sub', 'const', 'call', 'app', 'mcall', 'vcall', 'kw', 'appended'}


def sequences(ts, old, simple):
    """what the loops of terms run over, where that is part of an argument or another unknown value"""
    out = {}
    for t in ts:
        for x in subterms(t):
            if x.kind in BOUND and isinstance(x.args[0], Term):
                d = x.args[0]
                while d.kind == 'until':
                    d = d.args[0]
                if d.kind in SIMPLE - {'const', 'kw'} and d not in old \
                        and all(y.kind in SIMPLE for y in subterms(d)) == simple:
                    out[d] = None
    return list(out)


def behaves_as(prog, ty):
    """None: not a sequence; otherwise the attribute an object keeps its elements in, '' for plain sequences"""
    if ty is None or ty[0] == 'list':
        return ''
    return Engine(prog, budget=1000).seq_field(ty[1]) if ty[0] == 'cls' else None


def few(d, n):
    return T('list', T('segs', *[T('item', T('sub', d, const(i))) for i in range(n)]))


def instances(prog, cls, ds, x, y, drop, verbose=False):
    """the sides compared again for sequences of two elements: a difference there is one of the whole"""
    first, sides = [z for d in ds for z in (d.a, d.b)], (x, y)
    end = time.time() + 40
    for simple in (True, False):
        inst, ts, (x, y) = {}, first, sides
        for _ in range(3):
            kind = {d: behaves_as(prog, x.types.of(d) or y.types.of(d)) for d in sequences(ts, inst, simple)}
            new = [d for d in kind if kind[d] is not None]
            if not simple:
                new = sorted(new, key=lambda d: (d.size, d.dig))[:1]
            if not new or len(new) > 12 or time.time() > end:
                break
            inst = {**inst, **{d: (few(d, 2), kind[d] or None) for d in new}}
            try:
                x, y, ds, dec = compare_sides(prog, cls, drop, inst)
            except (Budget, RecursionError):
                break
            if verbose:
                print('instances', [show(d) for d in new], dec, [d.text() for d in ds][:3])
            if dec and any(settled(d, inst) for d in ds):
                return [d for d in ds if settled(d, inst)]
            if not ds:
                break
            ts = [z for d in ds for z in (d.a, d.b)]
            simple = True
    return selected(prog, cls, first, drop, verbose) if time.time() < end else None


def carried(t):
    """nothing but the elements of parts of unknown values"""
    if t.kind == 'each':
        return t.args[0].kind == 'attr' and free(t.args[0])
    if t.kind == 'alt':
        return all(carried(l) for l in leaves(t.args[0]))
    return t.kind == 'segs' and all(carried(x) for x in t.args)


def settled(d, inst):
    """a difference that does not come from what two elements leave open"""
    if any(p.startswith(('dict', 'put')) for p in d.path) and not (
            EMPTY in (d.a, d.b) and d.path[-1] == 'dict' and carried(d.a) and carried(d.b)):
        return False        # entries under keys that may be the same
    keys = {x.args[0] for vals, _ in inst.values() for x in vals.args[0].args}
    for t, v in ((d.a, True), (d.b, True)) + d.cond:
        todo, seen = [t], set()
        while todo:
            z = todo.pop()
            if z in seen or z in keys:
                continue
            seen.add(z)
            if z in inst or z.kind == 'setitem' or z.kind == 'attr' and z.args[0].kind in ('list', 'tup', 'set', 'dict'):
                return False        # the sequence itself is still there
            todo += [y for y in z.args if isinstance(y, Term)]
        if v and t.kind == 'is' and t.args[1] is NONE:
            u = t.args[0]
            while u.kind in ('sub', 'attr') and u not in keys:
                u = u.args[0]
            if u in keys:
                return False        # elements are objects
    return True


def selected(prog, cls, ts, drop, verbose):
    """the same for a selection from the entries of an unknown mapping"""
    doms = set()
    for t in ts:
        for z in subterms(t):
            if z.kind in BOUND and isinstance(z.args[0], Term) and z.args[0].kind == 'slice':
                doms.add(z.args[0])
    for d in sorted(doms, key=lambda z: z.dig):
        base, lo, hi = d.args[:3]
        while base.kind in ('sorted', 'items'):
            base = base.args[0]
        n = lin_sub(hi, lo)
        if base.kind not in SIMPLE - {'const', 'kw'} or hi is not T('len', d.args[0]) or n.kind == 'const':
            continue
        vals = few(d, 2)
        keys = [x.args[0] for x in vals.args[0].args]
        try:
            x, y, ds, dec = compare_sides(prog, cls, drop, {d: (vals, None)})
        except (Budget, RecursionError):
            continue
        if verbose:
            print('selected', dec, [z.text() for z in ds][:3])
        # nothing may depend on how the entries were selected, ordered or told apart
        if dec and not any(depends(z, base, keys) for q in ds for z in (q.a, q.b) + tuple(c for c, _ in q.cond)):
            return ds
    return None


def depends(t, base, keys):
    seen, todo = set(), [t]
    while todo:
        z = todo.pop()
        if z in seen:
            continue
        seen.add(z)
        if z is base or z.kind in ('eq', 'is', 'in') and NONE not in z.args and any(k in set(subterms(z)) for k in keys):
            return True
        if z.kind in ('sub', 'item') and z.args[0] in keys:
            if z.args[1] is not ZERO:
                return True
            continue
        todo += [y for y in z.args if isinstance(y, Term)]
    return False


def opaque_names(cls, drop):
    keep = tuple(n for n in lit(cls, 'opaque', ()) if n not in drop)
    return keep, keep + tuple(lit(cls, 'calls', ())) + tuple(lit(cls, 'mutates', ())) + tuple(lit(cls, 'stream', ()))


def compare_sides(prog, cls, drop, instance):
    keep, opaque = opaque_names(cls, drop)
    budget = lit(cls, 'budget', 150000)
    x, y = both(prog, cls, budget, opaque, instance)
    LIMIT[0] = max(400000, budget)
    care = land(normal(x), normal(y))
    a, b = by_length(project(cls, x, care), project(cls, y, care))
    if a is b:
        return x, y, [], False
    ds, dec = verdict(a, b, lit(cls, 'fresh', False), lit(cls, 'identity', False))
    if any(z.kind == 'exc' for s in (x, y) for z in subterms(s.raises)) or called(b, keep) - called(a, keep):
        dec = False
    return x, y, ds, dec


def decide(prog, cls, verbose=False, drop=frozenset()):
    budget = lit(cls, 'budget', 150000)
    keep, opaque = opaque_names(cls, drop)
    target, where = locate(prog, cls)
    doc = (ast.get_docstring(cls.node) or cls.name).strip().splitlines()[0]
    rule = cls.name
    if getattr(cls, 'lost', None):
        return Result(rule, target, where, OPEN, 'the code no longer defines ' + ', '.join(cls.lost))
    try:
        x, y = both(prog, cls, budget, opaque)
        LIMIT[0] = max(400000, budget)
        care = land(normal(x), normal(y))
        if lit(cls, 'compare', 'all') != 'all':
            bl = blunder(x, y)
            if bl:
                return Result(rule, target, where, BAD, '%s -- raises %s%s' % (
                    doc, bl[0], '' if bl[1] is TRUE else ' when ' + clip(show(bl[1], 6))))
        a, b = by_length(project(cls, x, care), project(cls, y, care))
        if verbose:
            print(show(a, 14))
        if a is b:
            if a.unk:
                return Result(rule, target, where, OPEN, 'equal up to unsupported constructs: %s' % sorted(
                    {x.args[0] for x in subterms(a) if x.kind == 'unk'})[:3], size=a.size)
            return Result(rule, target, where, OK, doc, size=min(a.size, 10 ** 9))
        ds, dec = verdict(a, b, lit(cls, 'fresh', False), lit(cls, 'identity', False))
        if not ds and not a.unk and not b.unk:
            return Result(rule, target, where, OK, doc, size=min(a.size, 10 ** 9))
    except Budget:
        return Result(rule, target, where, OPEN, 'work limit exceeded')
    except AnalysisError:
        raise
    except RecursionError:
        return Result(rule, target, where, OPEN, 'recursion limit')
    except Exception as e:
        if verbose:
            traceback.print_exc()
        return Result(rule, target, where, OPEN, 'analysis failed: %r' % (e,))
    hard = ds if dec else []
    if any(z.kind == 'exc' for s in (x, y) for z in subterms(s.raises)):
        hard = []       # exceptions are caught: when is not known
    if hard:
        # a function kept uninterpreted that only the specification calls may have been inlined in the code
        lost = called(b, keep) - called(a, keep)
        if lost:
            r = decide(prog, cls, verbose, drop | lost)
            if r.status != BAD:
                return r
        return Result(rule, target, where, BAD, doc + ' -- ' + hard[0].text())
    if ds:
        try:
            found = instances(prog, cls, ds, x, y, drop, verbose)
        except AnalysisError:
            raise
        except Exception:
            if verbose:
                traceback.print_exc()
            found = None
        if found:
            return Result(rule, target, where, BAD, '%s -- with two elements: %s' % (doc, found[0].text()))
    return Result(rule, target, where, OPEN, 'difference not decided: ' + (ds[0].text(4) if ds else '?'))
