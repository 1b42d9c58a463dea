"""refac.py MODULE-SUBSTRING[,..] [FUNC-SUBSTRING,..] : apply behaviour-preserving rewrites, one site at a time, to every
function the specifications reach; report obligations that raise an alarm.  Development tool, no check uses it.
env: ALL=1 also show undecided; CHECKS="C01 .." also run rule checks; ONLY=kind,kind; DETAIL=1"""
import ast, copy, os, sys, collections, tempfile, multiprocessing
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/tools'); sys.setrecursionlimit(20000)
from sa.oblig import *
from auto import coverage, targets, REPO
CHECKS_TOO = os.environ.get('CHECKS', '').split()
A = ast


def N(i, c=None):
    return A.Name(i, c or A.Load())


def S(i):
    return A.Name(i, A.Store())


def no(t):
    if isinstance(t, A.UnaryOp) and isinstance(t.op, A.Not):
        return t.operand
    if isinstance(t, A.Compare) and len(t.ops) == 1:
        inv = {A.Eq: A.NotEq, A.NotEq: A.Eq, A.Is: A.IsNot, A.IsNot: A.Is, A.In: A.NotIn, A.NotIn: A.In}
        if type(t.ops[0]) in inv:
            return A.Compare(t.left, [inv[type(t.ops[0])]()], t.comparators)
    return A.UnaryOp(A.Not(), t)


def ends(b):
    return bool(b) and isinstance(b[-1], (A.Return, A.Raise, A.Continue, A.Break))


def simple(e):
    return isinstance(e, (A.Name, A.Constant)) or isinstance(e, A.Attribute) and simple(e.value)


def names(n, ctx=None):
    return {x.id for x in A.walk(n) if isinstance(x, A.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def scope_walk(fn):
    """nodes of the function itself, not of nested functions"""
    st = list(fn.body)
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (A.FunctionDef, A.Lambda, A.ClassDef)):
            continue
        st += list(A.iter_child_nodes(x))


def locals_of(fn):
    r = {x.id for x in scope_walk(fn) if isinstance(x, A.Name) and isinstance(x.ctx, A.Store)}
    comp = {y.id for x in scope_walk(fn) if isinstance(x, A.comprehension) for y in A.walk(x.target) if isinstance(y, A.Name)}
    return r - comp


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def gen_of(e):
    """(element or (key,value), generators) of a comprehension or list(map(lambda..))"""
    if isinstance(e, (A.ListComp, A.SetComp, A.GeneratorExp)):
        return e.elt, e.generators
    if isinstance(e, A.DictComp):
        return (e.key, e.value), e.generators
    if isinstance(e, A.Call) and isinstance(e.func, A.Name) and e.func.id == 'map' and len(e.args) == 2 and isinstance(e.args[0], A.Lambda) \
            and len(e.args[0].args.args) == 1:
        l = e.args[0]
        return l.body, [A.comprehension(S(l.args.args[0].arg), e.args[1], [], 0)]
    if isinstance(e, A.Call) and isinstance(e.func, A.Name) and e.func.id == 'filter' and len(e.args) == 2 and isinstance(e.args[0], A.Lambda):
        l = e.args[0]
        return N(l.args.args[0].arg), [A.comprehension(S(l.args.args[0].arg), e.args[1], [l.body], 0)]
    return None


def loops(gens, inner):
    for g in reversed(gens):
        for c in reversed(g.ifs):
            inner = [A.If(c, inner, [])]
        inner = [A.For(g.target, g.iter, inner, [], lineno=0)]
    return inner


def fresh(fn, base):
    used = names(fn) | set(params(fn))
    i = 0
    while base + str(i) in used:
        i += 1
    return base + str(i)


def contains(n, *ts):
    return any(isinstance(x, ts) for x in A.walk(n))


class Site:
    def __init__(self, kind, desc, f):
        self.kind, self.desc, self.f = kind, desc, f


def sites(fn, cls, tree):
    """rewrites as (kind, description, apply) where apply edits fn (and tree) in place"""
    out = []
    bodies = []
    for n in A.walk(fn):
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], A.stmt):
                bodies.append((n, b))

    def add(kind, node, f):
        out.append(Site(kind, 'L%d %s' % (getattr(node, 'lineno', 0), A.unparse(node)[:60].replace('\n', ' ')), f))

    def rep(b, j, new):
        def f():
            b[j:j + 1] = new
        return f
    inloop = {}
    for n in A.walk(fn):
        if isinstance(n, (A.For, A.While)):
            for x in A.walk(n):
                if isinstance(x, A.If):
                    inloop[x] = n
    for owner, b in bodies:
        for j, s in enumerate(b):
            if isinstance(s, A.If):
                if s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], A.If)):
                    add('ifswap', s.test, rep(b, j, [A.If(no(s.test), s.orelse, s.body)]))
                if not s.orelse and ends(s.body) and j + 1 < len(b):
                    def f(b=b, j=j, s=s):
                        s.orelse = b[j + 1:]
                        del b[j + 1:]
                    add('elsenest', s.test, f)
                    if isinstance(s.body[-1], A.Continue) and isinstance(owner, (A.For, A.While)) and b is owner.body:
                        def f(b=b, j=j, s=s):
                            rest = b[j + 1:]
                            b[j:] = [A.If(no(s.test), rest, s.body[:-1])]
                        add('continue', s.test, f)
                if s.orelse and ends(s.body):
                    def f(b=b, j=j, s=s):
                        b[j + 1:j + 1] = s.orelse
                        s.orelse = []
                    add('elsedrop', s.test, f)
                if not s.orelse and j + 1 == len(b) and isinstance(owner, A.For) and b is owner.body and not ends(s.body):
                    add('toguard', s.test, rep(b, j, [A.If(no(s.test), [A.Continue()], [])] + s.body))
                if isinstance(s.test, A.BoolOp) and isinstance(s.test.op, A.And) and not s.orelse:
                    t = s.test.values
                    rest = t[1] if len(t) == 2 else A.BoolOp(A.And(), t[1:])
                    add('ifnest', s.test, rep(b, j, [A.If(t[0], [A.If(rest, s.body, [])], [])]))
                if len(s.body) == 1 and isinstance(s.body[0], A.If) and not s.orelse and not s.body[0].orelse:
                    add('ifmerge', s.test, rep(b, j, [A.If(A.BoolOp(A.And(), [s.test, s.body[0].test]), s.body[0].body, [])]))
                if isinstance(s.test, A.BoolOp) and isinstance(s.test.op, A.Or) and not s.orelse and ends(s.body) and len(s.body) == 1:
                    add('orsplit', s.test, rep(b, j, [A.If(v, copy.deepcopy(s.body), []) for v in s.test.values]))
                v = fresh(fn, 'cond')
                add('iftemp', s.test, rep(b, j, [A.Assign([S(v)], s.test, lineno=0), A.If(N(v), s.body, s.orelse)]))
                if len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(x, A.Assign) for x in (s.body[0], s.orelse[0])) and \
                        A.unparse(s.body[0].targets[0]) == A.unparse(s.orelse[0].targets[0]) and isinstance(s.body[0].targets[0], A.Name):
                    add('toifexp', s, rep(b, j, [A.Assign(s.body[0].targets, A.IfExp(s.test, s.body[0].value, s.orelse[0].value), lineno=0)]))
                if len(s.body) == 1 and not s.orelse and isinstance(s.body[0], A.Return) and s.body[0].value and j + 2 == len(b) and isinstance(b[j + 1], A.Return) and b[j + 1].value:
                    def f(b=b, j=j, s=s):
                        b[j:] = [A.Return(A.IfExp(s.test, s.body[0].value, b[j + 1].value))]
                    add('retifexp', s, f)
                # d[k] = [v] / append
                if len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.test, A.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], (A.In, A.NotIn)) \
                        and simple(s.test.left) and simple(s.test.comparators[0]):
                    k, d = s.test.left, s.test.comparators[0]
                    have, miss = (s.body[0], s.orelse[0]) if isinstance(s.test.ops[0], A.In) else (s.orelse[0], s.body[0])
                    dk = A.unparse(A.Subscript(d, k, A.Load()))
                    if isinstance(miss, A.Assign) and A.unparse(miss.targets[0]) == dk and isinstance(have, A.Expr) and A.unparse(have).startswith(dk + '.append('):
                        val = have.value.args[0]
                        if isinstance(miss.value, A.List) and len(miss.value.elts) == 1 and A.unparse(miss.value.elts[0]) == A.unparse(val):
                            app = lambda o: A.Expr(A.Call(A.Attribute(o, 'append', A.Load()), [val], []))
                            add('setdefault', s, rep(b, j, [app(A.Call(A.Attribute(d, 'setdefault', A.Load()), [k, A.List([], A.Load())], []))]))
                            add('ensure', s, rep(b, j, [A.If(A.Compare(k, [A.NotIn()], [d]), [A.Assign([A.Subscript(d, k, A.Store())], A.List([], A.Load()), lineno=0)], []),
                                                        app(A.Subscript(d, k, A.Load()))]))
                    if isinstance(miss, A.Assign) and A.unparse(miss.targets[0]) == dk and isinstance(have, A.AugAssign) and A.unparse(have.target) == dk and isinstance(have.op, A.Add) \
                            and A.unparse(have.value) == A.unparse(miss.value):
                        add('getadd', s, rep(b, j, [A.Assign([A.Subscript(d, k, A.Store())], A.BinOp(A.Call(A.Attribute(d, 'get', A.Load()), [k, A.Constant(0)], []), A.Add(), have.value), lineno=0)]))
                        add('ensure0', s, rep(b, j, [A.If(A.Compare(k, [A.NotIn()], [d]), [A.Assign([A.Subscript(d, k, A.Store())], A.Constant(0), lineno=0)], []), have]))
            if isinstance(s, (A.Assign, A.Return)) and isinstance(s.value, A.IfExp):
                mk = (lambda v, s=s: A.Return(v)) if isinstance(s, A.Return) else (lambda v, s=s: A.Assign(copy.deepcopy(s.targets), v, lineno=0))
                if isinstance(s, A.Return) or all(isinstance(t, A.Name) or isinstance(t, A.Attribute) and isinstance(t.value, A.Name) for t in s.targets):
                    add('fromifexp', s, rep(b, j, [A.If(s.value.test, [mk(s.value.body)], [mk(s.value.orelse)])]))
            if isinstance(s, A.Return) and s.value is not None and not isinstance(s.value, (A.Name, A.Constant)):
                v = fresh(fn, 'result')
                add('rettemp', s, rep(b, j, [A.Assign([S(v)], s.value, lineno=0), A.Return(N(v))]))
            if isinstance(s, A.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], A.Name) and j + 1 < len(b) and isinstance(b[j + 1], A.Return) \
                    and isinstance(b[j + 1].value, A.Name) and b[j + 1].value.id == s.targets[0].id:
                def f(b=b, j=j, s=s):
                    b[j:j + 2] = [A.Return(s.value)]
                add('retinline', s, f)
            # inline single-use variable into the next statement
            if isinstance(s, A.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], A.Name) and j + 1 < len(b) and simple(s.value):
                v = s.targets[0].id
                uses = [x for x in A.walk(fn) if isinstance(x, A.Name) and x.id == v]
                if len(uses) == 2 and v in names(b[j + 1]) and not isinstance(b[j + 1], (A.For, A.While, A.FunctionDef, A.If, A.With)) and not contains(b[j + 1], A.Lambda):
                    def f(b=b, j=j, s=s, v=v):
                        class R(A.NodeTransformer):
                            def visit_Name(self, n):
                                return s.value if n.id == v else n
                        b[j + 1] = R().visit(b[j + 1])
                        del b[j]
                    add('inline', s, f)
            # call arguments into temporaries
            call = s.value if isinstance(s, (A.Expr, A.Return, A.Assign)) else None
            if isinstance(call, A.Call):
                if simple(call.func) and (call.args or call.keywords) and not any(isinstance(a, A.Starred) for a in call.args) and all(k.arg for k in call.keywords):
                    def f(b=b, j=j, s=s, call=call):
                        pre = []
                        base = fresh(fn, 'arg')
                        for i, a in enumerate(call.args):
                            if not isinstance(a, (A.Constant, A.Name, A.Lambda, A.GeneratorExp)):
                                v = base + '_%d' % i
                                pre.append(A.Assign([S(v)], a, lineno=0))
                                call.args[i] = N(v)
                        for i, k in enumerate(call.keywords):
                            if not isinstance(k.value, (A.Constant, A.Name, A.Lambda, A.GeneratorExp)):
                                v = base + '_k%d' % i
                                pre.append(A.Assign([S(v)], k.value, lineno=0))
                                k.value = N(v)
                        b[j:j] = pre or [A.Pass()]
                    add('argtemp', s, f)
                if isinstance(call.func, A.Attribute) and isinstance(call.func.value, A.Call):
                    def f(b=b, j=j, call=call):
                        v = fresh(fn, 'obj')
                        b[j:j] = [A.Assign([S(v)], call.func.value, lineno=0)]
                        call.func.value = N(v)
                    add('chain', s, f)
                if isinstance(call.func, A.Attribute) and simple(call.func.value) and isinstance(s, A.Expr) and isinstance(call.func.value, A.Attribute):
                    def f(b=b, j=j, call=call):
                        v = fresh(fn, 'obj')
                        b[j:j] = [A.Assign([S(v)], call.func.value, lineno=0)]
                        call.func.value = N(v)
                    add('recv', s, f)
            # comprehension to loop
            val = s.value if isinstance(s, (A.Assign, A.Return)) and s.value is not None else None
            if val is not None and (isinstance(s, A.Return) or len(s.targets) == 1 and isinstance(s.targets[0], A.Name)):
                e, wrap = val, None
                if isinstance(e, A.Call) and isinstance(e.func, A.Name) and e.func.id in ('list', 'set', 'sum', 'any', 'all', 'dict') and len(e.args) == 1 and not e.keywords:
                    wrap, e = e.func.id, e.args[0]
                g = gen_of(e)
                if g is not None and (wrap or isinstance(e, (A.ListComp, A.SetComp, A.DictComp))) and wrap != 'dict':
                    elt, gens = g
                    kind = wrap if wrap in ('sum', 'any', 'all', 'set', 'list') else {A.ListComp: 'list', A.SetComp: 'set', A.DictComp: 'dict'}.get(type(e))
                    if kind:
                        v = fresh(fn, 'acc')
                        if kind == 'list':
                            init, inner = A.List([], A.Load()), A.Expr(A.Call(A.Attribute(N(v), 'append', A.Load()), [elt], []))
                        elif kind == 'set':
                            init, inner = A.Call(N('set'), [], []), A.Expr(A.Call(A.Attribute(N(v), 'add', A.Load()), [elt], []))
                        elif kind == 'dict':
                            init, inner = A.Dict([], []), A.Assign([A.Subscript(N(v), elt[0], A.Store())], elt[1], lineno=0)
                        elif kind == 'sum':
                            init, inner = A.Constant(0), A.AugAssign(S(v), A.Add(), elt)
                        else:
                            init = A.Constant(kind == 'all')
                            inner = A.If(elt if kind == 'any' else no(elt), [A.Assign([S(v)], A.Constant(kind == 'any'), lineno=0)] + ([A.Break()] if len(gens) == 1 else []), [])
                        last = A.Return(N(v)) if isinstance(s, A.Return) else A.Assign(s.targets, N(v), lineno=0)
                        if isinstance(s, A.Assign) and s.targets[0].id in names(val):
                            pass
                        clash = names(fn) - names(val)
                        if not any(x in clash for gg in gens for x in names(gg.target)):
                            add('comploop', s, rep(b, j, [A.Assign([S(v)], init, lineno=0)] + loops(gens, [inner]) + [last]))
                            if kind in ('any', 'all') and isinstance(s, A.Return):
                                add('earlyret', s, rep(b, j, loops(gens, [A.If(elt if kind == 'any' else no(elt), [A.Return(A.Constant(kind == 'any'))], [])]) + [A.Return(A.Constant(kind != 'any'))]))
            # loop with append -> comprehension
            if isinstance(s, A.For) and not s.orelse and j > 0 and len(s.body) == 1:
                inner, ifs = s.body[0], []
                if isinstance(inner, A.If) and not inner.orelse and len(inner.body) == 1:
                    ifs, inner = [inner.test], inner.body[0]
                p = b[j - 1]
                if isinstance(inner, A.Expr) and isinstance(inner.value, A.Call) and isinstance(inner.value.func, A.Attribute) and inner.value.func.attr in ('append', 'add') \
                        and isinstance(inner.value.func.value, A.Name) and isinstance(p, A.Assign) and isinstance(p.targets[0], A.Name) and p.targets[0].id == inner.value.func.value.id \
                        and A.unparse(p.value) in ('[]', 'list()', 'set()') and p.targets[0].id not in names(s.iter) | names(inner.value.args[0]) | {x for t in ifs for x in names(t)}:
                    v = p.targets[0]
                    after = {x.id for q in b[j + 1:] for x in A.walk(q) if isinstance(x, A.Name)}
                    if not names(s.target) & after:
                        C = A.SetComp if inner.value.func.attr == 'add' else A.ListComp
                        def f(b=b, j=j, s=s, v=v, inner=inner, ifs=ifs, C=C):
                            b[j - 1:j + 1] = [A.Assign([v], C(inner.value.args[0], [A.comprehension(s.target, s.iter, ifs, 0)]), lineno=0)]
                        add('tocomp', s, f)
            if isinstance(s, A.For) and not s.orelse:
                if isinstance(s.iter, A.Call) and isinstance(s.iter.func, A.Name) and s.iter.func.id == 'enumerate' and len(s.iter.args) == 1 and isinstance(s.target, A.Tuple) \
                        and all(isinstance(x, A.Name) for x in s.target.elts):
                    i, x = s.target.elts
                    add('unenum', s.iter, rep(b, j, [A.Assign([S(i.id)], A.Constant(-1), lineno=0),
                                                     A.For(x, s.iter.args[0], [A.AugAssign(S(i.id), A.Add(), A.Constant(1))] + s.body, [], lineno=0)]))
                    if simple(s.iter.args[0]):
                        add('byindex', s.iter, rep(b, j, [A.For(i, A.Call(N('range'), [A.Call(N('len'), [s.iter.args[0]], [])], []),
                                                                [A.Assign([x], A.Subscript(s.iter.args[0], N(i.id), A.Load()), lineno=0)] + s.body, [], lineno=0)]))
                else:
                    i = fresh(fn, 'idx')
                    add('enum', s.iter, rep(b, j, [A.For(A.Tuple([S(i), s.target], A.Store()), A.Call(N('enumerate'), [s.iter], []), s.body, [], lineno=0)]))
                if isinstance(s.iter, A.Call) and isinstance(s.iter.func, A.Attribute) and s.iter.func.attr == 'items' and isinstance(s.target, A.Tuple) and len(s.target.elts) == 2 \
                        and simple(s.iter.func.value) and isinstance(s.target.elts[0], A.Name):
                    d = s.iter.func.value
                    add('unitems', s.iter, rep(b, j, [A.For(s.target.elts[0], d, [A.Assign([s.target.elts[1]], A.Subscript(d, N(s.target.elts[0].id), A.Load()), lineno=0)] + s.body, [], lineno=0)]))
                if not simple(s.iter):
                    v = fresh(fn, 'seq')
                    add('itertemp', s.iter, rep(b, j, [A.Assign([S(v)], s.iter, lineno=0), A.For(s.target, N(v), s.body, [], lineno=0)]))
                # body into a local function
                stored = {x for q in s.body for x in names(q, A.Store)}
                if not any(contains(q, A.Return, A.Break, A.Continue, A.Yield, A.YieldFrom, A.Nonlocal) for q in s.body) and isinstance(s.target, (A.Name, A.Tuple)) \
                        and all(isinstance(x, A.Name) for x in (s.target.elts if isinstance(s.target, A.Tuple) else [s.target])):
                    inside = {x for q in s.body for x in A.walk(q)}
                    out_names = {x.id for x in A.walk(fn) if isinstance(x, A.Name) and x not in inside and x not in set(A.walk(s.target))} | set(params(fn))
                    if not stored & out_names:
                        h = fresh(fn, 'step')
                        t = [x.id for x in (s.target.elts if isinstance(s.target, A.Tuple) else [s.target])]
                        if len(set(t)) == len(t):
                            ar = A.arguments([], [A.arg(x) for x in t], None, [], [], None, [])
                            add('bodyfn', s.iter, rep(b, j, [A.FunctionDef(h, ar, s.body, [], None, lineno=0, type_params=[]),
                                                             A.For(s.target, s.iter, [A.Expr(A.Call(N(h), [N(x) for x in t], []))], [], lineno=0)]))
            if isinstance(s, A.While) and not s.orelse and not (isinstance(s.test, A.Constant)):
                add('whiletrue', s.test, rep(b, j, [A.While(A.Constant(True), [A.If(no(s.test), [A.Break()], [])] + s.body, [])]))
            if isinstance(s, A.While) and isinstance(s.test, A.Constant) and s.body and isinstance(s.body[0], A.If) and not s.body[0].orelse and \
                    len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], A.Break):
                add('whilecond', s.body[0].test, rep(b, j, [A.While(no(s.body[0].test), s.body[1:], [])]))
            if isinstance(s, A.AugAssign) and isinstance(s.target, A.Name) and isinstance(s.value, A.Constant):
                add('unaug', s, rep(b, j, [A.Assign([S(s.target.id)], A.BinOp(N(s.target.id), s.op, s.value), lineno=0)]))
            if isinstance(s, A.AugAssign) and isinstance(s.target, A.Subscript) and isinstance(s.value, A.Constant) and simple(s.target.value) and simple(s.target.slice):
                add('unaug', s, rep(b, j, [A.Assign([s.target], A.BinOp(A.Subscript(s.target.value, s.target.slice, A.Load()), s.op, s.value), lineno=0)]))
            # neighbours without effects on each other
            if j + 1 < len(b) and all(isinstance(x, A.Assign) and isinstance(x.targets[0], A.Name) and len(x.targets) == 1 and
                                      (simple(x.value) or A.unparse(x.value) in ('[]', '{}', 'list()', 'dict()', 'set()')) for x in (s, b[j + 1])) \
                    and s.targets[0].id not in names(b[j + 1]) and b[j + 1].targets[0].id not in names(s):
                def f(b=b, j=j):
                    b[j], b[j + 1] = b[j + 1], b[j]
                add('reorder', s, f)
            if j + 1 < len(b) and all(isinstance(x, A.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], A.Attribute) and isinstance(x.targets[0].value, A.Name)
                                      and (isinstance(x.value, (A.Name, A.Constant))) for x in (s, b[j + 1])) and A.unparse(s.targets[0]) != A.unparse(b[j + 1].targets[0]):
                def f(b=b, j=j):
                    b[j], b[j + 1] = b[j + 1], b[j]
                add('reorderattr', s, f)
            # the rest of the block in a helper of the module (last statement returns)
            if isinstance(s, (A.Assign, A.Return)) and s.value is not None and contains(s.value, A.Call, A.BinOp) and not contains(s.value, A.Lambda, A.Yield, A.Await, A.NamedExpr) \
                    and not (cls and 'super' in names(s.value)):
                loc = locals_of(fn) | set(params(fn))
                bound = {x.id for c in A.walk(s.value) if isinstance(c, A.comprehension) for x in A.walk(c.target) if isinstance(x, A.Name)}
                nested = [x for x in A.walk(fn) if isinstance(x, A.FunctionDef) and x is not fn]
                inn = any(s in set(A.walk(x)) for x in nested)
                used = sorted((names(s.value, A.Load) & loc) - bound)
                nf = {x.name for x in nested}
                if not inn and not names(s.value) & nf:
                    def f(s=s, used=used):
                        h = '_part_of_' + fn.name.strip('_')
                        ar = A.arguments([], [A.arg(x) for x in used], None, [], [], None, [])
                        d = A.FunctionDef(h, ar, [A.Return(s.value)], [], None, lineno=0, type_params=[])
                        s.value = A.Call(N(h), [N(x) for x in used], [])
                        tree.body.append(d)
                    add('extract', s, f)
    # expression-level rewrites
    par = {}
    for n in A.walk(fn):
        for fld, v in A.iter_fields(n):
            if isinstance(v, A.expr):
                par[v] = (n, fld, None)
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, A.expr):
                        par[x] = (n, fld, i)

    def sub(x, new):
        def f():
            n, fld, i = par[x]
            if i is None:
                setattr(n, fld, new)
            else:
                getattr(n, fld)[i] = new
        return f
    for x in list(par):
        if isinstance(x, A.Compare) and len(x.ops) == 1:
            fl = {A.Lt: A.Gt, A.Gt: A.Lt, A.LtE: A.GtE, A.GtE: A.LtE, A.Eq: A.Eq, A.NotEq: A.NotEq}
            if type(x.ops[0]) in fl:
                add('flip', x, sub(x, A.Compare(x.comparators[0], [fl[type(x.ops[0])]()], [x.left])))
            nt = {A.Lt: A.GtE, A.Gt: A.LtE, A.LtE: A.Gt, A.GtE: A.Lt, A.Eq: A.NotEq, A.NotEq: A.Eq, A.Is: A.IsNot, A.IsNot: A.Is, A.In: A.NotIn, A.NotIn: A.In}
            add('notcmp', x, sub(x, A.UnaryOp(A.Not(), A.Compare(x.left, [nt[type(x.ops[0])]()], x.comparators))))
            if isinstance(x.left, A.Call) and isinstance(x.left.func, A.Name) and x.left.func.id == 'len' and isinstance(x.comparators[0], A.Constant) and x.comparators[0].value == 0:
                a = x.left.args[0]
                if isinstance(x.ops[0], A.Eq):
                    add('emptiness', x, sub(x, A.UnaryOp(A.Not(), a)))
                    add('lenlt1', x, sub(x, A.Compare(x.left, [A.Lt()], [A.Constant(1)])))
                elif isinstance(x.ops[0], (A.NotEq, A.Gt)):
                    add('emptiness', x, sub(x, A.UnaryOp(A.Not(), A.UnaryOp(A.Not(), a))))
                    add('lenge1', x, sub(x, A.Compare(x.left, [A.GtE()], [A.Constant(1)])))
        if isinstance(x, A.BoolOp) and len(x.values) == 2:
            o = A.Or() if isinstance(x.op, A.And) else A.And()
            add('demorgan', x, sub(x, A.UnaryOp(A.Not(), A.BoolOp(o, [no(v) for v in x.values]))))
        if isinstance(x, A.IfExp):
            add('ifexpswap', x, sub(x, A.IfExp(no(x.test), x.orelse, x.body)))
        if isinstance(x, A.JoinedStr) and all(isinstance(v, A.Constant) or v.format_spec is None and v.conversion == -1 for v in x.values) and x.values:
            ps = [v if isinstance(v, A.Constant) else A.Call(N('str'), [v.value], []) for v in x.values]
            e = ps[0]
            for p in ps[1:]:
                e = A.BinOp(e, A.Add(), p)
            add('fstr', x, sub(x, e))
            fmt = ''.join(v.value.replace('{', '{{').replace('}', '}}') if isinstance(v, A.Constant) else '{}' for v in x.values)
            add('format', x, sub(x, A.Call(A.Attribute(A.Constant(fmt), 'format', A.Load()), [v.value for v in x.values if not isinstance(v, A.Constant)], [])))
            pct = ''.join(v.value.replace('%', '%%') if isinstance(v, A.Constant) else '%s' for v in x.values)
            add('percent', x, sub(x, A.BinOp(A.Constant(pct), A.Mod(), A.Tuple([v.value for v in x.values if not isinstance(v, A.Constant)], A.Load()))))
        if isinstance(x, A.Call) and isinstance(x.func, A.Name) and not x.args and not x.keywords and x.func.id in ('dict', 'list'):
            add('literal', x, sub(x, A.Dict([], []) if x.func.id == 'dict' else A.List([], A.Load())))
        if isinstance(x, A.List) and not x.elts and isinstance(x.ctx, A.Load):
            add('literal', x, sub(x, A.Call(N('list'), [], [])))
        if isinstance(x, A.Dict) and not x.keys:
            add('literal', x, sub(x, A.Call(N('dict'), [], [])))
        if isinstance(x, A.Call) and isinstance(x.func, A.Name) and x.func.id == 'list' and len(x.args) == 1 and gen_of(x.args[0]) and not isinstance(x.args[0], A.ListComp):
            elt, gens = gen_of(x.args[0])
            add('maptocomp', x, sub(x, A.ListComp(elt, gens)))
        elif isinstance(x, A.Call) and isinstance(x.func, A.Name) and x.func.id in ('map', 'filter') and gen_of(x):
            elt, gens = gen_of(x)
            add('maptogen', x, sub(x, A.GeneratorExp(elt, gens)))
        if isinstance(x, A.ListComp) and len(x.generators) == 1 and not x.generators[0].ifs and isinstance(x.generators[0].target, A.Name):
            g = x.generators[0]
            l = A.Lambda(A.arguments([], [A.arg(g.target.id)], None, [], [], None, []), x.elt)
            add('comptomap', x, sub(x, A.Call(N('list'), [A.Call(N('map'), [l, g.iter], [])], [])))
        if isinstance(x, A.Subscript) and isinstance(x.slice, A.UnaryOp) and isinstance(x.slice.op, A.USub) and simple(x.value) and isinstance(x.ctx, A.Load):
            add('lastindex', x, sub(x, A.Subscript(x.value, A.BinOp(A.Call(N('len'), [x.value], []), A.Sub(), x.slice.operand), A.Load())))
        if isinstance(x, A.Call) and isinstance(x.func, A.Attribute) and x.func.attr == 'keys' and not x.args and isinstance(par[x][0], (A.For, A.comprehension)):
            add('nokeys', x, sub(x, x.func.value))
        if isinstance(x, A.BinOp) and isinstance(x.op, (A.Mult,)) and not isinstance(x.left, (A.Constant, A.List)) and not isinstance(x.right, A.List):
            add('commute', x, sub(x, A.BinOp(x.right, x.op, x.left)))
        if isinstance(x, A.BinOp) and isinstance(x.op, A.Add) and (isinstance(x.right, A.Constant) and isinstance(x.right.value, int)):
            add('commute', x, sub(x, A.BinOp(x.right, x.op, x.left)))
        if isinstance(x, A.Lambda) and not x.args.defaults and not x.args.vararg:
            # lambda to local function in front of the statement
            st = None
            for owner, b in bodies:
                for j, s in enumerate(b):
                    if not isinstance(s, (A.If, A.For, A.While, A.With, A.Try, A.FunctionDef)) and x in set(A.walk(s)):
                        st = (b, j)
            inl = any(x is not y and x in set(A.walk(y)) for y in A.walk(fn) if isinstance(y, (A.Lambda, A.ListComp, A.SetComp, A.DictComp, A.GeneratorExp)))
            if st and not inl:
                def f(x=x, st=st):
                    h = fresh(fn, 'func')
                    sub(x, N(h))()
                    st[0].insert(st[1], A.FunctionDef(h, x.args, [A.Return(x.body)], [], None, lineno=0, type_params=[]))
                add('lambdadef', x, f)
    # whole-function rewrites
    if not any(isinstance(x, (A.Yield, A.YieldFrom, A.Await)) for x in scope_walk(fn)) and fn.name not in ('__init__',) and not fn.decorator_list and not fn.args.vararg and not fn.args.kwarg:
        def f():
            h = '_impl_of_' + fn.name.strip('_')
            d = A.FunctionDef(h, copy.deepcopy(fn.args), fn.body, [], None, lineno=0, type_params=[])
            ps = [a.arg for a in fn.args.args]
            kws = [A.keyword(a.arg, N(a.arg)) for a in fn.args.kwonlyargs]
            if cls is not None:
                fn.body = [A.Return(A.Call(A.Attribute(N(ps[0]), h, A.Load()), [N(p) for p in ps[1:]], kws))]
                cls.body.append(d)
            else:
                fn.body = [A.Return(A.Call(N(h), [N(p) for p in ps], kws))]
                tree.body.append(d)
        if not (cls is not None and 'super' in names(fn)):
            add('impl', fn, f)
    loc = locals_of(fn) - set(params(fn))
    nested = [x for x in A.walk(fn) if isinstance(x, (A.FunctionDef, A.Lambda)) and x is not fn]
    inner = {y for x in nested for y in params(x)} | {y for x in nested if isinstance(x, A.FunctionDef) for y in locals_of(x)}
    comp = {y.id for x in A.walk(fn) if isinstance(x, A.comprehension) for y in A.walk(x.target) if isinstance(y, A.Name)}
    loc -= inner | comp
    if loc and not any(isinstance(x, (A.Global, A.Nonlocal)) for x in A.walk(fn)):
        def f():
            for x in A.walk(fn):
                if isinstance(x, A.Name) and x.id in loc:
                    x.id = 'my_' + x.id
                if isinstance(x, A.ExceptHandler) and x.name in loc:
                    x.name = 'my_' + x.name
        add('rename', fn, f)

    def f():
        fn.body.insert(0, A.Assign([S('unused_')], A.Constant(0), lineno=0))
    add('noop', fn, f)
    selfn = params(fn)[0] if cls is not None and params(fn) else None
    if selfn:
        reads = collections.Counter(x.attr for x in scope_walk(fn) if isinstance(x, A.Attribute) and isinstance(x.value, A.Name) and x.value.id == selfn and isinstance(x.ctx, A.Load))
        calls = {x.func.attr for x in A.walk(fn) if isinstance(x, A.Call) and isinstance(x.func, A.Attribute) and isinstance(x.func.value, A.Name) and x.func.value.id == selfn}
        stores = {x.attr for x in A.walk(fn) if isinstance(x, A.Attribute) and not isinstance(x.ctx, A.Load)}
        own = [a for a in reads if a not in calls and a not in stores and not (isinstance(cls, A.ClassDef) and a in {k.name for k in cls.body if isinstance(k, A.FunctionDef)})]
        if own and not calls:
            def f():
                class R(A.NodeTransformer):
                    def visit_Attribute(self, n):
                        self.generic_visit(n)
                        if isinstance(n.value, A.Name) and n.value.id == selfn and n.attr in own and isinstance(n.ctx, A.Load):
                            return N('own_' + n.attr)
                        return n
                fn.body = [R().visit(s) for s in fn.body]
                fn.body[0:0] = [A.Assign([S('own_' + a)], A.Attribute(N(selfn), a, A.Load()), lineno=0) for a in own]
            add('cacheself', fn, f)
    only = os.environ.get('ONLY')
    return [s for s in out if not only or s.kind in only.split(',')]


def find(tree, modname, qual):
    for n in tree.body:
        if isinstance(n, A.FunctionDef) and modname + ':' + n.name == qual:
            return n, None
        if isinstance(n, A.ClassDef):
            for k in n.body:
                if isinstance(k, A.FunctionDef) and modname + ':' + n.name + '.' + k.name == qual:
                    return k, n


def job(a):
    rel, modname, qual, k, specs = a
    path = REPO + '/src/python/ficus/' + rel
    tree = A.parse(open(path).read())
    fn, cls = find(tree, modname, qual)
    s = sites(fn, cls, tree)[k]
    s.f()
    A.fix_missing_locations(tree)
    try:
        text = A.unparse(tree)
        A.parse(text)
    except Exception as e:
        return qual, s.kind, s.desc, 'invalid', repr(e)
    fd, tmp = tempfile.mkstemp(suffix='.py', dir='/tmp/auto')
    os.write(fd, text.encode()); os.close(fd)
    try:
        prog = load(REPO)
        prog.paths[modname] = (tmp, prog.paths[modname][1])
        bad, opn = [], []
        if CHECKS_TOO:
            from rules.registry import CHECKS
            from rules.common import Run
            for p in CHECKS_TOO:
                run = Run(REPO)
                run.prog.paths[modname] = (tmp, run.prog.paths[modname][1])
                CHECKS[p].rules[0](run)
                for r in run.results:
                    if r.status == BAD and 'underlying_events_count' not in r.key: bad.append(p + ':' + r.rule + ':' + r.construct + ((': ' + r.detail[:900]) if os.environ.get('DETAIL') else ''))
                    elif r.status == OPEN: opn.append(p + ':' + r.rule + ' ' + r.construct)
        for sm, sc in specs:
            c = prog.module('spec_' + sm).bindings[sc][1]
            r = decide(prog, c)
            t = sm + '.' + sc + ((': ' + r.detail[:900]) if os.environ.get('DETAIL') else '')
            if r.status == BAD: bad.append(t)
            elif r.status == OPEN: opn.append(t)
        return qual, s.kind, s.desc, 'ALARM' if bad else 'undecided' if opn else 'ok', ' '.join(bad or opn)
    except Exception as e:
        return qual, s.kind, s.desc, 'crash', repr(e)[:200]
    finally:
        os.unlink(tmp)


def main():
    sub = sys.argv[1]
    os.makedirs('/tmp/auto', exist_ok=True)
    cov = coverage()
    byfn = collections.defaultdict(set)
    for s, fs in cov.items():
        for f in fs:
            byfn[f].add(s)
    prog = load(REPO)
    jobs = []
    for mod, (p, ispkg) in sorted(prog.paths.items()):
        if mod.startswith('spec_') or prog._is_pb(mod):
            continue
        rel = os.path.relpath(p, REPO + '/src/python/ficus')
        if not any(s in rel for s in sub.split(',')):
            continue
        tree = A.parse(open(p).read())
        for qual, fn in targets(tree, mod):
            if not byfn.get(qual) and not CHECKS_TOO:
                continue
            if len(sys.argv) > 2 and not any(x in qual for x in sys.argv[2].split(',')):
                continue
            fn, cls = find(tree, mod, qual)
            for k in range(len(sites(fn, cls, tree))):
                jobs.append((rel, mod, qual, k, sorted(byfn[qual])))
    tot, und = collections.Counter(), collections.Counter()
    rows = []
    with multiprocessing.Pool(8, maxtasksperchild=40) as pool:
        for q, kind, d, s, w in pool.imap_unordered(job, jobs, chunksize=4):
            tot[s] += 1
            if s in ('ALARM', 'crash', 'invalid') or s == 'undecided' and os.environ.get('ALL'):
                rows.append((s, q.split(':')[-1], kind, d, w))
            if s == 'undecided':
                und[kind] += 1
    print(len(jobs), dict(tot), 'undecided by kind', dict(und))
    for r in sorted(rows):
        print('  ', r[0], r[1], r[2], '|', r[3], '|', r[4][:1000 if os.environ.get('DETAIL') else 110])


if __name__ == '__main__':
    main()
