"""What the gRPC client puts on the wire: every pipeline part's message, flattened to a table of parameters."""
from .terms import *
from .state import *
from .engine import Engine
from .program import ClassInfo, AnalysisError


def part_classes(prog):
    base = prog.find_class('PipelinePart2')
    out = []
    for n in sorted(prog.paths):
        if '.grpc_pipelines' not in n:
            continue
        m = prog.module(n)
        if m is None:
            continue
        for b in m.bindings.values():
            if b[0] == 'class' and b[1].module is m and any(c is base for c in prog.mro(b[1])):
                out.append(b[1])
    return out


def fields(msg):
    """field -> value of a reified message"""
    return {msg.args[i]: msg.args[i + 1] for i in range(1, len(msg.args), 2)}


def build(prog, cls, defaults=False, budget=60000):
    """the message of a part whose constructor arguments are all unknown (or all left out)"""
    E = Engine(prog, budget=budget)
    st = E.begin(budget)
    m = prog.lookup(cls, '__init__')
    f = m[1] if m and m[0] == 'method' else None
    a = {}
    if f is not None:
        for k, v in E.sym_args(f).items():
            if k == '*':
                continue
            a[k] = v
        if defaults:
            req = f.node.args
            n = len(req.args) - len(req.defaults)
            keep = {x.arg for x in req.args[:n]} | {x.arg for x, d in zip(req.kwonlyargs, req.kw_defaults) if d is None}
            a = {k: v for k, v in a.items() if k in keep}
    o = E.construct(st, cls, [], a, None)
    v = E.call_method(st, o, 'to_grpc_part', [], {}, None)
    t = E.pure(st, v)
    uid = E.pure(st, E.get_attr(st, o, 'uuid')) if hasattr(E, 'get_attr') else None
    return t, uid, st, E, o


def params(listterm):
    """flatten a repeated field into (condition, item) pairs"""
    out = []

    def seg(s, c):
        if s.kind == 'item':
            v = s.args[0]
            for p, leaf in cases(v) if v.kind == 'ite' else [((), v)]:
                out.append((land(c, path_cond(p)), leaf))
        elif s.kind == 'alt':
            for p, leaf in cases(s.args[0]):
                for q in leaf.args:
                    seg(q, land(c, path_cond(p)))
        else:
            out.append((c, T('seg', s)))
    if listterm is None:
        return out
    if listterm.kind == 'ite':
        for p, leaf in cases(listterm):
            for q in params(leaf):
                out.append((land(path_cond(p), q[0]), q[1]))
        return out
    if listterm.kind == 'list' and listterm.args[0].kind == 'segs':
        for s in listterm.args[0].args:
            seg(s, TRUE)
        return out
    return [(TRUE, T('seg', listterm))]


def unorder(t, memo=None):
    """configuration parameters are read by key: forget their order"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if not any(isinstance(a, Term) for a in t.args):
        return t
    na = [unorder(a, memo) if isinstance(a, Term) else a for a in t.args]
    r = rebuild(t.kind, na) if any(x is not y for x, y in zip(na, t.args)) else t
    if r.kind == 'msg' and r.args[0] == 'GrpcPipelinePartConfiguration':
        f = fields(r)
        p = params(f.get('configurationParameters'))
        merged = {}
        for c, x in p:
            merged[x] = lor(merged[x], c) if x in merged else c
        # a key with several conditional values: one conditional value
        r = T('params', *sorted((T('param', c, x) for x, c in merged.items() if c is not FALSE),
                                key=lambda z: (keyname(z.args[1]), z.dig)))
    memo[t] = r
    return r


def keyname(kv):
    if kv.kind == 'msg' and kv.args[0] == 'GrpcContextKeyValue':
        k = fields(kv).get('key')
        if k is not None and k.kind == 'msg':
            n = fields(k).get('name')
            if n is not None and n.kind == 'const':
                return str(n.args[0])
    return '?'


def unnamed(kv):
    """a parameter whose key is certainly not a fixed name: nothing, or a value that depends on the options"""
    if kv.kind != 'msg' or kv.args[0] != 'GrpcContextKeyValue':
        return False
    return anonymous(fields(kv).get('key'))


def anonymous(k):
    if k is None or k.kind == 'absent':
        return True
    if k.kind != 'msg':
        return False
    n = fields(k).get('name')
    while n is not None and n.kind in ('attr', 'sub'):
        n = n.args[0]
    return n is None or n.kind in ('sym', 'msg', 'obj', 'str')
