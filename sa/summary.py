"""Summaries of functions / methods: what is returned, raised and done, as one normal-form term."""
from .terms import *
from .state import *
from .engine import Engine, Budget
from .program import ClassInfo, AnalysisError


class Summary:
    def __init__(self, ret, trace, raises, writes, where):
        self.ret, self.trace, self.raises, self.writes, self.where = ret, trace, raises, writes, where

    @property
    def term(self):
        return canon(T('summary', self.ret, self.trace, self.raises))

    @property
    def unknowns(self):
        return sorted({x.args[0] for x in subterms(self.term) if x.kind == 'unk'})


def canon(t):
    """renumber generated identities by order of first appearance"""
    order = {}
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.kind == 'fresh' and x not in order:
            order[x] = T('fresh', x.args[0], -1 - len(order))
        st += [a for a in reversed(x.args) if isinstance(a, Term)]
    return subst(t, order) if order else t


def finish(E, st, v, where='', keep_app=True):
    ret = E.pure(st, v)
    tr = st.trace
    trace = rebuild('segs', [E.pure(st, s) for s in tr])
    raises = []
    n = TRUE
    for c, s, e in st.pend:
        raises.append((land(n, E.pure(st, c)), e, rebuild('segs', [E.pure(s, x) for x in s.trace])))
        n = land(n, neg(c))
    rt = T('raises', *[T('case', c, e, t) for c, e, t in raises if c is not FALSE])
    writes = {k: E.pure(st, x) for k, x in st.over.items()}
    return Summary(ret, trace, rt, writes, where)


def call_function(E, f, args=None, budget=None):
    st = E.begin(budget)
    a = E.sym_args(f, skip_self=False) if args is None else args
    pos = []
    kw = {}
    for k, v in a.items():
        if k == '*':
            pos.append(('*', v))
        else:
            kw[k] = v
    if f.cls is not None and not f.is_static and args is None:
        names = [p.arg for p in f.node.args.posonlyargs + f.node.args.args]
        s = kw[names[0]]
        E.types.sym[s] = ('cls', f.cls)
    if pos:
        names = [p.arg for p in f.node.args.posonlyargs + f.node.args.args]
        pos = [kw.pop(n) for n in names if n in kw] + pos
    v = E.call_fn(st, f, pos, kw, None)
    return finish(E, st, v, f.where)
