"""Value-flow abstract interpreter over the syntax tree.

Every function is summarised in the term domain of terms.py: assignments become gated values, branches are
joined (never enumerated), loops are summarised over their iteration domain, calls inside the package are
resolved through imports / MRO and analysed in place, calls outside it stay uninterpreted.  The result of an
analysis is a normal form of what the function returns, raises and does, independent of local names, helper
boundaries, statement order of independent statements and the loop form.  Nothing of /repo is imported or run.
"""
import ast
from .terms import *
from .state import *
from .program import Program, FuncInfo, ClassInfo, AnalysisError
from .typing_ import Types, install_int_names
from .exprs import Exprs
from .builtins_ import Builtins
from .loops import Loops

KINDS = ('n', 'r', 'b', 'c', 'x')


class Ctx:
    __slots__ = ('fid', 'scopes', 'module', 'cls', 'func', 'selfv', 'nonloc', 'globs')

    def __init__(self, fid, scopes, module, cls=None, func=None, selfv=None):
        self.fid, self.scopes, self.module, self.cls, self.func, self.selfv = fid, scopes, module, cls, func, selfv
        self.nonloc, self.globs = {}, set()


def add(res, k, o):
    if o[0] is FALSE:
        return
    if k not in res:
        res[k] = o
    else:
        a = res[k]
        either = lor(a[0], o[0])
        c = relative(a[0], either)
        res[k] = (either, join(c, a[1], o[1]), vjoin(c, a[2], o[2]))


class Engine(Exprs, Builtins, Loops):
    def changed_by(self, st, call, name, v, depth=0):
        """an object handed to an unknown call may have changed afterwards"""
        if v.kind != 'ref' or v.args[0] not in st.heap or depth > 2:
            return
        o = st.heap[v.args[0]]
        if o.kind in ('list', 'set', 'dict'):
            st.heap[v.args[0]] = o.with_content((T('splat', T('changed', call, name)),))
        elif o.kind == 'inst':
            for n in sorted(o.fields):
                self.changed_by(st, call, name + '.' + n, o.fields[n], depth + 1)

    def __init__(self, prog, budget=400000, opaque=(), mutating=()):
        self.mutating = set(mutating)
        self.stream = set()     # opaque functions whose every call may yield another value
        self.prog, self.types = prog, Types(prog)
        install_int_names(prog)
        self.budget0 = self.budget = budget
        self.opaque = set(opaque)      # function names kept as uninterpreted calls with bound arguments
        self.n = 0
        self.funcs, self.lams, self.classes = {}, {}, {}
        self.captured = set()
        self.closed_classes = {}
        self.unrolling = 0
        self.stack = []
        self.seen_funcs = set()
        self.sites = 0
        self.eager_types = {}
        self.stack_pure = False
        self.shared = {}        # module level objects the run has met

    def preload(self, st, shared):
        """module level objects exist once"""
        for (m, n), b in sorted(shared.items()):
            st.over[T('mod', m), n] = self.binding(st, b, n)

    def fresh(self):
        self.n += 1
        return self.n

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()

    # ------------------------------------------------------------ values

    def fn(self, f):
        self.funcs[f.qual] = f
        return T('fn', f.qual)

    def clsv(self, c):
        self.classes[c.qual] = c
        return T('cls', c.qual)

    def alloc(self, st, obj):
        o = self.fresh()
        st.heap[o] = obj
        return T('ref', o)

    def new_list(self, st, content=(), kind='list', etype=None):
        return self.alloc(st, Obj(kind, content=tuple(content), etype=etype))

    def binding(self, st, b, name=''):
        if b is None:
            return None
        k = b[0]
        if k == 'func':
            return self.fn(b[1])
        if k == 'class':
            return self.clsv(b[1])
        if k == 'module':
            return T('mod', b[1])
        if k == 'ext':
            return T('ext', b[1])
        if k == 'proto':
            return T('pcls', b[1])
        if k == 'opaque':
            return T('glob', b[1].name, b[2])
        if k == 'expr':
            key = (T('mod', b[1].name), name)
            if key in st.over:
                return st.over[key]
            v = self.global_expr(st, b[1], b[2])
            if v.kind == 'ref' and v.args[0] in st.heap and st.heap[v.args[0]].kind == 'inst':
                self.shared[b[1].name, name] = b
            return v
        if k == 'lazy':
            m = self.prog.module(b[1])
            return self.binding(st, self.prog.resolve(m, b[2]), b[2])
        return unk('binding ' + k)

    def global_expr(self, st, module, node):
        key = ('g', id(node))
        if key in self.stack:
            return unk('recursive global')
        self.stack.append(key)
        fid = self.fresh()
        st.frames[fid] = {}
        try:
            return self.ev(node, st, Ctx(fid, (fid,), module))
        finally:
            self.stack.pop()
            if fid not in self.captured:
                st.frames.pop(fid, None)

    def lookup(self, name, st, ctx):
        for f in ctx.scopes:
            fr = st.frames.get(f)
            if fr is not None and name in fr:
                return fr[name]
        b = self.prog.resolve(ctx.module, name)
        if b is not None:
            return self.binding(st, b, name)
        return T('bi', name)

    # ------------------------------------------------------------ outcomes

    def finish(self, st, outs=None):
        """turn exceptions pending from calls in the evaluated expressions into outcomes"""
        outs = {} if outs is None else outs
        n = TRUE
        pend, st.pend = st.pend, []
        for c, s, v in pend:
            add(outs, 'x', (land(n, c), s, v))
            n = land(n, neg(c))
        return outs, n

    def simple(self, st):
        if not st.pend:
            return {'n': (TRUE, st, NONE)}
        outs, n = self.finish(st)
        if n is not FALSE:
            outs['n'] = (n, st, NONE)
        return outs

    def block(self, stmts, st, ctx):
        res, cond, cur = {}, TRUE, st
        for s in stmts:
            self.tick()
            outs = self.stmt(s, cur, ctx)
            for k in ('r', 'b', 'c', 'x'):
                if k in outs:
                    o = outs[k]
                    add(res, k, (land(cond, o[0]), o[1], o[2]))
            if 'n' not in outs:
                cur = None
                break
            cond = land(cond, outs['n'][0])
            cur = outs['n'][1]
        if cur is not None and cond is not FALSE:
            res['n'] = (cond, cur, NONE)
        return res

    def decide(self, c, st):
        """c under the current path condition"""
        pc = st.pc
        if pc is TRUE or c is TRUE or c is FALSE:
            return c
        if land(pc, c) is FALSE:
            return FALSE
        if land(pc, neg(c)) is FALSE:
            return TRUE
        return c

    def assume_pc(self, st, c):
        p = land(st.pc, c)
        if p.size > 2000:
            p = c if c.size < 2000 else TRUE
        st.pc = p

    def branch(self, c, st, f, g):
        """outcomes of (f if c else g); f and g map a state to outcomes"""
        c = self.decide(c, st)
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        a, b = st.fork(), st.fork()
        self.assume_pc(a, c)
        self.assume_pc(b, neg(c))
        oa, ob = f(a), g(b)
        nc = neg(c)
        res = {}
        for k in KINDS:
            x, y = oa.get(k), ob.get(k)
            if x and y:
                res[k] = (lor(land(c, x[0]), land(nc, y[0])), join(c, x[1], y[1]), vjoin(c, x[2], y[2]))
                continue
            if x:
                add(res, k, (land(c, x[0]), x[1], x[2]))
            if y:
                add(res, k, (land(nc, y[0]), y[1], y[2]))
        for k, o in res.items():
            o[1].pc = land(st.pc, o[0]) if o[0].size + st.pc.size < 2000 else st.pc
        return res

    # ------------------------------------------------------------ statements

    def stmt(self, s, st, ctx):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            st.emit(unk('statement ' + type(s).__name__))
            return {'n': (TRUE, st, NONE)}
        return m(s, st, ctx)

    def s_Pass(self, s, st, ctx):
        return {'n': (TRUE, st, NONE)}

    def s_Expr(self, s, st, ctx):
        if isinstance(s.value, ast.Constant):
            return {'n': (TRUE, st, NONE)}
        self.ev(s.value, st, ctx)
        return self.simple(st)

    def s_Import(self, s, st, ctx):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            st.frames[ctx.fid][nm] = self.binding(st, self.prog.mod_binding(a.name if a.asname else nm))
        return {'n': (TRUE, st, NONE)}

    def s_ImportFrom(self, s, st, ctx):
        m = ctx.module.abs_name(s)
        for a in s.names:
            st.frames[ctx.fid][a.asname or a.name] = self.binding(st, self.prog.from_import(m, a.name), a.name)
        return {'n': (TRUE, st, NONE)}

    def s_Global(self, s, st, ctx):
        ctx.globs |= set(s.names)
        return {'n': (TRUE, st, NONE)}

    def s_Nonlocal(self, s, st, ctx):
        for n in s.names:
            for f in ctx.scopes[1:]:
                if n in st.frames.get(f, ()):
                    ctx.nonloc[n] = f
                    break
        return {'n': (TRUE, st, NONE)}

    def s_FunctionDef(self, s, st, ctx):
        self.setname(s.name, self.closure(s, st, ctx), st, ctx)
        return {'n': (TRUE, st, NONE)}

    def s_ClassDef(self, s, st, ctx):
        self.setname(s.name, unk('local class'), st, ctx)
        return {'n': (TRUE, st, NONE)}

    def s_Return(self, s, st, ctx):
        v = self.ev(s.value, st, ctx) if s.value is not None else NONE
        outs, n = self.finish(st)
        if n is not FALSE:
            outs['r'] = (n, st, v)
        return outs

    def s_Break(self, s, st, ctx):
        return {'b': (TRUE, st, NONE)}

    def s_Continue(self, s, st, ctx):
        return {'c': (TRUE, st, NONE)}

    def s_Raise(self, s, st, ctx):
        v = T('exn', 're-raise')
        if s.exc is not None:
            e = self.ev(s.exc, st, ctx)
            v = self.exn_of(st, e)
        st.emit(T('raise', v))
        outs, n = self.finish(st)
        add(outs, 'x', (n, st, v))
        return outs

    def exn_of(self, st, e):
        """exceptions are compared by type only"""
        if e.kind == 'call':
            return T('exn', e.args[0])
        if e.kind in ('bi', 'ext'):
            return T('exn', e.args[0])
        if e.kind == 'cls':
            return T('exn', e.args[0].split(':')[-1])
        if e.kind == 'ref' and st.heap[e.args[0]].cls:
            c = st.heap[e.args[0]].cls
            return T('exn', c.name if isinstance(c, ClassInfo) else str(c))
        return T('exn', '?')

    def s_Assert(self, s, st, ctx):
        c = truth(self.cond(s.test, st, ctx))
        outs, n = self.finish(st)

        def bad(q):
            q.emit(T('raise', T('exn', 'AssertionError')))
            return {'x': (TRUE, q, T('exn', 'AssertionError'))}
        o2 = self.branch(c, st, lambda q: {'n': (TRUE, q, NONE)}, bad)
        for k, o in o2.items():
            add(outs, k, (land(n, o[0]), o[1], o[2]))
        return outs

    def s_If(self, s, st, ctx):
        c = truth(self.cond(s.test, st, ctx))
        outs, n = self.finish(st)
        o2 = self.branch(c, st, lambda q: self.block(s.body, q, ctx), lambda q: self.block(s.orelse, q, ctx))
        if not outs:
            return o2
        for k, o in o2.items():
            add(outs, k, (land(n, o[0]), o[1], o[2]))
        return outs

    def s_Match(self, s, st, ctx):
        subj = self.ev(s.subject, st, ctx)
        outs, n = self.finish(st)

        def go(i, q):
            if i == len(s.cases):
                return {'n': (TRUE, q, NONE)}
            c = s.cases[i]
            k = self.pattern(c.pattern, subj, q, ctx)
            if c.guard is not None:
                k = land(k, truth(self.cond(c.guard, q, ctx)))
            return self.branch(k, q, lambda w: self.block(c.body, w, ctx), lambda w: go(i + 1, w))
        o2 = go(0, st)
        for k, o in o2.items():
            add(outs, k, (land(n, o[0]), o[1], o[2]))
        return outs

    def pattern(self, p, v, st, ctx):
        if isinstance(p, ast.MatchValue):
            return t_eq(self.pure(st, v), self.pure(st, self.ev(p.value, st, ctx)))
        if isinstance(p, ast.MatchSingleton):
            return t_is(self.pure(st, v), const(p.value))
        if isinstance(p, ast.MatchOr):
            return lor(*[self.pattern(x, v, st, ctx) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            k = self.pattern(p.pattern, v, st, ctx) if p.pattern is not None else TRUE
            if p.name:
                self.setname(p.name, v, st, ctx)
            return k
        return T('truthy', unk('pattern'))

    def s_Assign(self, s, st, ctx):
        v = self.ev(s.value, st, ctx)
        for t in s.targets:
            self.assign(t, v, st, ctx)
        return self.simple(st)

    def s_AnnAssign(self, s, st, ctx):
        if s.value is not None:
            v = self.ev(s.value, st, ctx)
            ty = self.types.ann(ctx.module, s.annotation)
            if ty and v.kind in ('sym', 'call', 'mcall', 'app', 'sub', 'attr') and self.types.of(v) is None:
                self.types.sym[v] = ty
            self.assign(s.target, v, st, ctx)
        return self.simple(st)

    def s_AugAssign(self, s, st, ctx):
        cur = self.ev(_load(s.target), st, ctx)
        v = self.ev(s.value, st, ctx)
        if isinstance(s.op, ast.Add) and cur.kind == 'ref' and st.heap[cur.args[0]].kind == 'list':
            self.call_method(st, cur, 'extend', [v], {}, s)
            return self.simple(st)
        if isinstance(s.op, ast.BitOr) and cur.kind == 'ref' and st.heap[cur.args[0]].kind in ('set', 'dict'):
            self.call_method(st, cur, 'update', [v], {}, s)
            return self.simple(st)
        if isinstance(s.op, (ast.Sub, ast.BitAnd)) and cur.kind == 'ref' and st.heap[cur.args[0]].kind == 'set':
            r = self.set_op(st, type(s.op).__name__, cur, v)
            if r.kind == 'ref':
                st.heap[cur.args[0]] = st.heap[cur.args[0]].with_content(st.heap[r.args[0]].content)
                return self.simple(st)
        self.assign(s.target, self.binop(type(s.op).__name__, cur, v, st), st, ctx)
        return self.simple(st)

    def s_Delete(self, s, st, ctx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[ctx.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, ctx)
                self.del_item(st, b, self.index(t.slice, st, ctx), t)
            else:
                st.emit(unk('del'))
        return self.simple(st)

    def setname(self, name, v, st, ctx):
        if name in ctx.globs:
            st.over[(T('mod', ctx.module.name), name)] = v
            st.emit(T('setglob', ctx.module.name, name, self.pure(st, v)))
        elif name in ctx.nonloc:
            st.frames[ctx.nonloc[name]][name] = v
        else:
            st.frames[ctx.fid][name] = v

    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, st, ctx)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, ctx)
            self.set_attr(st, b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, ctx)
            self.set_item(st, b, self.index(t.slice, st, ctx), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i0, n = star[0], len(t.elts)
                for i, e in enumerate(t.elts):
                    if i < i0:
                        self.assign(e, self.get_item(st, v, const(i)), st, ctx)
                    elif i == i0:
                        self.assign(e.value, self.slice_of(st, v, const(i), const(i - n + 1) if i - n + 1 else NONE),
                                    st, ctx)
                    else:
                        self.assign(e, self.get_item(st, v, const(i - n)), st, ctx)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.get_item(st, v, const(i)), st, ctx)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, ctx)
        else:
            st.emit(unk('assign target'))

    def s_With(self, s, st, ctx):
        ctxs = []
        for it in s.items:
            v = self.ev(it.context_expr, st, ctx)
            p = self.pure(st, v)
            if not is_file(p):
                st.emit(T('enter', p))
            ctxs.append(p)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, ctx)
        outs, n = self.finish(st)
        o2 = self.block(s.body, st, ctx)
        for k, o in o2.items():
            for p in reversed(ctxs):
                o[1].emit(T('do', T('mcall', p, 'close')) if is_file(p) else T('exit', p))
            add(outs, k, (land(n, o[0]), o[1], o[2]))
        return outs

    def s_Try(self, s, st, ctx):
        entry = st.fork()
        outs = self.block(s.body, st, ctx)
        if s.handlers:
            # implicit exceptions of the body are not modelled: the handler may run from the entry state
            atom = T('exc', unk('handler at %s:%d' % (ctx.module.rel, s.lineno)))
            h = entry
            h.emit(unk('except handler'))
            for hd in s.handlers:
                if hd.name:
                    self.setname(hd.name, unk('exception'), h, ctx)
            ho = self.block(s.handlers[0].body, h, ctx)
            res = {}
            for k, o in outs.items():
                add(res, k, (land(neg(atom), o[0]), o[1], o[2]))
            for k, o in ho.items():
                add(res, k, (land(atom, o[0]), o[1], o[2]))
            outs = res
        if s.orelse and 'n' in outs:
            c, q, _ = outs.pop('n')
            for k, o in self.block(s.orelse, q, ctx).items():
                add(outs, k, (land(c, o[0]), o[1], o[2]))
        if s.finalbody:
            res = {}
            for k, (c, q, v) in outs.items():
                for k2, o in self.block(s.finalbody, q, ctx).items():
                    if k2 == 'n':
                        add(res, k, (land(c, o[0]), o[1], v))
                    else:
                        add(res, k2, (land(c, o[0]), o[1], o[2]))
            outs = res
        return outs

    # ------------------------------------------------------------ calls of package functions

    def closure(self, node, st, ctx):
        lid = self.fresh()
        self.captured |= set(ctx.scopes)
        a = node.args
        dfl = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            dfl[p.arg] = self.ev(d, st, ctx)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dfl[p.arg] = self.ev(d, st, ctx)
        self.lams[lid] = (node, ctx.scopes, ctx.module, ctx.cls, ctx.selfv, dfl)
        return T('lam', lid)

    def bind(self, st, node, args, kw, defaults, what):
        """parameter name -> value; args may contain ('*', value)"""
        a = node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals, kw = {}, dict(kw)
        rest = []
        bad = None
        loose = False
        i = 0
        for x in args:
            if isinstance(x, tuple):
                sg = self.iter_segs(st, x[1])
                if all(q.kind == 'item' for q in sg):
                    for q in sg:
                        if i < len(pos):
                            vals[pos[i]] = q.args[0]
                            i += 1
                        else:
                            rest.append(q)
                elif x is args[-1] and len(sg) == 1 and sg[0].kind == 'splat' and not a.vararg \
                        and not any(q in defaults for q in pos[i:]):
                    # as many values as there are parameters left
                    left = [q for q in pos[i:] if q not in kw]
                    for j, q in enumerate(left):
                        vals[q] = self.get_item(st, x[1], const(j))
                    i = len(pos)
                else:
                    rest += list(sg)
                    loose = True
            elif i < len(pos):
                vals[pos[i]] = x
                i += 1
            else:
                rest.append(T('item', x))
        if a.vararg:
            vals[a.vararg.arg] = T('tup', *[q.args[0] for q in rest]) if all(q.kind == 'item' for q in rest) \
                else self.new_list(st, rest)
        elif rest and not loose:
            bad = 'too many arguments'
        names = set(pos) | {p.arg for p in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in names:
                if k in vals:
                    bad = 'duplicate argument ' + k
                vals[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            vals[a.kwarg.arg] = self.alloc(st, Obj('dict', content=tuple(
                T('put', const(k), v) for k, v in sorted(extra.items()))))
        elif extra and '**' not in extra:
            bad = 'unexpected argument ' + sorted(extra)[0]
        for p in pos + [q.arg for q in a.kwonlyargs]:
            if p not in vals:
                if p in defaults:
                    vals[p] = defaults[p]
                else:
                    bad = bad or (None if loose else 'missing argument ' + p)
                    vals[p] = unk('missing argument ' + p)
        return vals, bad

    def fn_defaults(self, st, f):
        a = f.node.args
        out = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = self.global_expr(st, f.module, d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = self.global_expr(st, f.module, d)
        return out

    def call_fn(self, st, f, args, kw, node, cls=None):
        """call of a named package function with positional args (receiver included)"""
        self.tick()
        self.sites += 1
        vals, bad = self.bind(st, f.node, args, kw, self.fn_defaults(st, f), f.qual)
        if bad:
            e = T('exn', 'TypeError', '!')
            q = st.fork()
            q.emit(T('raise', e))
            st.pend.append((TRUE, q, e))
            return T('bottom', bad + ' in call of ' + f.qual)
        if f.name in self.opaque or f.qual.split(':')[-1] in self.opaque:
            t = T('call', f.qual.split(':')[-1], *[T('kw', k, self.pure(st, v)) for k, v in sorted(vals.items())])
            if f.name in self.stream or f.qual.split(':')[-1] in self.stream:
                k = (T('stream'), f.qual.split(':')[-1])
                n = st.over.get(k, T('const', 0))
                st.over[k] = t_add(n, T('const', 1))
                t = T('call', *t.args, T('kw', '#', n))
            ty = self.types.result(f.module, f.node)
            if ty:
                self.types.sym[t] = ty
            st.emit(T('do', t))
            if f.name in self.mutating or f.qual.split(':')[-1] in self.mutating:
                for k, v in sorted(vals.items()):
                    self.changed_by(st, t, k, v)
            if ty and ty[0] in ('dict', 'list', 'set') and not self.stack_pure:
                return self.alloc(st, Obj(ty[0], content=(T('splat', t),)))
            return t
        if self.stack.count(f.qual) >= (5 if any(not isinstance(a, tuple) and a.kind == 'ref' for a in args) else 1) \
                or len(self.stack) > 80:
            t = T('rec', f.qual.split(':')[-1], *[T('kw', k, self.pure(st, v)) for k, v in sorted(vals.items())])
            ty = self.types.result(f.module, f.node)
            if ty:
                self.types.sym[t] = ty
            st.emit(T('do', t))
            return t
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(f.node)):
            return self.generator(st, f.node, vals, (), f.module, f.cls, None, f.qual)
        self.seen_funcs.add(f.qual)
        for p in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
            v = vals.get(p.arg)
            if v is not None and p.annotation is not None and v.kind in ('sym', 'call', 'mcall', 'app', 'attr', 'sub', 'elem') \
                    and self.types.of(v) is None:
                ty = self.types.ann(f.module, p.annotation)
                if ty:
                    self.types.sym[v] = ty
        pos0 = f.node.args.posonlyargs + f.node.args.args
        self.stack.append(f.qual)
        try:
            return self.run_body(st, f.node.body, vals, (), f.module, f.cls, f,
                                 vals.get(pos0[0].arg) if pos0 else None)
        finally:
            self.stack.pop()

    def run_body(self, st, body, vals, scopes, module, cls, func, selfv):
        fid = self.fresh()
        st.frames[fid] = dict(vals)
        ctx = Ctx(fid, (fid,) + tuple(scopes), module, cls, func, selfv)
        pc0 = st.pc
        pend, st.pend = st.pend, []
        outs = self.block(body, st, ctx)
        if 'n' in outs:
            c, q, _ = outs.pop('n')
            add(outs, 'r', (c, q, NONE))
        v = T('bottom', 'no return')
        if 'x' in outs:
            c, q, e = outs['x']
            if 'r' not in outs:
                c = TRUE
            if fid not in self.captured:
                q.frames.pop(fid, None)
            xp = (c, q, e)
        else:
            xp = None
        if 'r' in outs:
            c, q, v = outs['r']
            if q is not st:
                st.become(q)
        elif xp:
            st.become(xp[1].fork())
        st.pc = pc0
        st.pend = pend + ([xp] if xp else [])
        if fid not in self.captured:
            st.frames.pop(fid, None)
        return v

    def generator(self, st, node, vals, scopes, module, cls, selfv, qual):
        """a generator function is treated as building the list of what it yields"""
        if any(isinstance(x, (ast.YieldFrom, ast.Await)) for x in ast.walk(node)):
            return unk('yield from')
        lst = self.new_list(st)
        vals = dict(vals)
        vals['#yield'] = lst
        self.stack.append(qual)
        try:
            self.run_body(st, node.body, vals, scopes, module, cls, None, selfv)
        finally:
            self.stack.pop()
        return lst

    def call_lam(self, st, v, args, kw, node):
        nd, scopes, module, cls, selfv, dfl = self.lams[v.args[0]]
        self.tick()
        key = ('lam', id(nd))
        if self.stack.count(key) >= 2:
            return T('rec', 'lambda', *[self.pure(st, a) for a in args if not isinstance(a, tuple)])
        vals, bad = self.bind(st, nd, args, kw, dfl, 'lambda')
        if bad:
            e = T('exn', 'TypeError', '!')
            q = st.fork()
            q.emit(T('raise', e))
            st.pend.append((TRUE, q, e))
            return T('bottom', bad)
        self.stack.append(key)
        try:
            if isinstance(nd, ast.Lambda):
                fid = self.fresh()
                st.frames[fid] = vals
                r = self.ev(nd.body, st, Ctx(fid, (fid,) + tuple(scopes), module, cls, None, selfv))
                if fid not in self.captured:
                    st.frames.pop(fid, None)
                return r
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(nd)):
                return self.generator(st, nd, vals, scopes, module, cls, selfv, key)
            return self.run_body(st, nd.body, vals, scopes, module, cls, None, selfv)
        finally:
            self.stack.pop()

    # ------------------------------------------------------------ entry points

    def begin(self, budget=None):
        self.budget = budget or self.budget0
        LIMIT[0] = self.budget * 12
        self._busy = []
        self.stack = []
        return St()

    def sym(self, name, ty=None):
        t = T('sym', name)
        if ty:
            self.types.sym[t] = ty
        return t

    def sym_args(self, f, skip_self=True, prefix=''):
        """one opaque symbol per declared parameter"""
        out = {}
        a = f.node.args
        ps = a.posonlyargs + a.args + a.kwonlyargs
        if skip_self and f.cls is not None and not f.is_static:
            ps = ps[1:]
        for p in ps:
            out[p.arg] = self.sym(prefix + p.arg, self.types.ann(f.module, p.annotation))
        if a.vararg:
            out['*'] = self.sym(prefix + a.vararg.arg)
        return out


def is_file(t):
    """a file handle: leaving its block is closing it"""
    return t.kind == 'call' and t.args[0] == 'open'


def _load(t):
    n = ast.copy_location(type(t)(**{f: getattr(t, f) for f in t._fields}), t)
    n.ctx = ast.Load()
    return n
