"""Builtin functions, container methods, protobuf messages, external calls."""
from .terms import *
from .state import *
from .program import ClassInfo
from .loops import map_segs, one_item, mapleaves2

PURE_EXT = {'uuid.UUID', 'math.sqrt', 'math.log', 'math.log2', 'math.exp', 'math.ceil', 'math.floor', 'math.pow',
            'os.path.join', 'os.path.dirname', 'os.path.exists', 'os.path.basename', 'math.isnan', 'math.inf',
            'numpy.array', 'numpy.zeros', 'numpy.log', 'numpy.sqrt', 'datetime.datetime', 'random.Random',
            'functools.partial', 'itertools.chain', 'operator.itemgetter', 'operator.attrgetter', 'pathlib.Path',
            'time.time', 'time.perf_counter'}
FRESH = {'uuid.uuid4', 'uuid.uuid1'}
STR_METHODS = {'startswith', 'endswith', 'split', 'strip', 'replace', 'lower', 'upper', 'format', 'lstrip', 'rstrip',
               'rsplit', 'find', 'isdigit', 'encode', 'decode', 'title', 'zfill', 'hex', 'isoformat', 'timestamp',
               'total_seconds', 'splitlines', 'removeprefix', 'removesuffix', 'capitalize', 'ljust', 'rjust'}


# methods of libraries that give nothing
PROCEDURES = {'to_file', 'savefig', 'fill_rect', 'fill_text', 'stroke_line', 'observe', 'attribute', 'node', 'edge'}

class Builtins:
    # ------------------------------------------------------------ sizes

    def len_of(self, st, v):
        if v.kind == 'ite' and not is_cond(v):
            return ite(v.args[0], self.len_of(st, v.args[1]), self.len_of(st, v.args[2]))
        if v.kind == 'ref' and st.heap[v.args[0]].kind == 'inst':
            o = st.heap[v.args[0]]
            m = self.prog.lookup(o.cls, '__len__')
            if m and m[0] == 'method':
                return self.call_fn(st, m[1], [v], {}, None)
        if v.kind == 'const' and isinstance(v.args[0], str):
            return const(len(v.args[0]))
        if v.kind == 'dict' or (v.kind == 'ref' and st.heap[v.args[0]].kind == 'dict'):
            c = st.heap[v.args[0]].content if v.kind == 'ref' else v.args[0].args
            ks = [s.args[0] for s in c if s.kind == 'put']
            if len(ks) == len(c) and all(x.kind == 'const' for x in ks):
                return const(len(set(ks)))
            if len(c) == 1 and c[0].kind == 'splat':
                return self.len_of(st, c[0].args[0]) if c[0].args[0].kind in ('ref', 'dict') else T('len', c[0].args[0])
            return T('len', self.pure(st, v))
        if v.kind in ('set',) or (v.kind == 'ref' and st.heap[v.args[0]].kind == 'set'):
            p = self.pure(st, v)
            if not p.args[0].args:
                return ZERO
            return T('len', p)
        return self.len_segs(st, self.iter_segs(st, v))

    def len_segs(self, st, sg):
        n = ZERO
        rest = []
        for s in sg:
            if s.kind == 'item':
                n = t_add(n, ONE)
            elif s.kind == 'splat':
                S = s.args[0]
                if S.kind == 'range' and len(S.args) == 2 and S.args[0] is ZERO and S.args[1].kind == 'len':
                    n = t_add(n, S.args[1])
                elif S.kind == 'range' and len(S.args) == 2 and S.args[0] is ZERO:
                    n = t_add(n, S.args[1])
                elif S.kind in ('enumerate', 'items', 'values', 'sorted', 'reversed', 'deepcopy', 'copy'):
                    n = t_add(n, self.len_segs(st, (T('splat', S.args[0]),)))
                elif S.kind in ('list',):
                    n = t_add(n, self.len_segs(st, S.args[0].args))
                else:
                    n = t_add(n, T('len', S))
            elif s.kind == 'each' and one_item(s.args[2].args):
                n = t_add(n, self.len_segs(st, (T('splat', s.args[0]),)))
            elif s.kind == 'each':
                d = self.len_segs(st, s.args[2].args)
                n = t_add(n, self.t_sum(s.args[0], s.args[1], d))
            elif s.kind == 'alt':
                n = t_add(n, mapleaves2(s.args[0], lambda l: self.len_segs(st, l.args)))
            elif s.kind == 'setat':
                continue
            else:
                rest.append(s)
        if rest:
            return T('len', T('list', segs(tuple(self.pure(st, s) for s in sg))))
        return n

    def nonempty(self, st, v):
        if v.kind == 'dict':
            return self.nonempty_segs(st, v.args[0].args)
        return self.nonempty_segs(st, self.iter_segs(st, v))

    def nonempty_segs(self, st, sg):
        r = FALSE
        for s in sg:
            if s.kind in ('item', 'put'):
                return TRUE
            if s.kind == 'splat':
                S = s.args[0]
                while S.kind in ('sorted', 'reversed', 'enumerate', 'items', 'values'):
                    S = S.args[0]
                k = T('nonempty', S)
                if S.kind == 'range' and len(S.args) == 2:
                    k = t_lt(S.args[0], S.args[1])
            elif s.kind == 'each':
                k = self.norm_any(s.args[0], s.args[1], self.nonempty_segs(st, s.args[2].args))
            elif s.kind == 'alt':
                k = mapleaves2(s.args[0], lambda l: self.nonempty_segs(st, l.args))
            else:
                return T('nonempty', T('list', segs(tuple(self.pure(st, x) for x in sg))))
            r = lor(r, k)
        return r

    # ------------------------------------------------------------ builtin functions

    def call_builtin(self, st, name, args, kw, node):
        m = getattr(self, 'b_' + name, None)
        if m is not None and not any(isinstance(a, tuple) for a in args):
            return m(st, args, kw, node)
        if name.endswith('Error') or name.endswith('Exception'):
            return T('call', name, *self.pargs(st, args, kw))
        t = T('call', name, *self.pargs(st, args, kw))
        if name in ('print', 'open', 'input', 'exec', 'eval', 'exit', 'quit', '__import__', 'delattr', 'compile'):
            st.emit(T('do', t))
        return t

    def pcall(self, st, name, args, kw):
        return T('call', name, *self.pargs(st, args, kw))

    def b_len(self, st, a, kw, node):
        return self.len_of(st, a[0])

    def b_str(self, st, a, kw, node):
        if not a:
            return const('')
        return self.over_cases(st, a[0], lambda q, x: self.to_str(q, x))

    def b_repr(self, st, a, kw, node):
        return T('repr', self.pure(st, a[0]))

    def b_int(self, st, a, kw, node):
        if a and a[0].kind == 'const':
            try:
                return const(int(a[0].args[0]))
            except Exception:
                pass
        if a and self.types.of(a[0]) == ('prim', 'int') and not kw and len(a) == 1:
            return a[0]
        return T('int', *self.pargs(st, a, kw))

    def b_float(self, st, a, kw, node):
        return self.pcall(st, 'float', a, kw)

    def b_bool(self, st, a, kw, node):
        return self.truthv(st, a[0]) if a else FALSE

    def b_abs(self, st, a, kw, node):
        return self.pcall(st, 'abs', a, kw)

    def b_round(self, st, a, kw, node):
        return self.pcall(st, 'round', a, kw)

    def b_ord(self, st, a, kw, node):
        return self.pcall(st, 'ord', a, kw)

    def b_chr(self, st, a, kw, node):
        return self.pcall(st, 'chr', a, kw)

    def b_id(self, st, a, kw, node):
        return self.pcall(st, 'id', a, kw)

    def b_iter(self, st, a, kw, node):
        return a[0]

    def b_callable(self, st, a, kw, node):
        if a[0].kind in ('lam', 'fn', 'bound', 'cls'):
            return TRUE
        return T('callable', self.pure(st, a[0]))

    def b_hash(self, st, a, kw, node):
        v = a[0]
        if v.kind == 'ref' and st.heap[v.args[0]].kind == 'inst':
            m = self.prog.lookup(st.heap[v.args[0]].cls, '__hash__')
            if m and m[0] == 'method':
                return self.call_fn(st, m[1], [v], {}, node)
        m = self.special(st, v, '__hash__') if self.dispatch else None
        if m:
            self.dispatch = False
            r = self.call_fn(st, m, [v], {}, node)
            self.dispatch = True
            return r
        return T('hash', self.pure(st, v))

    def b_type(self, st, a, kw, node):
        if len(a) == 1:
            if a[0].kind == 'ref' and isinstance(st.heap[a[0].args[0]].cls, ClassInfo):
                return self.clsv(st.heap[a[0].args[0]].cls)
            return T('type', self.pure(st, a[0]))
        return unk('type()')

    def b_isinstance(self, st, a, kw, node):
        v, c = a
        if c.kind == 'tup':
            return lor(*[self.b_isinstance(st, [v, x], {}, node) for x in c.args])
        if v.kind == 'ite' and not is_cond(v):
            return ite(v.args[0], self.b_isinstance(st, [v.args[1], c], kw, node),
                       self.b_isinstance(st, [v.args[2], c], kw, node))
        cn = self.cls_name(c)
        if cn is None:
            return T('truthy', unk('isinstance'))
        if v is NONE:
            return FALSE
        if v.kind == 'ref':
            o = st.heap[v.args[0]]
            if o.kind == 'inst':
                return TRUE if self.prog.issub(o.cls, cn) else FALSE
            return TRUE if o.kind == cn else FALSE
        if v.kind == 'const':
            return TRUE if cn in [k.__name__ for k in type(v.args[0]).__mro__] else FALSE
        if v.kind == 'obj':
            k = self.prog.find_class(v.args[0], required=False)
            if k:
                return TRUE if self.prog.issub(k, cn) else FALSE
        if v.kind in ('lam', 'fn', 'bound', 'bm', 'lamnf', 'partial', 'fnv') and cn in ('str', 'int', 'float', 'list', 'dict', 'set', 'bool'):
            return FALSE
        if v.kind == 'sym' and self.types.of(v) == ('prim', cn):
            return neg(t_is(v, NONE))
        t = self.types.of(v) if v.kind == 'sym' and c.kind == 'cls' else None
        if t and t[0] in ('prim', 'dict', 'list', 'set'):
            return FALSE
        if t and t[0] == 'cls' and not isinstance(t[1], str):
            if self.prog.issub(t[1], cn):
                return neg(t_is(v, NONE))
            if not any(self.prog.issub(k, cn) for k in self.prog.subclasses(t[1])):
                return FALSE
        return T('isinst', self.pure(st, v), cn)

    def cls_name(self, c):
        if c.kind == 'cls':
            return c.args[0].split(':')[-1]
        if c.kind in ('bi', 'pcls'):
            return c.args[0]
        if c.kind == 'ext':
            return c.args[0].split('.')[-1]
        return None

    def b_hasattr(self, st, a, kw, node):
        return T('hasattr', self.pure(st, a[0]), self.pure(st, a[1]))

    def b_getattr(self, st, a, kw, node):
        if a[1].kind == 'const' and len(a) == 2:
            return self.get_attr(st, a[0], a[1].args[0])
        return T('getattr', *self.pargs(st, a, kw))

    def b_setattr(self, st, a, kw, node):
        if a[1].kind == 'const':
            self.set_attr(st, a[0], a[1].args[0], a[2])
        else:
            st.emit(unk('setattr'))
        return NONE

    def b_vars(self, st, a, kw, node):
        if a and a[0].kind == 'ref' and st.heap[a[0].args[0]].kind == 'inst':
            o = st.heap[a[0].args[0]]
            return self.alloc(st, Obj('dict', content=tuple(T('put', const(k), v) for k, v in o.fields.items())))
        return self.pcall(st, 'vars', a, kw)

    def b_range(self, st, a, kw, node):
        p = [self.pure(st, x) for x in a]
        if len(p) == 1:
            p = [ZERO] + p
        if len(p) == 3 and p[2] is ONE:
            p = p[:2]
        return T('range', *p)

    def b_enumerate(self, st, a, kw, node):
        start = a[1] if len(a) > 1 else kw.get('start', ZERO)
        return T('enumerate', a[0], start)

    def b_zip(self, st, a, kw, node):
        return T('zip', *a)

    def b_reversed(self, st, a, kw, node):
        return self.reverse(st, a[0])

    def reverse(self, st, v):
        sg = self.iter_segs(st, v)
        if all(s.kind == 'item' for s in sg):
            return self.new_list(st, reversed(sg))
        return T('reversed', self.seqterm(st, v))

    def seqterm(self, st, v):
        """canonical pure term of a sequence"""
        sg = self.iter_segs(st, v)
        if len(sg) == 1 and sg[0].kind == 'splat':
            return self.pure(st, sg[0].args[0])
        return T('list', rebuild('segs', [self.pure(st, s) for s in sg]))

    def b_list(self, st, a, kw, node):
        if not a:
            return self.new_list(st)
        return self.over_cases(st, a[0], lambda q, x: self.new_list(q, self.iter_segs(q, x)))

    def b_tuple(self, st, a, kw, node):
        if not a:
            return T('tup')
        sg = self.iter_segs(st, a[0])
        if all(s.kind == 'item' for s in sg):
            return T('tup', *[s.args[0] for s in sg])
        return self.new_list(st, sg)

    def b_set(self, st, a, kw, node, kind='set'):
        s = self.new_list(st, (), kind)
        if a:
            sg = self.iter_segs(st, a[0])
            seen = []
            for x in sg:
                if x not in seen:
                    seen.append(x)
            st.heap[s.args[0]] = st.heap[s.args[0]].with_content(seen)
        return s

    def b_frozenset(self, st, a, kw, node):
        return self.b_set(st, a, kw, node)

    def b_dict(self, st, a, kw, node):
        d = self.alloc(st, Obj('dict'))
        if a:
            self.call_method(st, d, 'update', [a[0]], {}, node)
        for k, v in kw.items():
            self.set_item(st, d, const(k), v, node)
        return d

    def b_map(self, st, a, kw, node):
        f = a[0]
        out = self.new_list(st)
        if len(a) == 2:
            sg = self.iter_segs(st, a[1])
            call = lambda q, v: self.call(q, f, [v], {}, node)
        else:
            sg = self.iter_segs(st, T('zip', *a[1:]))
            call = lambda q, v: self.call(q, f, [self.get_item(q, v, const(i)) for i in range(len(a) - 1)], {}, node)

        def body(q, v):
            self.seq_add(q, out, call(q, v))
            return self.simple(q)
        self.loop_expr(st, sg, body)
        return out

    def b_filter(self, st, a, kw, node):
        f = a[0]
        out = self.new_list(st)

        def body(q, v):
            c = self.truthv(q, self.call(q, f, [v], {}, node)) if f is not NONE else self.truthv(q, v)

            def yes(w):
                self.seq_add(w, out, v)
                return self.simple(w)
            return self.branch(c, q, yes, lambda w: {'n': (TRUE, w, NONE)})
        self.loop_expr(st, self.iter_segs(st, a[1]), body)
        return out

    def loop_expr(self, st, sg, body):
        pend = st.pend
        st.pend = []
        outs = self.run_over(st, sg, body)
        if 'n' in outs:
            q = outs['n'][1]
            if q is not st:
                q.pend = []
                st.become(q)
        st.pend = pend + ([outs['x']] if 'x' in outs else [])

    def b_any(self, st, a, kw, node):
        return self.any_segs(st, self.iter_segs(st, a[0]))

    def any_segs(self, st, sg):
        r = FALSE
        for s in sg:
            if s.kind == 'item':
                k = self.truthv(st, s.args[0])
            elif s.kind == 'each':
                k = self.norm_any(s.args[0], s.args[1], self.any_segs(st, s.args[2].args))
            elif s.kind == 'splat':
                k = self.norm_any(s.args[0], 0, truth(T('elem', s.args[0], 0)))
            elif s.kind == 'alt':
                k = mapleaves2(s.args[0], lambda l: self.any_segs(st, l.args))
            else:
                k = T('truthy', unk('any'))
            r = lor(r, self.pure(st, k))
        return r

    def b_all(self, st, a, kw, node):
        sg = map_segs(self.iter_segs(st, a[0]),
                      lambda s: (T('item', neg(self.truthv(st, s.args[0]))),) if s.kind == 'item' else
                      mk_each(s.args[0], 0, (T('item', neg(truth(T('elem', s.args[0], 0)))),)) if s.kind == 'splat'
                      else (s,))
        return neg(self.any_segs(st, sg))

    def b_sum(self, st, a, kw, node):
        if len(a) == 1 and not kw:
            return self.sum_segs(st, self.iter_segs(st, a[0]))
        return self.pcall(st, 'sum', a, kw)

    def sum_segs(self, st, sg):
        r = ZERO
        for s in sg:
            if s.kind == 'item':
                r = t_add(r, self.pure(st, s.args[0]))
            elif s.kind == 'each':
                r = t_add(r, self.t_sum(s.args[0], s.args[1], self.sum_segs(st, s.args[2].args)))
            elif s.kind == 'alt':
                r = t_add(r, mapleaves2(s.args[0], lambda l: self.sum_segs(st, l.args)))
            else:
                r = t_add(r, T('sum', T('list', segs((self.pure(st, s),)))))
        return r

    def b_max(self, st, a, kw, node):
        return self.minmax(st, 'max', a, kw)

    def b_min(self, st, a, kw, node):
        return self.minmax(st, 'min', a, kw)

    def minmax(self, st, nm, a, kw):
        if len(a) > 1 and not kw:
            p = [self.pure(st, x) for x in a]
            if all(x.kind == 'const' for x in p):
                try:
                    return const((max if nm == 'max' else min)(x.args[0] for x in p))
                except Exception:
                    pass
            return T(nm, *sorted(set(p), key=lambda x: x.dig))
        if len(a) == 1 and set(kw) == {'key'} and kw['key'] is not NONE:
            r = self.best_of(st.fork(), nm, a[0], kw['key'])
            if r is not None:
                return self.best_of(st, nm, a[0], kw['key'])
        return T('call', nm, *([self.seqterm(st, a[0])] if len(a) == 1 else self.pargs(st, a, {})),
                 *self.pargs(st, [], kw))

    def best_of(self, st, nm, seq, key):
        """max / min of a sequence by a key"""
        out = self.new_list(st)

        def body(q, v):
            k = self.get_item(q, seq, v) if key.kind == 'bm' and key.args[1] == 'get' and key.args[0] is seq \
                else self.call(q, key, [v], {}, None)
            self.seq_add(q, out, T('tup', self.pure(q, k), self.pure(q, v)))
            return self.simple(q)
        self.loop_expr(st, self.iter_segs(st, seq), body)
        t = self.seqterm(st, out)
        if t.kind != 'list' or len(t.args[0].args) != 1 or t.args[0].args[0].kind != 'each':
            return None
        d, lv, b = t.args[0].args[0].args
        if len(b.args) != 1 or b.args[0].kind not in ('alt', 'item'):
            return None
        got = {l for x in b.args for l in (leaves(x.args[0]) if x.kind == 'alt' else [b])} - {EMPTY}
        l = got.pop() if len(got) == 1 else None
        ix, el = T('idx', d, lv), T('elem', d, lv)
        if l is None or l.kind != 'segs' or len(l.args) != 1 or l.args[0].kind != 'item' or contains(t, ix):
            return None
        k, v = l.args[0].args[0].args
        by = mapleaves(b.args[0].args[0], lambda x: x if x is EMPTY else segs((T('item', k),))) \
            if b.args[0].kind == 'alt' else segs((T('item', k),))
        return subst(v, {el: T('best', nm, T('each', d, lv, by))})

    def b_sorted(self, st, a, kw, node):
        s = self.seqterm(st, a[0])
        key = kw.get('key', NONE)
        rev = kw.get('reverse', FALSE)
        key = self.pure(st, key)
        if key.kind == 'lamnf' and key.args[2] is T('lamarg', key.args[1], 0):
            key = NONE
        return T('sorted', s, key, self.pure(st, rev))

    def b_print(self, st, a, kw, node):
        st.emit(T('print', *self.pargs(st, a, kw)))
        return NONE

    def b_open(self, st, a, kw, node):
        t = self.pcall(st, 'open', a, kw)
        st.emit(T('do', t))
        return t

    def b_next(self, st, a, kw, node):
        sg = self.iter_segs(st, a[0])
        if len(a) == 2:
            return self.first_of(st, sg, a[1])
        return self.first_of(st, sg, T('bottom', 'StopIteration'))

    def first_of(self, st, sg, dflt):
        r = dflt
        for s in reversed(sg):
            if s.kind == 'item':
                r = s.args[0]
            elif s.kind == 'splat':
                r = ite(T('nonempty', s.args[0]), t_item(s.args[0], ZERO), r)
            elif s.kind == 'each':
                d, lv, body = s.args
                c = self.nonempty_segs(st, body.args)
                if c is TRUE:
                    v = subst(self.first_of(st, body.args, NONE), {T('elem', d, lv): t_item(d, ZERO), T('idx', d, lv): ZERO})
                    r = ite(T('nonempty', d), v, r)
                else:
                    fe = {T('elem', d, lv): T('first', d, lv, c), T('idx', d, lv): T('firstidx', d, lv, c)}
                    v = self.first_of(st, body.args, T('none!'))
                    v = subst(_drop(v, T('none!')), fe)
                    r = ite(self.norm_any(d, lv, c), v, r)
            elif s.kind == 'alt':
                r = mapleaves2(s.args[0], lambda l: self.first_of(st, l.args, r))
            else:
                return unk('next')
        return r

    # ------------------------------------------------------------ methods

    def call_method(self, st, recv, name, args, kw, node):
        k = recv.kind
        if k == 'ite' and not is_cond(recv):
            return self.over_cases(st, recv, lambda q, x: self.call_method(q, x, name, args, kw, node))
        if k == 'ref':
            o = st.heap[recv.args[0]]
            if o.kind == 'inst':
                if name in o.fields:
                    return self.call(st, o.fields[name], args, kw, node)
                m = self.prog.lookup(o.cls, name)
                if m and m[0] == 'method':
                    f = m[1]
                    return self.call_fn(st, f, list(args) if f.is_static else
                                        [self.clsv(o.cls) if f.is_class else recv] + list(args), kw, node, o.cls)
                if m:
                    return self.call(st, self.member(st, recv, m, o.cls), args, kw, node)
                return unk('no method ' + name)
            if o.kind == 'msg':
                return self.msg_method(st, recv, o, name, args, kw, node)
            r = self.container_method(st, recv, o, name, args, kw, node)
            if r is not None:
                return r
            st.emit(unk('method %s of %s' % (name, o.kind)))
            return unk('method ' + name)
        if k == 'super':
            c, s = recv.args
            m = self.prog.lookup(self.super_class(st, s, c), name, after=self.classes[c])
            if m and m[0] == 'method':
                return self.call_fn(st, m[1], [s] + list(args), kw, node)
            if name == '__init__':
                return NONE
            return unk('super method')
        if k in ('mod', 'ext', 'cls', 'enum'):
            if k == 'cls':
                c = self.classes[recv.args[0]]
                m = self.prog.lookup(c, name)
                if m and m[0] == 'method':
                    f = m[1]
                    return self.call_fn(st, f, ([recv] if f.is_class else []) + list(args), kw, node)
            return self.call(st, self.get_attr(st, recv, name), args, kw, node)
        if k == 'bi':
            return self.pcall(st, recv.args[0] + '.' + name, args, kw)
        if k == 'bottom':
            return recv
        if k in ('list', 'set', 'dict', 'slice', 'sorted', 'reversed') and name in ('copy', 'index', 'count', 'items', 'keys',
                                                                      'values', 'get', '__len__', 'union'):
            if k in ('list', 'set', 'dict'):
                tmp = self.alloc(st, Obj(k, content=recv.args[0].args if recv.args else ()))
                r = self.container_method(st, tmp, st.heap[tmp.args[0]], name, args, kw, node)
                if r is not None:
                    return r
        if (recv, name) in st.over:
            return self.call(st, st.over[(recv, name)], args, kw, node)
        t = self.types.of(recv)
        if k == 'obj' and not t:
            return unk('method of ' + str(recv.args[0]))
        if t and t[0] == 'cls':
            m = self.prog.lookup(t[1], name)
            if m and m[0] == 'method':
                f = m[1]
                if f.qual in self.stack and k != 'obj' and name in ('append', 'insert', 'copy', 'items', 'keys', 'values', 'get'):
                    return self.opaque_method(st, recv, name, args, kw, node)
                if k != 'obj' and self.prog.overridden(t[1], name) and not f.is_static:
                    v = T('vcall', recv, name, *self.pargs(st, args, kw))
                    ty = self.types.result(f.module, f.node)
                    if ty and v not in self.types.sym:
                        self.types.sym[v] = ty
                    st.emit(T('do', v))
                    self.after_vcall(st, t[1], recv, name, args, v)
                    return v
                return self.call_fn(st, f, list(args) if f.is_static else [recv] + list(args), kw, node)
            if name in self.types.field_types(t[1]):
                return self.call(st, t_attr(recv, name), args, kw, node)
        if t and t[0] == 'proto':
            if name == 'HasField':
                return T('hasfield', recv, args[0].args[0]) if args[0].kind == 'const' else unk('HasField')
            if name == 'WhichOneof':
                return T('whichoneof', recv, self.pure(st, args[0]))
        g = self.prog.only_getter(name) if not t and not args and not kw else None
        if g is not None:
            return self.call_fn(st, g, [recv], kw, node)
        return self.opaque_method(st, recv, name, args, kw, node)

    def after_vcall(self, st, c, recv, name, args, v):
        """containers handed to a method of unknown implementation may have changed"""
        for i, a in enumerate(args):
            if isinstance(a, tuple) or a.kind != 'ref' or a.args[0] not in st.heap:
                continue
            o = st.heap[a.args[0]]
            if o.kind not in ('list', 'set', 'dict', 'inst', 'msg'):
                continue
            e = self.prog.param_effect(c, name, i)
            if e == 'none':
                continue
            if o.kind == 'list' and e == 'append':
                new = T('appended', recv, name, i)
                seg = self.instance[new].args[0].args if new in self.instance else (T('splat', new),)
                st.heap[a.args[0]] = o.with_content(tuple(o.content) + seg)
            elif o.kind in ('list', 'set', 'dict'):
                st.heap[a.args[0]] = o.with_content((unk('changed by ' + name),))

    def opaque_method(self, st, recv, name, args, kw, node):
        p = lambda i: self.pure(st, args[i])
        if name in ('append', 'extend', 'remove', 'pop', 'clear', 'insert', 'sort', 'reverse') and (
                recv.kind in ('slice', 'sorted', 'repeat') or recv.kind == 'smeth' and recv.args[1] == 'split'):
            # a list of one's own
            held = [(f, n) for f in st.frames.values() for n, v in f.items() if v is recv]
            if len(held) <= 1:
                own = self.alloc(st, Obj('list', content=(T('splat', recv),)))
                for f, n in held:
                    f[n] = own
                return self.call_method(st, own, name, args, kw, node)
        if name == 'HasField' and args and args[0].kind == 'const':
            return T('hasfield', recv, args[0].args[0])
        if name == 'items' and not args:
            return T('items', recv)
        if name == 'keys' and not args:
            return recv
        if name == 'values' and not args:
            return T('values', recv)
        if name == 'get' and 1 <= len(args) <= 2:
            d = args[1] if len(args) == 2 else NONE
            return ite(T('in', p(0), recv), self.get_item(st, recv, p(0)), d)
        if name == 'join' and len(args) == 1:
            return self.str_join(st, recv, args[0])
        if name == 'find' and len(args) == 1 and not kw:
            r, x = self.pure(st, recv), p(0)
            return ite(T('in', x, r), T('indexof', r, x), const(-1))
        if name in STR_METHODS:
            return T('smeth', self.pure(st, recv), name, *self.pargs(st, args, kw))
        if name == 'copy' and not args:
            ty = self.types.of(recv)
            return self.call_builtin(st, ty[0] if ty and ty[0] in ('dict', 'set') else 'list', [recv], {}, node)
        if name == 'setdefault' and 1 <= len(args) <= 2 and not kw:
            key = p(0)
            d = args[1] if len(args) > 1 else NONE

            def absent(q):
                self.set_item(q, recv, key, d, node)
                return self.get_item(q, recv, key)
            return self.choose(self.contains(st, key, recv), st, lambda q: self.get_item(q, recv, key), absent)
        if name in ('index', 'count') and len(args) == 1:
            return T(name + 'of', recv, p(0))
        if name == 'append' and len(args) == 1 and self.grow(st, recv, (T('item', args[0]),), 'list'):
            return NONE
        if name == 'add' and len(args) == 1 and self.grow(st, recv, (T('item', args[0]),), 'set'):
            return NONE
        if name == 'extend' and len(args) == 1 and self.grow(st, recv, self.iter_segs(st, args[0]), 'list'):
            return NONE
        if name == 'append' and len(args) == 1:
            self.mutate_opaque(st, recv, T('append', recv, p(0)), T('item', args[0]))
            return NONE
        if name == 'extend' and len(args) == 1:
            k = (recv, '#content')
            cur = st.over.get(k, over_default(k))
            cur = cur.args if cur.kind == 'segs' else mk_alt(cur)
            st.over[k] = segs(cat_segs(cur, self.iter_segs(st, args[0])))
            # effect equals appending one by one
            sg = map_segs(self.iter_segs(st, args[0]),
                          lambda s: (T('item', T('append', recv, self.pure(st, s.args[0]))),) if s.kind == 'item' else
                          mk_each(s.args[0], 0, (T('item', T('append', recv, T('elem', s.args[0], 0))),))
                          if s.kind == 'splat' else (s,))
            st.trace = cat_segs(st.trace, sg)
            return NONE
        if name in ('add',) and len(args) == 1:
            self.mutate_opaque(st, recv, T('add', recv, p(0)), T('item', args[0]))
            return NONE
        if name in ('remove', 'pop', 'clear', 'insert', 'sort', 'reverse', 'update', 'discard', 'setdefault'):
            t = T('mutate', recv, name, *self.pargs(st, args, kw))
            self.mutate_opaque(st, recv, t, T('mut', name, *self.pargs(st, args, kw)))
            return T('mutres', recv, name, *self.pargs(st, args, kw))
        t = T('mcall', self.pure(st, recv), name, *self.pargs(st, args, kw))
        st.emit(T('do', t))
        return NONE if name in PROCEDURES else t

    def str_join(self, st, sep, v):
        sg = self.iter_segs(st, v)
        if all(s.kind == 'item' for s in sg):
            parts = []
            for i, s in enumerate(sg):
                if i:
                    parts.append(sep)
                parts.append(s.args[0])
            return strcat(parts)
        return t_join(self.pure(st, sep), T('list', rebuild('segs', [self.pure(st, s) for s in sg])))

    def container_method(self, st, recv, o, name, args, kw, node):
        oid = recv.args[0]
        k = o.kind
        if name == 'copy' and not args:
            return self.alloc(st, Obj(k, content=o.content))
        if k == 'dict':
            if name == 'items':
                return T('items', recv)
            if name == 'keys':
                return self.new_list(st, self.iter_segs(st, recv))
            if name == 'values':
                return self.new_list(st, self.iter_segs(st, T('values', recv)))
            if name == 'get':
                key = self.pure(st, args[0])
                return self.dict_get(st, recv, key, args[1] if len(args) > 1 else NONE)
            if name == 'update':
                for kk, v in kw.items():
                    self.set_item(st, recv, const(kk), v, node)
                if args:
                    src = args[0]
                    c = None
                    if src.kind == 'ref' and st.heap[src.args[0]].kind == 'dict':
                        c = st.heap[src.args[0]].content
                    elif src.kind == 'dict':
                        c = src.args[0].args
                    elif src.kind == 'ref' or src.kind in ('list', 'zip', 'enumerate'):
                        c = map_segs(self.iter_segs(st, src), lambda s: (T('put', *[self.get_item(st, s.args[0], const(i)) for i in (0, 1)]),)
                                     if s.kind == 'item' else (s,))
                    elif src.kind == 'items':
                        c = (T('splat', src.args[0]),)
                    else:
                        c = (T('splat', src),)
                    if c and all(s.kind == 'put' for s in c):
                        for s in c:
                            self.set_item(st, recv, s.args[0], s.args[1], node)
                    elif c:
                        st.heap[oid] = st.heap[oid].with_content(cat_segs(st.heap[oid].content, c))
                return NONE
            if name == 'setdefault':
                key = self.pure(st, args[0])
                d = args[1] if len(args) > 1 else NONE
                c = self.in_segs(st, key, self.iter_segs(st, recv))

                def absent(q):
                    self.set_item(q, recv, key, d, node)
                    return d
                return self.choose(c, st, lambda q: self.get_item(q, recv, key), absent)
            if name == 'pop':
                key = self.pure(st, args[0])
                v = self.dict_get(st, recv, key, args[1] if len(args) > 1 else None)
                self.del_item(st, recv, key, node)
                return v
            if name == 'clear':
                st.heap[oid] = o.with_content(())
                return NONE
            return None
        if name in ('append', 'add') and len(args) == 1:
            self.seq_add(st, recv, args[0])
            return NONE
        if name in ('extend', 'update') and len(args) == 1:
            sg = self.iter_segs(st, args[0])
            if k == 'set':
                sg = tuple(s for s in sg if s not in o.content)
            st.heap[oid] = st.heap[oid].with_content(cat_segs(st.heap[oid].content, sg))
            return NONE
        if name == 'insert' and len(args) == 2:
            if args[0] is ZERO:
                st.heap[oid] = o.with_content((T('item', args[1]),) + o.content)
            elif is_const(args[0]) and all(s.kind == 'item' for s in o.content):
                c = list(o.content)
                c.insert(args[0].args[0], T('item', args[1]))
                st.heap[oid] = o.with_content(c)
            else:
                st.heap[oid] = o.with_content(o.content + (T('insat', self.pure(st, args[0]), args[1]),))
            return NONE
        if name == 'clear':
            st.heap[oid] = o.with_content(())
            return NONE
        if name == 'pop':
            i = args[0] if args else const(-1)
            v = self.get_item(st, recv, i)
            if i.kind == 'const' and all(s.kind == 'item' for s in o.content) and o.content:
                c = list(o.content)
                try:
                    c.pop(i.args[0])
                    st.heap[oid] = o.with_content(c)
                    return v
                except IndexError:
                    pass
            if i is const(-1) and o.content and o.content[-1].kind == 'item':
                v = o.content[-1].args[0]
                st.heap[oid] = o.with_content(o.content[:-1])
                return v
            st.heap[oid] = o.with_content(o.content + (T('popat', self.pure(st, i)),))
            return v
        if name in ('remove', 'discard'):
            x = T('item', args[0])
            if x in o.content and all(s.kind == 'item' for s in o.content):
                c = list(o.content)
                c.remove(x)
                st.heap[oid] = o.with_content(c)
            else:
                st.heap[oid] = o.with_content(o.content + (T('rm', name, self.pure(st, args[0])),))
            return NONE
        if name == 'sort':
            s = self.b_sorted(st, [recv], kw, node)
            st.heap[oid] = o.with_content((T('splat', s),))
            return NONE
        if name == 'reverse':
            s = self.reverse(st, recv)
            st.heap[oid] = o.with_content(self.iter_segs(st, s))
            return NONE
        if name in ('index', 'count'):
            return T(name + 'of', self.seqterm(st, recv), self.pure(st, args[0]))
        if name in ('union', 'difference', 'intersection', 'issubset', 'issuperset', 'symmetric_difference'):
            if name == 'union':
                s = self.alloc(st, Obj('set', content=o.content))
                for x in args:
                    self.container_method(st, s, st.heap[s.args[0]], 'update', [x], {}, node)
                return s
            if name in ('difference', 'intersection') and len(args) == 1:
                r = self.set_op(st, 'Sub' if name == 'difference' else 'BitAnd', recv, args[0])
                if r is not None:
                    return r
            return T('setop', name, self.pure(st, recv), *[self.pure(st, x) for x in args])
        if name in ('popleft',):
            return self.container_method(st, recv, o, 'pop', [ZERO], kw, node)
        return None

    # ------------------------------------------------------------ protobuf messages

    def new_msg(self, st, name, args, kw):
        m = self.alloc(st, Obj('msg', name))
        fields = self.prog.protos.get(name, {}).get('fields', {})
        for k in fields:
            if fields[k]['label'] == 'repeated' and k not in kw:
                st.heap[m.args[0]] = st.heap[m.args[0]].with_field(k, self.new_list(st))
        for k, v in kw.items():
            if k not in fields:
                e = T('exn', 'ValueError')
                q = st.fork()
                q.emit(T('raise', e))
                st.pend.append((TRUE, q, e))
                continue
            if v is NONE:
                continue
            if fields[k]['label'] == 'repeated':
                v = self.new_list(st, map_segs(self.iter_segs(st, v), lambda s: (T('item', self.copy_msg(st, s.args[0])),)
                                               if s.kind == 'item' else (s,)))
            else:
                v = self.copy_msg(st, v)
            st.heap[m.args[0]] = st.heap[m.args[0]].with_field(k, v)
        if args:
            st.emit(unk('positional message arguments'))
        return m

    def copy_msg(self, st, v):
        """a message stored into another one is copied"""
        if v.kind == 'ref' and st.heap[v.args[0]].kind == 'msg':
            return self.pure(st, v)
        return v

    def msg_default(self, st, name, field):
        f = self.prog.protos.get(name, {}).get('fields', {}).get(field)
        if f is None:
            return unk('no field %s.%s' % (name, field))
        if f['label'] == 'repeated':
            return T('list', EMPTY)
        if f['type'] in ('string',):
            return const('')
        if f['type'] == 'bool':
            return FALSE
        if f['type'] in ('float', 'double'):
            return const(0.0)
        if 'int' in f['type']:
            return ZERO
        if f['type'] == 'bytes':
            return const(b'')
        return T('msg', f['type'].split('.')[-1])

    def msg_field(self, st, b, field):
        o = st.heap[b.args[0]]
        f = self.prog.protos.get(o.cls, {}).get('fields', {}).get(field)
        if f is None:
            return unk('no field %s.%s' % (o.cls, field))
        d = self.msg_default(st, o.cls, field)
        if f['label'] == 'repeated':
            v = self.new_list(st)
        elif d.kind == 'msg':
            v = self.alloc(st, Obj('msg', d.args[0]))
        else:
            return d
        st.heap[b.args[0]] = o.with_field(field, v)
        return v

    def msg_store(self, st, cls, name, v):
        return self.copy_msg(st, v)

    def msg_method(self, st, recv, o, name, args, kw, node):
        if name == 'HasField' and args[0].kind == 'const':
            return TRUE if args[0].args[0] in o.fields else FALSE
        if name == 'CopyFrom' or name == 'MergeFrom':
            src = args[0]
            if src.kind == 'ref':
                s = st.heap[src.args[0]]
                f = dict(o.fields) if name == 'MergeFrom' else {}
                for k, v in s.fields.items():
                    if v.kind == 'ref' and st.heap[v.args[0]].kind == 'list':
                        v = self.new_list(st, st.heap[v.args[0]].content)
                    f[k] = self.copy_msg(st, v)
                st.heap[recv.args[0]] = Obj('msg', o.cls, f)
                return NONE
            if src.kind == 'msg':
                f = dict(zip(src.args[1::2], src.args[2::2]))
                st.heap[recv.args[0]] = Obj('msg', o.cls, f)
                return NONE
        if name == 'SerializeToString':
            return T('serialized', self.pure(st, recv))
        if name == 'ClearField' and args[0].kind == 'const':
            f = dict(o.fields)
            f.pop(args[0].args[0], None)
            st.heap[recv.args[0]] = Obj('msg', o.cls, f)
            return NONE
        st.emit(unk('message method ' + name))
        return unk('message method ' + name)

    def pure_msg(self, st, o, depth):
        fs = self.prog.protos.get(o.cls, {}).get('fields', {})
        a = [o.cls]
        for n in sorted(o.fields):
            v = self.pure(st, o.fields[n], depth + 1)
            f = fs.get(n, {})
            if v is NONE:
                continue
            if f.get('label') == 'repeated' and v.kind == 'list' and v.args[0] is EMPTY:
                continue
            if not f.get('oneof') and f.get('label') != 'repeated':
                d = self.msg_default(st, o.cls, n)
                if v is d and d.kind != 'msg':
                    continue
            a += [n, v]
        return T('msg', *a)

    # ------------------------------------------------------------ external functions

    def call_ext(self, st, name, args, kw, node):
        if name in ('copy.copy', 'copy.deepcopy'):
            return self.over_cases(st, args[0], lambda q, x: self.copy_value(q, x, name == 'copy.deepcopy'))
        if name == 'functools.partial':
            return T('partial', args[0], len(args) - 1, *[self.pure(st, a) if a.kind != 'ref' else a for a in args[1:]],
                     *[T('kw', k, v) for k, v in sorted(kw.items())])
        if name == 'functools.reduce' and len(args) >= 2:
            return T('call', name, *self.pargs(st, args, kw))
        if name in ('itertools.chain.from_iterable',) and len(args) == 1:
            out = self.new_list(st)

            def body(q, v):
                self.container_method(q, out, q.heap[out.args[0]], 'extend', [v], {}, node)
                return self.simple(q)
            self.loop_expr(st, self.iter_segs(st, args[0]), body)
            return out
        if name == 'itertools.chain' and not any(isinstance(a, tuple) for a in args):
            c = ()
            for a in args:
                c = cat_segs(c, self.iter_segs(st, a))
            return self.new_list(st, c)
        if name in ('collections.defaultdict', 'collections.OrderedDict', 'collections.deque'):
            if name.endswith('deque'):
                return self.b_list(st, args, kw, node)
            if not args or name.endswith('defaultdict'):
                return self.alloc(st, Obj('dict')) if not name.endswith('defaultdict') else \
                    self.alloc(st, Obj('dict', content=(T('splat', T('defaultdict', *self.pargs(st, args, kw))),)))
            return self.b_dict(st, args, kw, node)
        if name in FRESH:
            return T('fresh', name, self.fresh())
        t = T('call', name, *self.pargs(st, args, kw))
        if name not in PURE_EXT and name.split('.')[0] not in DATA_LIBS:
            st.emit(T('do', t))
        return t

    def copy_value(self, st, v, deep):
        if v.kind == 'ref':
            o = st.heap[v.args[0]]
            if o.kind == 'inst':
                m = self.prog.lookup(o.cls, '__deepcopy__' if deep else '__copy__')
                if m and m[0] == 'method':
                    return self.call_fn(st, m[1], [v], {}, None)
                f = {k: (self.copy_value(st, x, True) if deep else x) for k, x in o.fields.items()}
                return self.alloc(st, Obj('inst', o.cls, f, o.content))
            if o.kind in ('list', 'set', 'dict'):
                if not deep:
                    return self.alloc(st, Obj(o.kind, content=o.content))
                c = map_segs(o.content, lambda s: self.deep_seg(st, s))
                return self.alloc(st, Obj(o.kind, content=c))
            return self.alloc(st, Obj(o.kind, o.cls, o.fields, o.content))
        if v.kind in ('const', 'enum', 'fn', 'cls', 'lam'):
            return v
        if v.kind == 'tup':
            return T('tup', *[self.copy_value(st, x, deep) for x in v.args])
        if deep and v.kind in ('list', 'set', 'dict') and v.args:
            c = map_segs(v.args[0].args, lambda s: self.deep_seg(st, s))
            return self.alloc(st, Obj(v.kind, content=c))
        t = self.types.of(v)
        if t and t[0] == 'cls':
            m = self.prog.lookup(t[1], '__deepcopy__' if deep else '__copy__')
            if m and m[0] == 'method' and not self.prog.overridden(t[1], m[1].name):
                if m[1].qual in self.stack:
                    return self.new_list(st, self.deep_seg(st, T('splat', v)) if deep else (T('splat', v),))
                return self.call_fn(st, m[1], [v], {}, None)
            if self.prog.is_enum(t[1]):
                return v
        if t and t[0] == 'prim':
            return v
        if not deep and t and t[0] in ('list', 'dict'):
            return T('list', segs((T('splat', v),))) if t[0] == 'list' else self.b_dict(st, [v], {}, None)
        if deep and t and t[0] == 'list':
            S = T('splat', v)
            return self.new_list(st, self.deep_seg(st, S))
        return T('deepcopy' if deep else 'copy', self.pure(st, v))

    def deep_seg(self, st, s):
        if s.kind == 'item':
            return (T('item', self.copy_value(st, s.args[0], True)),)
        if s.kind == 'put':
            return (T('put', s.args[0], self.copy_value(st, s.args[1], True)),)
        if s.kind == 'splat':
            dom = s.args[0]
            lv = sum(1 for d in st.loops if d is dom)
            q = st.fork()
            q.loops = q.loops + (dom,)
            v = self.pure(q, self.copy_value(q, T('elem', dom, lv), True))
            return mk_each(dom, lv, (T('item', v),))
        return (T('deep', s),)


def _drop(v, leaf):
    """remove an impossible leaf from a decision diagram"""
    if v.kind == 'ite':
        a, b = _drop(v.args[1], leaf), _drop(v.args[2], leaf)
        if a is leaf:
            return b
        if b is leaf:
            return a
        return ite(v.args[0], a, b)
    return v
