"""Loop summaries: iteration domains, fusion of maps and guards, loop-carried values, early exits."""
import ast
from .terms import *
from .state import *
from .program import ClassInfo



def sorted_map(S):
    """what is made of the elements of a sequence and sorted: made of the elements sorted accordingly"""
    m, key, rev = S.args
    if m.kind != 'list' or len(m.args) != 1 or m.args[0].kind != 'segs' or len(m.args[0].args) != 1:
        return None
    e = m.args[0].args[0]
    if e.kind != 'each' or len(e.args[2].args) != 1 or e.args[2].args[0].kind != 'item':
        return None
    D, lv0, v = e.args[0], e.args[1], e.args[2].args[0].args[0]
    el, ix = T('elem', D, lv0), T('idx', D, lv0)
    if any(x.kind in ('acc', 'prev', 'unk', 'ref') for x in subterms(v)):
        return None
    v = subst(v, {ix: T('placeof', D, el)})
    if key is NONE:
        by = T('lamnf', 1, 0, subst(v, {el: T('lamarg', 0, 0)}))
    elif key.kind == 'lamnf' and key.args[0] == 1:
        arg = T('lamarg', key.args[1], 0)
        by = T('lamnf', 1, key.args[1], subst(key.args[2], {arg: subst(v, {el: arg})}))
    else:
        return None
    X = T('sorted', D, by, rev)
    return X, lambda lv: subst(v, {el: T('elem', X, lv)})


class Loops:
    # ------------------------------------------------------------ iteration domains

    def distinct_domain(self, d):
        """iterating d never yields the same element twice"""
        if d.kind in ('set', 'dict', 'range', 'items', 'enumerate'):
            return True
        if d.kind in ('until', 'after', 'slice', 'reversed', 'sorted'):
            return self.distinct_domain(d.args[0])
        t = self.types.of(d)
        return bool(t) and t[0] in ('set', 'dict')

    def distinct(self, c):
        """the segments of a set are known not to repeat an element, so that iterating the set is iterating them"""
        if len(c) == 0:
            return True
        if all(s.kind == 'item' for s in c):
            return len(c) == 1 or (all(is_const(s.args[0]) for s in c) and len({s.args[0] for s in c}) == len(c))
        if len(c) != 1:
            return False
        s = c[0]
        if s.kind == 'splat':
            return self.distinct_domain(s.args[0])
        if s.kind == 'alt':
            return all(l.kind == 'segs' and self.distinct(l.args) for l in leaves(s.args[0]))
        if s.kind == 'each':
            d, lv, body = s.args

            def own(b, el):
                return all((x.kind == 'item' and x.args[0] is el) or
                           (x.kind == 'alt' and all(l.kind == 'segs' and own(l.args, el) for l in leaves(x.args[0])))
                           for x in b) and len(b) <= 1
            return own(body.args, T('idx', d, lv)) or self.distinct_domain(d) and own(body.args, T('elem', d, lv))
        return False

    def keyed(self, c):
        """the entries of a dict are known to have different keys"""
        return plain(c) and self.distinct(map_segs(c, lambda s: (T('item', s.args[0]),) if s.kind == 'put' else (s,)))

    def iter_segs(self, st, v):
        k = v.kind
        if k == 'ite' and not is_cond(v):
            return alt_segs(v.args[0], self.iter_segs(st, v.args[1]), self.iter_segs(st, v.args[2]))
        if k == 'ref':
            o = st.heap[v.args[0]]
            if o.kind in ('list', 'set', 'dict') and not plain(o.content) or o.kind == 'dict' and not self.keyed(o.content):
                return (T('splat', self.pure(st, v)),)
            if o.kind == 'set' and not self.distinct(o.content):
                return (T('splat', self.pure(st, v)),)
            if o.kind in ('list', 'set'):
                return o.content
            if o.kind == 'dict':
                return map_segs(o.content, lambda s: (T('item', s.args[0]),) if s.kind == 'put' else (s,))
            if o.kind == 'inst':
                m = self.prog.lookup(o.cls, '__iter__') if isinstance(o.cls, ClassInfo) else None
                if m and m[0] == 'method':
                    return self.iter_segs(st, self.call_fn(st, m[1], [v], {}, None))
                fld = self.seq_field(o.cls)
                if fld and fld in o.fields:
                    return self.iter_segs(st, o.fields[fld])
            return (T('splat', unk('iterating object')),)
        if k in ('list', 'set', 'dict') and v.args and v.args[0].kind == 'segs' and (
                not plain(v.args[0].args) or k == 'dict' and not self.keyed(v.args[0].args)):
            return (T('splat', v),)
        if k == 'set' and v.args and v.args[0].kind == 'segs' and not self.distinct(v.args[0].args):
            return (T('splat', v),)
        if k in ('list', 'set') and v.args and v.args[0].kind == 'segs':
            return v.args[0].args
        if k == 'obj':
            c = self.prog.find_class(v.args[0], required=False)
            f = self.seq_field(c) if c else None
            if f:
                return self.iter_segs(st, self.get_attr(st, v, f))
        if k == 'tup':
            return tuple(T('item', x) for x in v.args)
        if k == 'dict' and v.args and v.args[0].kind == 'segs':
            return map_segs(v.args[0].args, lambda s: (T('item', s.args[0]),) if s.kind == 'put' else (s,))
        if k == 'range':
            a, b = v.args[:2]
            if all(is_const(x) for x in v.args) and isinstance(a.args[0], int) and isinstance(b.args[0], int):
                r = range(*[x.args[0] for x in v.args])
                if len(r) <= 16:
                    return tuple(T('item', const(i)) for i in r)
        if k == 'items':
            b = v.args[0]
            if b.kind in ('ref', 'dict'):
                c = st.heap[b.args[0]].content if b.kind == 'ref' else b.args[0].args
                if not self.keyed(c):
                    return (T('splat', T('items', self.pure(st, b))),)
                return map_segs(c, lambda s: (T('item', T('tup', s.args[0], s.args[1])),) if s.kind == 'put' else
                                (T('splat', T('items', s.args[0])),) if s.kind == 'splat' else (s,))
        if k == 'values':
            b = v.args[0]
            if b.kind in ('ref', 'dict'):
                c = st.heap[b.args[0]].content if b.kind == 'ref' else b.args[0].args
                if not self.keyed(c):
                    return (T('splat', T('values', self.pure(st, b))),)
                return map_segs(c, lambda s: (T('item', s.args[1]),) if s.kind == 'put' else
                                (T('splat', T('values', s.args[0])),) if s.kind == 'splat' else (s,))
        if k == 'enumerate':
            inner = self.iter_segs(st, v.args[0])
            if all(s.kind == 'item' for s in inner):
                return tuple(T('item', T('tup', t_add(v.args[1], const(i)), s.args[0])) for i, s in enumerate(inner))
            if len(inner) == 1 and inner[0].kind == 'splat':
                return (T('splat', T('enumerate', inner[0].args[0], v.args[1])),)
            if len(inner) == 1 and inner[0].kind == 'each' and one_item(inner[0].args[2].args):
                d, lv, body = inner[0].args
                return (T('each', d, lv, segs((T('item', T('tup', t_add(v.args[1], T('idx', d, lv)),
                                                           body.args[0].args[0])),))),)
            r = self.numbered(st, inner, v.args[1])
            return r if r is not None else (T('splat', T('enumerate', T('list', segs(inner)), v.args[1])),)
        if k == 'zip':
            parts = [self.iter_segs(st, x) for x in v.args]
            if all(all(s.kind == 'item' for s in p) for p in parts):
                return tuple(T('item', T('tup', *[s.args[0] for s in row])) for row in zip(*parts))
            d = set()
            vals = []
            for p in parts:
                if len(p) == 1 and p[0].kind == 'splat':
                    d.add((p[0].args[0], 0))
                    vals.append(T('elem', p[0].args[0], 0))
                elif len(p) == 1 and p[0].kind == 'each' and one_item(p[0].args[2].args):
                    d.add((p[0].args[0], p[0].args[1]))
                    vals.append(p[0].args[2].args[0].args[0])
                else:
                    d = None
                    break
            if d is not None and len(d) == 1:
                (dd, lv), = d
                return mk_each(dd, lv, (T('item', T('tup', *vals)),))
            return (T('splat', T('zip', *[self.pure(st, x) for x in v.args])),)
        if k == 'const' and isinstance(v.args[0], str):
            return tuple(T('item', const(ch)) for ch in v.args[0])
        if k == 'cls' and self.prog.is_enum(self.classes[v.args[0]]):
            c = self.classes[v.args[0]]
            return tuple(T('item', T('enum', c.name, m)) for m in c.attrs if not m.startswith('_'))
        key = (v, '#content')
        if key in st.over:
            return st.over[key].args if st.over[key].kind == 'segs' else mk_alt(st.over[key])
        if v in self.members:
            return self.members[v].args[0].args
        return (T('splat', v),)

    def numbered(self, st, sg, off):
        """segments of enumerate over several segments of known lengths"""
        r = []
        for s in sg:
            if s.kind == 'item':
                r.append(T('item', T('tup', off, s.args[0])))
                off = t_add(off, const(1))
                continue
            if s.kind == 'splat':
                dom, build = self.domain(s.args[0])
                lv, x = 0, build(0)
            elif s.kind == 'each' and one_item(s.args[2].args):
                dom, lv, body = s.args
                x = body.args[0].args[0]
            else:
                # how many items came before is not known here
                kinds = set()
                w = unk('position')
                out = map_segs((s,), lambda q: kinds.add(q.kind) or
                               ((T('item', T('tup', w, q.args[0])),) if q.kind == 'item' else (q,)))
                if kinds - {'item'}:
                    return None
                r += out
                off = w
                continue
            r.append(T('each', dom, lv, segs((T('item', T('tup', t_add(off, T('idx', dom, lv)), x)),))))
            off = t_add(off, self.len_of(st, dom)) if off.kind != 'unk' else off
        return tuple(r)

    def seq_field(self, c):
        """field a sequence-protocol class delegates __getitem__ to"""
        if not isinstance(c, ClassInfo):
            return None
        m = self.prog.lookup(c, '__getitem__')
        if m and m[0] == 'method':
            for n in ast.walk(m[1].node):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) \
                        and isinstance(n.value.value, ast.Name) and n.value.value.id == 'self':
                    return n.value.attr
        return None

    def domain(self, S):
        """(dom, element value builder) of a splat domain"""
        if S.kind == 'range' and S.args[0] is ZERO and S.args[1].kind == 'len' and len(S.args) == 2:
            X = S.args[1].args[0]
            return X, lambda lv: T('idx', X, lv)
        if S.kind == 'range' and len(S.args) == 2:
            a, b = S.args
            if a is ZERO:
                return S, lambda lv: T('elem', S, lv)
            X, at = self.domain(T('range', ZERO, t_sub(b, a)))
            return X, lambda lv: t_add(a, at(lv))
        part = stretch(S)
        if part is not None:
            base, lo, n = part
            X, at = self.domain(T('range', ZERO, n))
            return X, lambda lv: t_item(base, t_add(lo, at(lv)))
        if S.kind == 'zip':
            parts = [stretch(x) or (x, ZERO, T('len', x)) for x in S.args]
            ns = [t_sub(p[2], parts[0][2]) for p in parts]
            if len({p[0] for p in parts}) == 1 and all(n.kind == 'const' for n in ns):
                base, _, n = parts[min(range(len(ns)), key=lambda i: ns[i].args[0])]
                X, at = self.domain(T('range', ZERO, n))
                return X, lambda lv: T('tup', *[t_item(base, t_add(p[1], at(lv))) for p in parts])
        if S.kind == 'enumerate':
            X, b = self.domain(S.args[0])
            return X, lambda lv: T('tup', t_add(S.args[1], T('idx', X, lv)), b(lv))
        if S.kind == 'items':
            X = S.args[0]
            return X, lambda lv: T('tup', T('elem', X, lv), t_item(X, T('elem', X, lv)))
        if S.kind == 'values':
            X = S.args[0]
            return X, lambda lv: t_item(X, T('elem', X, lv))
        if S.kind == 'sorted':
            r = sorted_map(S)
            if r is not None:
                return r
        if S.kind == 'zip':
            return S, lambda lv: T('tup', *[t_item(T('elem', S, lv), const(i)) for i in range(len(S.args))])
        return S, lambda lv: T('elem', S, lv)

    # ------------------------------------------------------------ running a body over segments

    def run_over(self, st, sg, body):
        """body(state, value) -> outcomes; result outcomes over the whole iteration ('b' = stopped early)"""
        from .engine import add
        res, cond, cur = {}, TRUE, st
        for s in sg:
            self.tick()
            k = s.kind
            if k == 'item':
                outs = body(cur, s.args[0])
                outs = dict(outs)
                if 'c' in outs:
                    c, q, v = outs.pop('c')
                    add(outs, 'n', (c, q, v))
            elif k == 'alt':
                outs = self.run_alt(cur, s.args[0], body)
            elif k == 'splat':
                dom, build = self.domain(s.args[0])
                outs = self.generic(cur, dom, lambda q, lv: {**body(q, build(lv))}, build)
            elif k == 'each':
                dom, lv0, inner = s.args
                outs = self.generic(cur, dom, lambda q, lv: self.run_over(q, self.relevel(inner, dom, lv0, lv, q).args, body),
                                    None)
            else:
                cur.emit(unk('iterating ' + k))
                outs = {'n': (TRUE, cur, NONE)}
            for kk in ('r', 'b', 'x'):
                if kk in outs:
                    o = outs[kk]
                    add(res, kk, (land(cond, o[0]), o[1], o[2]))
            if 'n' not in outs:
                cur = None
                break
            cond = land(cond, outs['n'][0])
            cur = outs['n'][1]
        if cur is not None and cond is not FALSE:
            res['n'] = (cond, cur, NONE)
        return res

    def relevel(self, inner, dom, lv0, lv, st):
        if lv0 == lv:
            return inner
        m = {T('elem', dom, lv0): T('elem', dom, lv), T('idx', dom, lv0): T('idx', dom, lv)}
        if any(x.kind == 'ref' for x in subterms(inner)):
            inner = T('segs', *[T('item', self.pure(st, s.args[0])) if s.kind == 'item' else s for s in inner.args])
        return subst(inner, m)

    def run_alt(self, st, v, body):
        if v.kind == 'segs':
            return self.run_over(st, v.args, body)
        c = v.args[0]
        return self.branch(c, st, lambda q: self.run_alt(q, v.args[1], body), lambda q: self.run_alt(q, v.args[2], body))

    # ------------------------------------------------------------ generic iteration

    def slots(self, a, b, known):
        """slots of state a (before) that differ in b"""
        out = []
        for fid, fr in a.frames.items():
            fb = b.frames.get(fid)
            if fb is None or fb is fr:
                continue
            for n, v in fr.items():
                if n in fb and fb[n] is not v:
                    out.append(('v', fid, n))
            for n in fb:
                if n not in fr:
                    out.append(('v', fid, n))
        for o, ob in a.heap.items():
            x = b.heap.get(o)
            if x is None or x is ob:
                continue
            for n in set(ob.fields) | set(x.fields):
                if ob.fields.get(n) is not x.fields.get(n):
                    out.append(('f', o, n))
            if ob.content != x.content:
                out.append(('c', o))
        for k, v in b.over.items():
            if a.over.get(k) is not v:
                out.append(('o',) + k)
        return out

    def get_slot(self, st, s):
        if s[0] == 'v':
            return st.frames.get(s[1], {}).get(s[2], UNBOUND)
        if s[0] == 'f':
            return st.heap[s[1]].fields.get(s[2], UNBOUND)
        if s[0] == 'c':
            return st.heap[s[1]].content
        k = (s[1], s[2])
        return st.over.get(k, over_default(k))

    def set_slot(self, st, s, v):
        if s[0] == 'v':
            if s[1] in st.frames:
                st.frames[s[1]][s[2]] = v
        elif s[0] == 'f':
            st.heap[s[1]] = st.heap[s[1]].with_field(s[2], v)
        elif s[0] == 'c':
            st.heap[s[1]] = st.heap[s[1]].with_content(v)
        else:
            st.over[(s[1], s[2])] = v

    def generic(self, st, dom, body, build):
        from .engine import add
        lv = sum(1 for d in st.loops if d is dom)
        el, ix = T('elem', dom, lv), T('idx', dom, lv)
        changed, closed, phis = [], {}, {}
        inits = {}
        pointwise = set()
        ptypes, dead = {}, set()
        rounds = 0
        while True:
            rounds += 1
            s = st.fork()
            s.loops = st.loops + (dom,)
            s.trace = ()
            s.pc = st.pc
            for i, sl in enumerate(changed):
                if sl in pointwise:
                    continue
                if sl in closed:
                    self.set_slot(s, sl, closed[sl])
                    continue
                init = inits[sl]
                if sl[0] == 'c' or (sl[0] == 'o' and sl[2] == '#content'):
                    it = T('list', segs(init)) if sl[0] == 'c' else T('list', init)
                    h = T('hole', dom, lv, self.pure(st, it), i)
                    phis[sl] = h
                    self.set_slot(s, sl, (h,) if sl[0] == 'c' else segs((h,)))
                else:
                    p = T('phi', dom, lv, self.pure(st, init), i)
                    if sl in ptypes and p not in self.types.sym and not self.types.of(p):
                        self.types.sym[p] = ptypes[sl]
                    phis[sl] = p
                    self.set_slot(s, sl, p)
            before = s.fork()
            before.trace = ()
            outs = dict(body(s, lv))
            if 'c' in outs:
                c, q, v = outs.pop('c')
                add(outs, 'n', (c, q, v))
            new, live = [], set()
            own = {el, ix} | {x for x in phis.values()}
            for k, o in outs.items():
                for sl in self.slots(before, o[1], changed):
                    live.add(sl)
                    if sl[0] == 'o' and any(x in own for x in subterms(sl[1])):
                        # state of a value that exists only within one iteration
                        continue
                    if sl not in changed and sl not in new:
                        new.append(sl)
            stale = [sl for sl in changed if sl[0] == 'o' and sl not in live and sl not in dead]
            if stale and not new and rounds < 7:
                for sl in stale:
                    changed.remove(sl)
                    phis.pop(sl, None)
                    dead.add(sl)
                continue
            if new and rounds < 8:
                for sl in new:
                    if 'n' in outs and sl[0] in 'vf':
                        nv = self.get_slot(outs['n'][1], sl)
                        ty = self.types.of(nv) if isinstance(nv, Term) and nv.kind != 'ref' else None
                        if ty:
                            ptypes[sl] = ty
                    inits[sl] = self.get_slot(st, sl) if not (sl[0] == 'v' and sl[2] not in st.frames.get(sl[1], {})) \
                        else UNBOUND
                    if sl[0] in 'fc' and st.heap[sl[1]].owner == (dom, lv):
                        pointwise.add(sl)
                    changed.append(sl)
                continue
            # closed forms of counters
            again = False
            if 'n' in outs and rounds < 8:
                for sl in changed:
                    if sl in closed or sl in pointwise or sl[0] == 'c' or (sl[0] == 'o' and sl[2] == '#content'):
                        continue
                    nv, p = self.get_slot(outs['n'][1], sl), phis[sl]
                    if not isinstance(nv, Term) or inits[sl] is UNBOUND:
                        continue
                    if nv.kind == 'lin' and numeric(inits[sl]):
                        co, k = lin_parts(nv)
                        if list(co) == [p] and co[p] == 1:
                            closed[sl] = t_add(inits[sl], t_mul(const(k), ix))
                            again = True
            if again:
                continue
            break
        stop = lor(*[outs[k][0] for k in ('b', 'r', 'x') if k in outs])
        for sl in changed:
            if sl in closed:
                stop = subst(stop, {phis[sl]: closed[sl]}) if sl in phis else stop
        M = self.close_phis(outs, changed, closed, phis, inits, pointwise, dom, lv)
        self.prevs = M
        if M:
            stop = subst(stop, M)
        ex = self.exit_state(st, dom, lv, None, stop, outs, changed, closed, phis, inits, pointwise)
        if stop is FALSE:
            return {'n': (TRUE, ex, NONE)}
        hit = T('any', dom, lv, stop) if 'n' in outs else T('nonempty', dom)
        hit = self.norm_any(dom, lv, stop) if 'n' in outs else hit
        if dom.kind == 'while':
            hit = TRUE          # what a loop gives that never ends is of no concern
        fe, fi = T('first', dom, lv, stop), T('firstidx', dom, lv, stop)
        if stop is TRUE or 'n' not in outs:
            fe, fi = t_item(dom, ZERO), ZERO
        if 'n' in outs:
            D = T('until', dom, lv, stop)
            m = {el: T('elem', D, lv), ix: T('idx', D, lv)}
            s2 = self.exit_state(st, D, lv, m, stop, outs, changed, closed, phis, inits, pointwise)
        else:
            s2 = st.fork()
        s2.loops = st.loops
        sel = {el: fe, ix: fi}
        known = subst(stop, sel)
        self.assume_pc(s2, known) if known is not TRUE else None
        outs2 = dict(self.body_at(body, s2, lv, sel, dom))
        outs2.pop('n', None)
        outs2.pop('c', None)
        res = {}
        ks = [k for k in ('b', 'r', 'x') if k in outs2]
        left = TRUE
        for j, k in enumerate(ks):
            c, q, v = outs2[k]
            c = left if j == len(ks) - 1 else land(left, restrict(c, known))
            left = land(left, neg(c))
            q.pc = st.pc
            q.loops = st.loops
            add(res, k, (land(hit, c), q, v))
        if hit is not TRUE:
            add(res, 'n', (neg(hit), ex, NONE))
        return res

    def close_phis(self, outs, changed, closed, phis, inits, pointwise, dom, lv):
        """loop-carried values, written as the recurrence that defines them (so that no two loops share a name)"""
        if 'n' not in outs:
            return {}
        q = outs['n'][1]
        step, init = {}, {}
        for sl in changed:
            if sl in closed or sl in pointwise or sl not in phis:
                continue
            p = phis[sl]
            nv = self.get_slot(q, sl)
            if sl[0] == 'c':
                nv = T('list', segs(nv))
            elif sl[0] == 'o' and sl[2] == '#content':
                nv = T('list', nv)
            if nv is UNBOUND:
                nv = p
            step[p], init[p] = self.pure(q, nv), p.args[2]
        M = {}
        for p in step:
            order, todo = [], [p]
            while todo:
                x = todo.pop()
                if x in order:
                    continue
                order.append(x)
                todo += [y for y in subterms(step[x]) if y in step and y not in order][::-1]
            loc = {x: T('acc', dom, lv, i) if x.kind == 'phi' else T('segs', T('acc', dom, lv, i))
                   for i, x in enumerate(order)}
            loc = {x: T('acc', dom, lv, i) for i, x in enumerate(order)}
            sy = []
            for x in order:
                sy += [init[x], subst(step[x], loc)]
            r = T('prev', T('idx', dom, lv), T('sys', *sy))
            M[p] = r
            ty = self.types.of(p)
            if ty and r not in self.types.sym:
                self.types.sym[r] = ty
        return M

    def exit_state(self, st, D, lv, m, stop, outs, changed, closed, phis, inits, pointwise):
        """state after running over all of D without stopping"""
        ix = T('idx', D, lv) if m is None else m[T('idx', D.args[0], lv)]
        ex = st.fork()
        ex.pend = []
        ex.loops = st.loops
        ex.pc = st.pc
        if 'n' not in outs:
            return ex
        q = outs['n'][1]
        care = neg(stop)
        memo = {}
        M = self.prevs
        if M and m:
            M = {k: subst(v, m) for k, v in M.items()}
        pmemo = {}
        seal = (lambda t: subst(t, M, pmemo)) if M else (lambda t: t)
        fix = lambda t: t
        if m:
            fix = lambda t: subst(restrict(t, care), m, memo)
        elif stop is not FALSE:
            fix = lambda t: restrict(t, care)
        for o, ob in q.heap.items():
            if o not in st.heap:
                ob2 = ob if ob.owner is not None else ob.with_owner((D, lv))
                if m or stop is not FALSE:
                    ob2 = Obj(ob2.kind, ob2.cls, {k: fix(v) for k, v in ob2.fields.items()},
                              flat(fix(segs(ob2.content))), ob2.owner, ob2.etype)
                if M:
                    ob2 = Obj(ob2.kind, ob2.cls, {k: seal(v) for k, v in ob2.fields.items()},
                              flat(seal(segs(ob2.content))), ob2.owner, ob2.etype)
                ex.heap[o] = ob2
        for fid, fr in q.frames.items():
            if fid not in ex.frames:
                ex.frames[fid] = dict(fr)
        for sl in changed:
            nv = self.get_slot(q, sl)
            if sl in pointwise:
                self.set_slot(ex, sl, seal(nv) if isinstance(nv, Term) else flat(seal(segs(nv))))
            elif sl[0] == 'c' or (sl[0] == 'o' and sl[2] == '#content'):
                cont = nv if sl[0] == 'c' else (nv.args if nv.kind == 'segs' else mk_alt(nv))
                init = inits[sl] if sl[0] == 'c' else inits[sl].args if inits[sl].kind == 'segs' else mk_alt(inits[sl])
                h = phis[sl]
                cont = flat(fix(segs(cont)))
                r = None
                if cont and cont[0] is h and not any(x is h for c in cont[1:] for x in subterms(c)):
                    r = cat_segs(init, mk_each(D, lv, cont[1:]))
                elif cont and cont[0].kind == 'alt':
                    v2 = mapleaves(cont[0].args[0], lambda l: segs(l.args[1:]) if l.args and l.args[0] is h
                                   else T('bad'))
                    if not contains(v2, T('bad')) and not contains(v2, h):
                        r = cat_segs(init, mk_each(D, lv, mk_alt(v2) + cont[1:]))
                elif cont and cont[-1] is h and not any(x is h for c in cont[:-1] for x in subterms(c)):
                    r = (T('revsplat', T('list', segs(mk_each(D, lv, cont[:-1])))),) + tuple(init)
                if r is None:
                    r = (T('foldc', D, lv, self.prevs[h].args[1] if not m else M[h].args[1]),)
                else:
                    r = flat(seal(segs(r)))
                if sl[0] == 'c':
                    r = filtered(r)
                self.set_slot(ex, sl, r if sl[0] == 'c' else segs(r))
            else:
                if sl[0] == 'v' and sl[1] not in ex.frames:
                    continue
                p = phis.get(sl)
                if sl in closed:
                    ix0 = T('idx', D.args[0], lv) if m else ix
                    k = lin_parts(lin_sub(closed[sl], inits[sl]))[0].get(ix0, 0)
                    self.set_slot(ex, sl, t_add(inits[sl], t_mul(const(k), self.len_of(st, D))))
                else:
                    self.set_slot(ex, sl, seal(self.exit_value(D, lv, fix(nv), p, inits[sl],
                                                               M[p].args[1] if p in M else None)))
        tr = flat(seal(fix(segs(q.trace))))
        ex.trace = cat_segs(st.trace, mk_each(D, lv, tr))
        return ex

    def body_at(self, body, st, lv, sel, dom):
        """the body executed for one particular element: run it on the generic element, then instantiate"""
        base = st.fork()
        s = st.fork()
        s.trace = ()
        s.loops = st.loops + (dom,)
        inv = {v: k for k, v in sel.items()}
        s.pc = subst(s.pc, inv)
        outs = body(s, lv)
        res = {}
        memo = {}
        f = lambda t: subst(t, sel, memo)
        for k, (c, q, v) in outs.items():
            q2 = base.fork()
            q2.frames = {fid: {n: (x if base.frames.get(fid, {}).get(n) is x else f(x)) for n, x in fr.items()}
                         for fid, fr in q.frames.items()}
            for o, ob in q.heap.items():
                if base.heap.get(o) is not ob:
                    q2.heap[o] = Obj(ob.kind, ob.cls, {n: f(x) for n, x in ob.fields.items()},
                                     flat(f(segs(ob.content))), ob.owner, ob.etype)
            q2.over = {kk: (x if base.over.get(kk) is x else f(x)) for kk, x in q.over.items()}
            q2.trace = cat_segs(base.trace, flat(f(segs(q.trace))))
            res[k] = (f(c), q2, f(v))
        return res

    def norm_any(self, dom, lv, c):
        return norm_any(dom, lv, c)

    def exit_value(self, D, lv, nv, p, init, sy=None):
        """value after the loop of a variable that is nv at the end of the body when it is p at its start"""
        if nv is p:
            return init
        if nv is UNBOUND:
            return init
        has = contains(nv, p)
        el, ix = T('elem', D, lv), T('idx', D, lv)
        if not has:
            if not contains(nv, el) and not contains(nv, ix):
                return ite(T('nonempty', D), nv, init)
            le = t_item(D, const(-1))
            v = subst(nv, {el: le, ix: t_add(T('len', D), const(-1))})
            return ite(T('nonempty', D), v, init)
        if init is UNBOUND:
            return T('fold', D, lv, sy if sy is not None else nv)
        guards_clean = not any(contains(a, p) for a in _top_atoms(nv))
        if guards_clean:
            lvs = leaves(nv)
            # boolean accumulation
            if all(l is p or l is TRUE for l in lvs):
                c = mapleaves2(nv, lambda l: FALSE if l is p else TRUE)
                return ite(truth(init), TRUE, self.norm_any(D, lv, c)) if is_cond(init) or init.kind == 'const' else \
                    T('fold', D, lv, sy)
            if all(l is p or l is FALSE for l in lvs):
                c = mapleaves2(nv, lambda l: FALSE if l is p else TRUE)
                return ite(self.norm_any(D, lv, c), FALSE, init)
            # sums
            if numeric(init) or any(l.kind == 'lin' for l in lvs):
                d = mapleaves2(nv, lambda l: self._delta(l, p))
                if d is not None and not contains(d, T('nodelta')):
                    return t_add(init, self.t_sum(D, lv, d))
            # last element satisfying a guard
            if all(l is p or not contains(l, p) for l in lvs):
                c = mapleaves2(nv, lambda l: FALSE if l is p else TRUE)
                e = mapleaves2(nv, lambda l: l)
                return T('lastof', D, lv, c, restrict(e, c), init)
            # string building
            if all(l is p or (l.kind == 'strcat' and l.args[0] is p and not any(contains(x, p) for x in l.args[1:]))
                   for l in lvs):
                e = mapleaves2(nv, lambda l: const('') if l is p else strcat(list(l.args[1:])))
                return strcat([init, t_join(const(''), T('list', segs(mk_each(D, lv, (T('item', e),)))))])
        return T('fold', D, lv, sy)

    def _delta(self, l, p):
        if l is p:
            return ZERO
        co, k = lin_parts(l)
        if co.get(p) == 1:
            d = lin_sub(l, p)
            if not contains(d, p):
                return d
        return T('nodelta')

    def t_sum(self, D, lv, d):
        if d is ZERO:
            return ZERO
        if d.kind == 'const':
            return t_mul(d, T('len', D))
        if d.kind == 'lin':
            co, k = lin_parts(d)
            r = t_mul(const(k), T('len', D)) if k else ZERO
            for t, c in co.items():
                r = t_add(r, t_mul(const(c), self.t_sum(D, lv, t)))
            return r
        ks = {0 if l is ZERO else l.args[1] if l.kind == 'lin' and l.args[0] == 0 and len(l.args) == 3 else None for l in leaves(d)} - {0}
        if len(ks) == 1 and None not in ks:
            k, = ks
            return t_mul(const(k), self.t_sum(D, lv, mapleaves(d, lambda l: l if l is ZERO else l.args[2])))
        return T('sum', T('list', segs(mk_each(D, lv, (T('item', d),)))))

    # ------------------------------------------------------------ statements

    def s_For(self, s, st, ctx):
        from .engine import add
        it = self.ev(s.iter, st, ctx)
        sg = self.iter_segs(st, it)
        outs, n = self.finish(st)

        def body(q, v):
            self.assign(s.target, v, q, ctx)
            return self.block(s.body, q, ctx)
        o2 = self.run_over(st, sg, body)
        return self.after_loop(o2, s, ctx, outs, n)

    def after_loop(self, o2, s, ctx, outs, n):
        from .engine import add
        if s.orelse and 'n' in o2:
            c, q, _ = o2.pop('n')
            for k, o in self.block(s.orelse, q, ctx).items():
                add(o2, k, (land(c, o[0]), o[1], o[2]))
        if 'b' in o2:
            c, q, v = o2.pop('b')
            add(o2, 'n', (c, q, v))
        if not outs:
            return o2
        for k, o in o2.items():
            add(outs, k, (land(n, o[0]), o[1], o[2]))
        return outs

    def s_While(self, s, st, ctx):
        d = self.index_loop(s, st, ctx)
        if d is not None:
            var, lo, hi, inner = d

            def body(q, v):
                self.setname(var, v, q, ctx)
                outs = self.block(inner, q, ctx)
                return outs
            rng = T('range', lo, hi)
            sg = self.iter_segs(st, rng)
            o2 = self.run_over(st, sg, body)
            for k in ('n',):
                if k in o2:
                    q = o2[k][1]
                    q.frames[ctx.fid][var] = ite(t_lt(lo, hi), hi, lo) if not (is_const(lo) and hi.kind == 'len' and lo is ZERO) else hi
            return self.after_loop(o2, s, ctx, {}, TRUE)
        dom = T('while')
        from .engine import add
        u = self.unrolled(s, st, ctx)
        if u is not None:
            return u

        def wbody(q, lv):
            c = truth(self.cond(s.test, q, ctx))
            return self.branch(c, q, lambda w: self.block(s.body, w, ctx), lambda w: {'b': (TRUE, w, NONE)})
        outs = self.generic(st, dom, wbody, None)
        if 'b' in outs:
            c, q, v = outs.pop('b')
            outs.pop('n', None)
            c = neg(lor(*[o[0] for k, o in outs.items()])) if outs else TRUE
            add(outs, 'n', (c, q, v))
        return outs

    def unrolled(self, s, st, ctx, limit=3):
        """the outcomes of a loop that ends for certain within a few iterations"""
        from .engine import add
        if s.orelse or self.unrolling > 1 or sum(isinstance(n, ast.stmt) for n in ast.walk(s)) > 25:
            return None
        self.unrolling += 1
        try:
            res, cond, cur = {}, TRUE, st.fork()
            cur.pc = st.pc
            done = {}
            for _ in range(limit + 1):
                c = truth(self.cond(s.test, cur, ctx))
                outs, n = self.finish(cur)
                for k, o in outs.items():
                    add(res, k, (land(cond, o[0]), o[1], o[2]))
                cond = land(cond, n)
                outs = self.branch(c, cur, lambda w: self.block(s.body, w, ctx), lambda w: {'b': (TRUE, w, NONE)})
                nxt = {}
                for k, o in outs.items():
                    if k in ('n', 'c'):
                        add(nxt, 'n', o)
                    elif k == 'b':
                        add(done, 'n', (land(cond, o[0]), o[1], NONE))
                    else:
                        add(res, k, (land(cond, o[0]), o[1], o[2]))
                if 'n' not in nxt:
                    break
                cond, cur = land(cond, nxt['n'][0]), nxt['n'][1]
                if cond is FALSE:
                    break
            else:
                return None
            if 'n' in done:
                res['n'] = done['n']
            return res
        finally:
            self.unrolling -= 1

    def index_loop(self, s, st, ctx):
        """while i < E: ...; i += 1   ->   (i, lo, hi, body without the increment)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1) or s.orelse:
            return None
        l, op, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            l, r = r, l
            op = ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
        if not isinstance(op, (ast.Lt, ast.LtE, ast.NotEq)) or not isinstance(l, ast.Name):
            return None
        var = l.id
        if not s.body:
            return None
        pos = None
        for i, x in enumerate(s.body):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == var:
                if not (isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1):
                    return None
                if pos is not None:
                    return None
                pos = i
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) \
                    and x.targets[0].id == var:
                v = x.value
                if not (isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name)
                        and v.left.id == var and isinstance(v.right, ast.Constant) and v.right.value == 1):
                    return None
                if pos is not None:
                    return None
                pos = i
        if pos is None:
            return None
        rest = s.body[:pos] + s.body[pos + 1:]
        for x in rest:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and n.id == var and isinstance(n.ctx, ast.Store):
                    return None
        for x in s.body[pos + 1:]:
            if any(isinstance(n, ast.Name) and n.id == var for n in ast.walk(x)):
                return None
        for x in s.body[:pos]:
            if any(isinstance(n, ast.Continue) for n in _own(x)):
                return None
        # the bound must not be changed by the loop
        names = {n.id for n in ast.walk(r) if isinstance(n, ast.Name)}
        for x in s.body:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, (ast.Store, ast.Del)):
                    return None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        n.func.attr in ('append', 'pop', 'remove', 'insert', 'extend', 'clear', 'add', 'discard') and \
                        {m.id for m in ast.walk(n.func.value) if isinstance(m, ast.Name)} & names:
                    return None
                if isinstance(n, (ast.Delete,)) and {m.id for m in ast.walk(n) if isinstance(m, ast.Name)} & names:
                    return None
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                        any(isinstance(m, ast.Attribute) and m.attr == n.attr for m in ast.walk(r)):
                    return None
        lo = self.lookup(var, st, ctx)
        if not numeric(lo):
            return None
        hi = self.ev(r, st, ctx)
        if isinstance(op, ast.LtE):
            hi = t_add(hi, ONE)
        return var, lo, hi, rest

    # ------------------------------------------------------------ comprehensions

    def comp(self, gens, st, ctx, leaf):
        from .engine import Ctx, add
        fid = self.fresh()
        st.frames[fid] = {}
        c2 = Ctx(fid, (fid,) + tuple(ctx.scopes), ctx.module, ctx.cls, ctx.func, ctx.selfv)

        def go(i, q):
            if i == len(gens):
                leaf(q, c2)
                outs, n = self.finish(q)
                if n is not FALSE:
                    outs['n'] = (n, q, NONE)
                return outs
            g = gens[i]
            sg = self.iter_segs(q, self.ev(g.iter, q, c2 if i else ctx))
            outs, n = self.finish(q)

            def guarded(w, j):
                if j == len(g.ifs):
                    return go(i + 1, w)
                c = truth(self.cond(g.ifs[j], w, c2))
                return self.branch(c, w, lambda u: guarded(u, j + 1), lambda u: {'n': (TRUE, u, NONE)})

            def body(w, v):
                self.assign(g.target, v, w, c2)
                return guarded(w, 0)
            o2 = self.run_over(q, sg, body)
            for k, o in o2.items():
                add(outs, k, (land(n, o[0]), o[1], o[2]))
            return outs
        outs = go(0, st)
        if 'x' in outs:
            pass
        pend = st.pend
        if 'n' in outs:
            q = outs['n'][1]
            if q is not st:
                q.pend = []
                st.become(q)
        if 'x' in outs:
            st.pend = pend + [outs['x']]
        if fid not in self.captured:
            st.frames.pop(fid, None)

    def e_ListComp(self, e, st, ctx, kind='list'):
        lst = self.new_list(st, kind=kind)

        def leaf(q, c2):
            v = self.ev(e.elt, q, c2)
            self.seq_add(q, lst, v)
        self.comp(e.generators, st, ctx, leaf)
        return lst

    def e_GeneratorExp(self, e, st, ctx):
        return self.e_ListComp(e, st, ctx)

    def e_SetComp(self, e, st, ctx):
        return self.e_ListComp(e, st, ctx, 'set')

    def e_DictComp(self, e, st, ctx):
        d = self.alloc(st, Obj('dict'))

        def leaf(q, c2):
            k = self.ev(e.key, q, c2)
            v = self.ev(e.value, q, c2)
            self.set_item(q, d, k, v, e)
        self.comp(e.generators, st, ctx, leaf)
        return d

    def seq_add(self, st, lst, v):
        o = st.heap[lst.args[0]]
        it = T('item', v)
        if o.kind == 'set' and it in o.content:
            return
        st.heap[lst.args[0]] = o.with_content(cat_segs(o.content, (it,)))


def filtered(r):
    """all entries of X, then those satisfying c deleted again  ->  the entries of X not satisfying c"""
    if len(r) != 2 or r[0].kind != 'splat' or r[1].kind != 'each' or r[1].args[0] is not r[0].args[0]:
        return r
    X, lv, body = r[1].args
    el = T('elem', X, lv)
    b = body.args
    if len(b) != 1:
        return r
    put = T('put', el, t_item(X, el))
    v = b[0].args[0] if b[0].kind == 'alt' else segs(b)
    ok = all(l.kind == 'segs' and (not l.args or l.args == (T('del', el),)) for l in leaves(v))
    if not ok:
        return r
    return mk_each(X, lv, mk_alt(mapleaves(v, lambda l: segs(()) if l.args else segs((put,)))))


def plain(c):
    for s in c:
        if s.kind == 'each':
            if not plain(s.args[2].args):
                return False
        elif s.kind == 'alt':
            if not all(l.kind == 'segs' and plain(l.args) for l in leaves(s.args[0])):
                return False
        elif s.kind not in ('item', 'splat', 'put'):
            return False
    return True


def flat(t):
    if t.kind != 'segs':
        return mk_alt(t)
    return rebuild('segs', t.args).args


def one_item(t):
    return len(t) == 1 and t[0].kind == 'item'


def map_segs(content, f):
    out = []
    for s in content:
        if s.kind == 'each':
            out += list(mk_each(s.args[0], s.args[1], map_segs(s.args[2].args, f)))
        elif s.kind == 'alt':
            out += list(mk_alt(mapleaves(s.args[0], lambda l: segs(map_segs(l.args, f)))))
        else:
            out += list(f(s))
    return tuple(out)


def mapleaves2(v, f, memo=None):
    memo = {} if memo is None else memo
    if v in memo:
        return memo[v]
    if v.kind == 'ite':
        r = ite(v.args[0], mapleaves2(v.args[1], f, memo), mapleaves2(v.args[2], f, memo))
    else:
        r = f(v)
    memo[v] = r
    return r


def _top_atoms(v):
    out, seen = set(), set()
    st = [v]
    while st:
        x = st.pop()
        if x.kind == 'ite' and x not in seen:
            seen.add(x)
            out.add(x.args[0])
            st += [x.args[1], x.args[2]]
    return out


def restrict(t, care, depth=0):
    """simplify the top decisions of t knowing that care holds"""
    if care is TRUE or care is FALSE or depth > 40:
        return t
    if care.kind != 'ite':
        return assume_deep(t, care, True)
    a, h, l = care.args
    if h is FALSE:
        return restrict(assume_deep(t, a, False), l, depth + 1)
    if l is FALSE:
        return restrict(assume_deep(t, a, True), h, depth + 1)
    return t


def assume_deep(t, atom, val, memo=None):
    """like assume, but also inside segment lists and items"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t.kind in ('ite',) or t.kind in BOOLK:
        r = assume(t, atom, val)
        if r.kind == 'ite' and not is_cond(r):
            r = ite(r.args[0], assume_deep(r.args[1], atom, val, memo), assume_deep(r.args[2], atom, val, memo))
    elif t.kind in ('alt',):
        v = assume_deep(t.args[0], atom, val, memo)
        r = T('alt', v) if v.kind != 'segs' else v
    elif t.kind in ('segs', 'item', 'tup', 'put', 'obj', 'msg', 'list', 'do'):
        na = []
        for a in t.args:
            b = assume_deep(a, atom, val, memo) if isinstance(a, Term) else a
            if isinstance(b, Term) and b.kind == 'segs' and isinstance(a, Term) and a.kind == 'alt':
                na += b.args
            else:
                na.append(b)
        r = T(t.kind, *na)
    else:
        r = t
    memo[t] = r
    return r


def _own(x):
    """nodes of x not inside nested loops or functions"""
    yield x
    for c in ast.iter_child_nodes(x):
        if not isinstance(c, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            yield from _own(c)
