"""Expression evaluation, attribute / item access, calls, reification."""
import ast
import re
from .terms import *
from .state import *
from .program import ClassInfo

CMP_NEG = {'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}


SET_OPS = {k: ast.parse(v, mode='eval').body for k, v in {
    'Sub': '{x for x in a if x not in b}', 'BitAnd': '{x for x in a if x in b}',
    'BitOr': '{x for y in (a, b) for x in y}'}.items()}


class Exprs:
    def ev(self, e, st, ctx):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return unk('expression ' + type(e).__name__)
        v = m(e, st, ctx)
        return self.instance.get(v, v) if self.instance else v

    instance = {}           # sequences taken to have a few elements
    members = {}            # the same for objects that behave as sequences

    def cond(self, e, st, ctx):
        """truth of an expression as a condition"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            r = self.cond(e.values[0], st, ctx)
            for x in e.values[1:]:
                if (isand and r is FALSE) or (not isand and r is TRUE):
                    return r
                g = r if isand else neg(r)
                v = self.guarded(g, st, lambda q: self.cond(x, q, ctx))
                r = land(r, v) if isand else lor(r, v)
            return r
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return neg(self.cond(e.operand, st, ctx))
        return self.truthv(st, self.ev(e, st, ctx))

    def guarded(self, c, st, f):
        """evaluate f under condition c (its effects happen only then)"""
        if c is TRUE:
            return f(st)
        a = st.fork()
        self.assume_pc(a, c)
        v = f(a)
        b = st
        if a.trace is not b.trace or a.heap != b.heap or a.over != b.over or a.frames != b.frames or a.pend:
            j = join(c, a, st.fork())
            j.pc = st.pc
            st.become(j)
        return v

    def truthv(self, st, v):
        if v.kind == 'ite' and not is_cond(v):
            return ite(v.args[0], self.truthv(st, v.args[1]), self.truthv(st, v.args[2]))
        if v.kind == 'ref':
            o = st.heap[v.args[0]]
            if o.kind in ('list', 'dict', 'set'):
                return self.nonempty(st, v)
            if o.kind == 'inst':
                f = self.seq_field(o.cls)
                if f and f in o.fields:
                    return self.truthv(st, o.fields[f])
            return TRUE
        if v.kind in ('list', 'dict', 'set'):
            return self.nonempty(st, v)
        if v.kind == 'bottom':
            return T('truthy', v)
        return truth(v)

    def e_Constant(self, e, st, ctx):
        if e.value is Ellipsis:
            return T('bi', 'Ellipsis')
        return const(e.value)

    def e_Name(self, e, st, ctx):
        return self.lookup(e.id, st, ctx)

    def e_NamedExpr(self, e, st, ctx):
        v = self.ev(e.value, st, ctx)
        self.setname(e.target.id, v, st, ctx)
        return v

    def e_Yield(self, e, st, ctx):
        v = self.ev(e.value, st, ctx) if e.value else NONE
        y = self.lookup('#yield', st, ctx)
        if y.kind == 'ref':
            self.seq_add(st, y, v)
        return NONE

    def e_Tuple(self, e, st, ctx):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                sg = self.iter_segs(st, self.ev(x.value, st, ctx))
                if not all(s.kind == 'item' for s in sg):
                    return self.e_List(e, st, ctx)
                out += [s.args[0] for s in sg]
            else:
                out.append(self.ev(x, st, ctx))
        return T('tup', *out)

    def e_List(self, e, st, ctx, kind='list'):
        c = ()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                c = cat_segs(c, self.iter_segs(st, self.ev(x.value, st, ctx)))
            else:
                c = c + (T('item', self.ev(x, st, ctx)),)
        return self.new_list(st, c, kind)

    def e_Set(self, e, st, ctx):
        return self.e_List(e, st, ctx, 'set')

    def e_Dict(self, e, st, ctx):
        d = self.alloc(st, Obj('dict'))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.call_method(st, d, 'update', [self.ev(v, st, ctx)], {}, e)
            else:
                kk = self.ev(k, st, ctx)
                self.set_item(st, d, kk, self.ev(v, st, ctx), e)
        return d

    def e_Lambda(self, e, st, ctx):
        return self.closure(e, st, ctx)

    def e_IfExp(self, e, st, ctx):
        c = self.decide(self.cond(e.test, st, ctx), st)
        return self.choose(c, st, lambda q: self.ev(e.body, q, ctx), lambda q: self.ev(e.orelse, q, ctx))

    def choose(self, c, st, f, g):
        c = self.decide(c, st)
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        a, b = st.fork(), st.fork()
        self.assume_pc(a, c)
        self.assume_pc(b, neg(c))
        va, vb = f(a), g(b)
        j = join(c, a, b)
        j.pc = st.pc
        st.become(j)
        return vjoin(c, va, vb)

    def over_cases(self, st, v, f):
        """apply f(state, leaf) to every case of a conditional value"""
        if v.kind == 'ite' and not is_cond(v):
            return self.choose(v.args[0], st, lambda q: self.over_cases(q, v.args[1], f),
                               lambda q: self.over_cases(q, v.args[2], f))
        return f(st, v)

    def e_BoolOp(self, e, st, ctx):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], st, ctx)
        for x in e.values[1:]:
            c = self.truthv(st, v)
            if isand:
                v2 = self.guarded(c, st, lambda q: self.ev(x, q, ctx))
                v = v2 if c is TRUE else v if c is FALSE else land(c, v2) if is_cond(v) and is_cond(v2) else ite(c, v2, v)
            else:
                v2 = self.guarded(neg(c), st, lambda q: self.ev(x, q, ctx))
                v = v if c is TRUE else v2 if c is FALSE else lor(c, v2) if is_cond(v) and is_cond(v2) else ite(c, v, v2)
        return v

    def e_UnaryOp(self, e, st, ctx):
        if isinstance(e.op, ast.Not):
            return neg(self.cond(e.operand, st, ctx))
        v = self.ev(e.operand, st, ctx)
        if isinstance(e.op, ast.USub):
            if v.kind == 'const' and isinstance(v.args[0], (int, float)):
                return const(-v.args[0])
            return t_mul(const(-1), v)
        return T('un', type(e.op).__name__, v)

    def e_BinOp(self, e, st, ctx):
        a = self.ev(e.left, st, ctx)
        b = self.ev(e.right, st, ctx)
        return self.binop(type(e.op).__name__, a, b, st)

    def repeated(self, st, v, n):
        """a list of constants taken n times"""
        sg = self.iter_segs(st, v)
        if not sg or any(s.kind != 'item' or self.pure(st, s.args[0]).kind not in ('const', 'enum') for s in sg):
            return None
        if n.kind == 'const':
            return self.new_list(st, tuple(sg) * max(n.args[0], 0)) \
                if isinstance(n.args[0], int) and len(sg) * n.args[0] <= 40 else None
        out = self.new_list(st)

        def body(q, _):
            for s in sg:
                self.seq_add(q, out, s.args[0])
            return self.simple(q)
        self.loop_expr(st, (T('splat', T('range', ZERO, n)),), body)
        return out

    def binop(self, op, a, b, st):
        pa, pb = self.pure(st, a), self.pure(st, b)
        if op == 'Add':
            la, lb = self.listish(st, a), self.listish(st, b)
            if la or lb:
                return self.new_list(st, cat_segs(self.iter_segs(st, a), self.iter_segs(st, b)))
            if pa.kind == 'tup' and pb.kind == 'tup':
                return T('tup', *(pa.args + pb.args))
            return t_add(pa, pb)
        if op == 'Sub':
            if self.setish(st, a) or self.setish(st, b):
                r = self.set_op(st, op, a, b)
                return T('setdiff', pa, pb) if r is None else r
            return t_sub(pa, pb)
        if op == 'Mult':
            if self.listish(st, a) or self.listish(st, b):
                r = self.repeated(st, a, pb) if self.listish(st, a) else self.repeated(st, b, pa)
                return T('repeat', pa, pb) if r is None else r
            return t_mul(pa, pb)
        if op in ('BitOr', 'BitAnd', 'BitXor') and (self.setish(st, a) or self.setish(st, b)):
            r = self.set_op(st, op, a, b)
            return T('setop', op, pa, pb) if r is None else r
        if pa.kind == 'const' and pb.kind == 'const':
            try:
                x, y = pa.args[0], pb.args[0]
                r = {'Pow': lambda: x ** y if abs(y) < 64 else None, 'Mod': lambda: x % y, 'Div': lambda: x / y,
                     'FloorDiv': lambda: x // y}.get(op, lambda: None)()
                if r is not None:
                    return const(r)
            except Exception:
                pass
        if op == 'Mod' and pa.kind == 'const' and isinstance(pa.args[0], str):
            return self.percent(st, pa.args[0], pb) or T('strfmt', pa, pb)
        return dist2(lambda x, y: T({'Div': 'div', 'FloorDiv': 'fdiv', 'Mod': 'mod', 'Pow': 'pow'}.get(op, op), x, y),
                     pa, pb)

    def set_op(self, st, op, a, b):
        """the elements of a that are (not) in b, where the elements of a are known"""
        from .engine import Ctx
        if a.kind != 'ref' or op not in SET_OPS:
            return None
        fid = self.fresh()
        # duplicates do not matter: what is built is a set again
        st.frames[fid] = {k: self.new_list(st, st.heap[v.args[0]].content)
                          if v.kind == 'ref' and st.heap[v.args[0]].kind == 'set' and (k == 'a' or op == 'BitOr') else v
                          for k, v in (('a', a), ('b', b))}
        return self.ev(SET_OPS[op], st, Ctx(fid, (fid,), None, None, None, None))

    def percent(self, st, text, v):
        """'..%02X..' % (a, b) with as many values as places"""
        vals = list(v.args) if v.kind == 'tup' else [v] if v.kind in ('const', 'strcat', 'len', 'str') else None
        parts, rest = [], []
        for i, b in enumerate(re.split(r'(%%|%0?\d*(?:\.\d+)?[sXxodf])', text)):
            if i % 2 == 0:
                if '%' in b:
                    return None
                parts.append(const(b))
            elif b == '%%':
                parts.append(const('%'))
            else:
                rest.append(b)
                parts.append(b)
        if vals is None or len(vals) != len(rest) or any(b[-1] == 'd' or b[-1] == 's' and b != '%s' for b in rest):
            return None
        vals = iter(vals)
        out = []
        for q in parts:
            if isinstance(q, str):
                x = next(vals)
                q = self.to_str(st, x) if q == '%s' else T('format', x, const(q[1:]))
            out.append(q)
        return strcat(out)

    def listish(self, st, v):
        if v.kind == 'ref':
            return st.heap[v.args[0]].kind == 'list'
        if v.kind in ('list', 'slice', 'sorted', 'repeat'):
            return v.kind != 'slice' or (self.types.of(v) or ('',))[0] != 'prim'
        t = self.types.of(v)
        return bool(t and t[0] == 'list')

    def setish(self, st, v):
        return v.kind in ('set', 'setdiff', 'setop') or (v.kind == 'ref' and st.heap[v.args[0]].kind == 'set')

    def e_Compare(self, e, st, ctx):
        l = self.ev(e.left, st, ctx)
        r = TRUE
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, st, ctx)
            r = land(r, self.compare(type(op).__name__, l, b, st))
            l = b
        return r

    def compare(self, op, a, b, st):
        if op in CMP_NEG:
            return neg(self.compare(CMP_NEG[op], a, b, st))
        if op == 'Is':
            for x, y in ((a, b), (b, a)):
                if x.kind == 'type' and y.kind == 'bi':
                    return self.b_isinstance(st, [x.args[0], y], {}, None)
            if a.kind == 'ref' or b.kind == 'ref':
                if a.kind == b.kind:
                    return TRUE if a is b else FALSE
                if NONE in (a, b):
                    return FALSE
            a = a if a.kind == 'ite' else self.pure(st, a)
            if b is NONE and 'sub' in (a.kind, a.args[1].kind if a.kind == 'ite' else ''):
                a = self.not_none(a)
            return t_is(a, b if b.kind == 'ite' else self.pure(st, b))
        if op == 'In':
            return self.contains(st, a, b)
        if op == 'Eq':
            for x, y in ((a, b), (b, a)):
                if x.kind == 'type' and y.kind == 'bi':
                    return self.b_isinstance(st, [x.args[0], y], {}, None)
        if op == 'Eq' and self.dispatch:
            m = self.special(st, a, '__eq__')
            if m:
                self.dispatch = False
                r = self.call_fn(st, m, [a, b], {}, None)
                self.dispatch = True
                return r if is_cond(r) else truth(self.pure(st, r))
        pa, pb = self.pure(st, a), self.pure(st, b)
        if op == 'Eq':
            return t_eq(pa, pb)
        if op == 'Lt':
            return t_lt(pa, pb)
        if op == 'Gt':
            return t_lt(pb, pa)
        if op == 'LtE':
            return neg(t_lt(pb, pa))
        if op == 'GtE':
            return neg(t_lt(pa, pb))
        return T('truthy', unk('compare ' + op))

    dispatch = False        # whether == and hash of values of a declared class run its methods

    def special(self, st, v, name):
        c = st.heap[v.args[0]].cls if v.kind == 'ref' and st.heap[v.args[0]].kind == 'inst' else None
        if c is None:
            t = self.types.of(v)
            c = t[1] if t and t[0] == 'cls' and not self.prog.overridden(t[1], name) else None
        m = self.prog.lookup(c, name) if c is not None and not isinstance(c, str) else None
        return m[1] if m and m[0] == 'method' else None

    def contains(self, st, x, c):
        if c.kind == 'ite' and not is_cond(c):
            return ite(c.args[0], self.contains(st, x, c.args[1]), self.contains(st, x, c.args[2]))
        px = self.pure(st, x)
        if c.kind in ('values', 'items'):
            pass
        elif c.kind in ('ref', 'list', 'set', 'dict', 'tup') or (c, '#content') in st.over:
            return self.in_segs(st, px, self.iter_segs(st, c))
        if c.kind == 'const' and isinstance(c.args[0], str) and px.kind == 'const':
            return TRUE if px.args[0] in c.args[0] else FALSE
        v = st.over.get((c, px))
        if v is not None and (self.types.of(c) or ('',))[0] == 'dict':
            # an entry stored under the key before
            old = over_default((c, px))
            return mapleaves(v, lambda l: T('in', px, self.pure(st, c)) if l is old else
                             unk('entry') if l.kind in ('deleted', 'unk') else TRUE)
        return T('in', px, self.pure(st, c))

    def in_segs(self, st, px, sg):
        r = FALSE
        for s in sg:
            s = self.pure(st, s)
            if s.kind == 'item':
                k = t_eq(px, s.args[0])
            elif s.kind == 'splat':
                c = s.args[0]
                k = self.in_segs(st, px, c.args[0].args) if c.kind in ('list', 'set') and len(c.args) == 1 and \
                    c.args[0].kind == 'segs' else rebuild('in', (px, c))
            elif s.kind == 'each':
                inner = self.in_segs(st, px, s.args[2].args)
                k = self.norm_any(s.args[0], s.args[1], inner)
            elif s.kind == 'alt':
                k = mapleaves(s.args[0], lambda l: self.in_segs(st, px, l.args))
            else:
                k = T('in', px, T('list', segs((s,))))
            r = lor(r, k)
        return r

    def e_JoinedStr(self, e, st, ctx):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(str(x.value)))
            else:
                v = self.ev(x.value, st, ctx)
                if x.format_spec is not None:
                    parts.append(T('format', self.pure(st, v), self.ev(x.format_spec, st, ctx)))
                elif x.conversion == 114:
                    parts.append(T('repr', self.pure(st, v)))
                else:
                    parts.append(self.to_str(st, v))
        return strcat(parts)

    def e_FormattedValue(self, e, st, ctx):
        return self.to_str(st, self.ev(e.value, st, ctx))

    def not_none(self, x):
        if x.kind == 'ite':
            return ite(x.args[0], self.not_none(x.args[1]), self.not_none(x.args[2]))
        return T('list', EMPTY) if x.kind == 'sub' and self.a_container(x) else x

    def a_container(self, x):
        """an item of a collection that is declared to hold dicts or lists"""
        t = self.types.of(x)
        return bool(t) and t[0] in ('dict', 'list')

    def to_str(self, st, v):
        if v.kind == 'const':
            return const(str(v.args[0]))
        if v.kind in ('strcat', 'str', 'join'):
            return v
        if v.kind == 'ref' and st.heap[v.args[0]].kind == 'inst':
            c = st.heap[v.args[0]].cls
            m = self.prog.lookup(c, '__str__') if isinstance(c, ClassInfo) else None
            if m and m[0] == 'method':
                return self.call_fn(st, m[1], [v], {}, None)
        t = self.types.of(v)
        if t == ('prim', 'str'):
            return self.pure(st, v)
        return T('str', self.pure(st, v))

    def e_Starred(self, e, st, ctx):
        return self.ev(e.value, st, ctx)

    def e_Await(self, e, st, ctx):
        return unk('await')

    # ------------------------------------------------------------ attributes

    def e_Attribute(self, e, st, ctx):
        b = self.ev(e.value, st, ctx)
        return self.get_attr(st, b, e.attr)

    def closed(self, c):
        """the attributes of instances of c are those the package's own classes define"""
        if not isinstance(c, ClassInfo):
            return False
        r = self.closed_classes.get(c)
        if r is None:
            r = True
            for k in self.prog.mro(c):
                if isinstance(k, ClassInfo):
                    r = r and '__getattr__' not in k.methods and '__getattribute__' not in k.methods and not any(
                        isinstance(x, ast.Name) and x.id in ('setattr', 'vars') or
                        isinstance(x, ast.Attribute) and x.attr == '__dict__' for x in ast.walk(k.node))
                else:
                    r = r and k.split('[')[0].split('.')[-1] in ('object', 'ABC', 'Generic', 'Protocol')
            self.closed_classes[c] = r
        return r

    def fails(self, st, exn, why):
        """an operation that cannot succeed"""
        e = T('exn', exn, '!')
        q = st.fork()
        q.emit(T('raise', e))
        st.pend.append((TRUE, q, e))
        return T('bottom', why)

    def get_attr(self, st, b, name):
        k = b.kind
        if k == 'ite' and not is_cond(b):
            return self.over_cases(st, b, lambda q, x: self.get_attr(q, x, name))
        if k == 'ref':
            o = st.heap[b.args[0]]
            if name in o.fields:
                return o.fields[name]
            if o.kind == 'inst':
                if name == '__class__':
                    return self.clsv(o.cls)
                m = self.prog.lookup(o.cls, name)
                if m:
                    return self.member(st, b, m, o.cls)
                if self.closed(o.cls):
                    return self.fails(st, 'AttributeError', 'no attribute %s' % name)
                return unk('no attribute %s' % name)
            if o.kind == 'msg':
                return self.msg_field(st, b, name)
            return T('bm', b, name)
        if k == 'mod':
            full = b.args[0]
            m = self.prog.module(full)
            if m is not None:
                r = self.prog.resolve(m, name)
                if r is not None:
                    return self.binding(st, r, name)
            return self.binding(st, self.prog.mod_binding(full + '.' + name))
        if k == 'ext':
            return T('ext', b.args[0] + '.' + name)
        if k == 'cls':
            c = self.classes[b.args[0]]
            if name == '__name__':
                return const(c.name)
            if self.prog.is_enum(c) and name in c.attrs:
                return T('enum', c.name, name)
            m = self.prog.lookup(c, name)
            if m is None:
                return unk('class attribute ' + name)
            if m[0] == 'method':
                if m[1].is_class:
                    return self.bound(b, m[1])
                return self.fn(m[1])
            return self.global_expr(st, m[1].module, m[2])
        if k == 'fn' and name == '__name__':
            return const(self.funcs[b.args[0]].name)
        if k == 'super':
            c, s = b.args
            m = self.prog.lookup(self.super_class(st, s, c), name, after=self.classes[c])
            if m and m[0] == 'method':
                return self.bound(s, m[1])
            return T('bm', b, name)
        if k == 'enum':
            c = self.prog.find_class(b.args[0], required=False)
            if name == 'name':
                return const(b.args[1])
            if name == 'value' and c is not None:
                v = c.attrs.get(b.args[1])
                if isinstance(v, ast.Constant):
                    return const(v.value)
                return T('attr', b, 'value')
            if c is not None:
                m = self.prog.lookup(c, name)
                if m:
                    return self.member(st, b, m, c)
        if k == 'obj':
            f = dict(zip(b.args[1::2], b.args[2::2]))
            if name in f:
                return f[name]
        if k == 'msg':
            f = dict(zip(b.args[1::2], b.args[2::2]))
            if name in f:
                return f[name]
            return self.msg_default(st, b.args[0], name)
        if k == 'type':
            if name == '__name__':
                return T('typename', b.args[0])
        if k == 'bottom':
            return b
        if (b, name) in st.over:
            return st.over[(b, name)]
        t = self.types.of(b)
        if t and t[0] == 'cls':
            m = self.prog.lookup(t[1], name)
            if m and not self.field_shadow(t[1], name):
                if m[0] == 'method' and self.prog.overridden(t[1], name):
                    return T('vattr', b, name) if m[1].is_property else T('bm', b, name)
                return self.member(st, b, m, t[1])
        if t and t[0] in ('dict', 'list', 'set') and hasattr({'dict': dict, 'list': list, 'set': set}[t[0]], name):
            return T('bm', b, name)
        return t_attr(b, name)

    def field_shadow(self, c, name):
        return False

    def member(self, st, b, m, cls):
        if m[0] == 'method':
            f = m[1]
            if f.is_property:
                return self.call_fn(st, f, [b], {}, None)
            if f.is_static:
                return self.fn(f)
            return self.bound(b, f)
        return self.global_expr(st, m[1].module, m[2])

    def bound(self, recv, f):
        self.funcs[f.qual] = f
        return T('bound', recv, f.qual)

    def super_class(self, st, s, c):
        if s.kind == 'ref':
            return st.heap[s.args[0]].cls
        return self.classes[c]

    def set_attr(self, st, b, name, v):
        k = b.kind
        if k == 'ite' and not is_cond(b):
            def put(q, x):
                self.set_attr(q, x, name, v)
                return NONE
            self.over_cases(st, b, put)
            return
        if k == 'ref':
            o = st.heap[b.args[0]]
            if o.kind == 'msg':
                v = self.msg_store(st, o.cls, name, v)
            st.heap[b.args[0]] = o.with_field(name, v)
            return
        st.over[(b, name)] = v
        st.emit(T('setattr', b, name, self.pure(st, v)))

    # ------------------------------------------------------------ items

    def index(self, sl, st, ctx):
        if isinstance(sl, ast.Slice):
            lo = self.ev(sl.lower, st, ctx) if sl.lower else NONE
            hi = self.ev(sl.upper, st, ctx) if sl.upper else NONE
            step = self.ev(sl.step, st, ctx) if sl.step else NONE
            return T('slicekey', lo, hi, step)
        return self.ev(sl, st, ctx)

    def e_Slice(self, e, st, ctx):
        return self.index(e, st, ctx)

    def e_Subscript(self, e, st, ctx):
        b = self.ev(e.value, st, ctx)
        return self.get_item(st, b, self.index(e.slice, st, ctx))

    def get_item(self, st, b, key):
        if b.kind == 'ite' and not is_cond(b):
            return self.over_cases(st, b, lambda q, x: self.get_item(q, x, key))
        if b.kind == 'bottom':
            return b
        if key.kind == 'slicekey':
            lo, hi, step = key.args
            if step is not NONE and step is not ONE:
                if lo is NONE and hi is NONE and step is const(-1):
                    return self.reverse(st, b)
                return T('stepslice', self.pure(st, b), lo, hi, step)
            return self.slice_of(st, b, lo, hi)
        key = self.pure(st, key)
        if b.kind == 'ref':
            o = st.heap[b.args[0]]
            if o.kind == 'dict':
                return self.dict_get(st, b, key, None)
            if o.kind in ('list', 'set'):
                sg = o.content
                if key.kind == 'const' and isinstance(key.args[0], int):
                    i = key.args[0]
                    if i >= 0 and len(sg) > i and all(s.kind == 'item' for s in sg[:i + 1]):
                        return sg[i].args[0]
                    if i < 0 and len(sg) >= -i and all(s.kind == 'item' for s in sg[i:]):
                        return sg[i].args[0]
                return self.seg_item(st, sg, key, b)
            if o.kind == 'inst':
                m = self.prog.lookup(o.cls, '__getitem__')
                if m and m[0] == 'method':
                    return self.call_fn(st, m[1], [b, key], {}, None)
            return unk('item of object')
        if b.kind in ('list',) and b.args[0].kind == 'segs':
            return self.seg_item(st, b.args[0].args, key, b)
        if b.kind == 'dict' and b.args and b.args[0].kind == 'segs':
            return self.dict_get(st, b, key, None)
        if b.kind == 'sorted' and key is ZERO and b.args[2] in (TRUE, FALSE):
            # the first of a sorted sequence is the first of its least (greatest) elements
            return self.minmax(st, 'max' if b.args[2] is TRUE else 'min', [b.args[0]],
                               {} if b.args[1] is NONE else {'key': b.args[1]})
        if b.kind == 'obj':
            c = self.prog.find_class(b.args[0], required=False)
            f = self.seq_field(c) if c else None
            if f:
                return self.get_item(st, self.get_attr(st, b, f), key)
        if b.kind == 'cls' and self.prog.is_enum(self.classes[b.args[0]]):
            if key.kind == 'const' and key.args[0] in self.classes[b.args[0]].attrs:
                return T('enum', self.classes[b.args[0]].name, key.args[0])
            return T('enumbyname', self.classes[b.args[0]].name, key)
        if (b, key) in st.over:
            return st.over[(b, key)]
        if (b, '#content') in st.over:
            c = st.over[(b, '#content')]
            return T('sub', T('list', c), key)
        if b in self.members and b is not self.members[b]:
            return self.seg_item(st, self.members[b].args[0].args, key, self.members[b])
        return t_item(b, key)

    def seg_item(self, st, sg, key, b):
        if len(sg) == 1 and sg[0].kind == 'splat':
            return t_item(sg[0].args[0], key)
        if len(sg) == 1 and sg[0].kind == 'each' and len(sg[0].args[2].args) == 1 and sg[0].args[2].args[0].kind == 'item':
            d, lv, body = sg[0].args
            v = self.pure(st, body.args[0].args[0])
            if key.kind == 'idx' and key.args[0] is d:
                return subst(v, {T('elem', d, lv): T('elem', d, key.args[1]), T('idx', d, lv): T('idx', d, key.args[1])})
            e = t_item(d, key)
            i = key if not (key.kind == 'const' and isinstance(key.args[0], int) and key.args[0] < 0) \
                else t_add(T('len', d), key)
            return subst(v, {T('elem', d, lv): e, T('idx', d, lv): i})
        p = T('list', segs(tuple(self.pure(st, s) for s in sg)))
        if all(s.kind == 'item' for s in sg) and key.kind == 'const' and isinstance(key.args[0], int):
            if -len(sg) <= key.args[0] < len(sg):
                return sg[key.args[0]].args[0]
        return t_item(p, key)

    def dict_get(self, st, b, key, dflt):
        """dflt None: missing key is an error"""
        cont = st.heap[b.args[0]].content if b.kind == 'ref' else b.args[0].args
        r = None
        miss = dflt if dflt is not None else T('sub', self.pure(st, b), key)
        puts = []
        for s in reversed(cont):
            if s.kind != 'put':
                break
            puts.append(s)
            if s.args[0] is key:
                break
        done = len(puts) == len(cont)
        if cont and cont[-1].kind == 'alt' and not puts and all(
                l is EMPTY or l.kind == 'segs' and len(l.args) == 1 and l.args[0].kind == 'put' and l.args[0].args[0] is key
                for l in leaves(cont[-1].args[0])):
            rest = self.dict_get(st, T('dict', segs(cont[:-1])), key, dflt)
            return mapleaves(cont[-1].args[0], lambda l: rest if l is EMPTY else l.args[0].args[1])
        if puts and puts[-1].args[0] is key:
            base = puts[-1].args[1]
            puts = puts[:-1]
        elif done:
            base = miss
        else:
            return self.dict_opaque_get(st, b, cont, key, dflt)
        v = base
        for s in reversed(puts):
            v = ite(t_eq(s.args[0], key), s.args[1], v)
        return v

    def dict_opaque_get(self, st, b, cont, key, dflt):
        n = len(cont)
        while n > 1 and cont[n - 1].kind == 'put' and distinct(cont[n - 1].args[0], key):
            n -= 1
        if n < len(cont) and dflt is None:
            return self.dict_opaque_get(st, T('dict', segs(tuple(self.pure(st, s) for s in cont[:n]))), cont[:n], key, dflt)
        if len(cont) == 1 and cont[0].kind == 'splat':
            src = cont[0].args[0]
            v = t_item(src, key)
            return v if dflt is None else ite(T('in', key, src), v, dflt)
        if len(cont) == 1 and cont[0].kind == 'each' and len(cont[0].args[2].args) == 1:
            d, lv, body = cont[0].args
            s = body.args[0]
            if s.kind == 'put' and s.args[0] is T('elem', d, lv):
                val = self.pure(st, s.args[1])
                v = subst(val, {T('elem', d, lv): key})
                if not any(x.kind == 'idx' and x.args[0] is d for x in subterms(val)):
                    if dflt is None:
                        return v
                    return ite(T('in', key, d), v, dflt)
        p = self.pure(st, b)
        v = self.under(t_item(p, key), st.pc)
        return v if dflt is None else ite(self.in_segs(st, key, self.iter_segs(st, b)), v, dflt)

    def slice_of(self, st, b, lo, hi):
        if b.kind == 'tup' and all(x is NONE or (is_const(x)) for x in (lo, hi)):
            return T('tup', *b.args[slice(lo.args[0], hi.args[0])])
        if b.kind in ('ref', 'list', 'obj'):
            sg = self.iter_segs(st, b)
            if all(s.kind == 'item' for s in sg) and all(is_const(x) for x in (lo, hi)):
                return self.new_list(st, sg[slice(lo.args[0], hi.args[0])])
            if lo in (NONE, ZERO) and hi is NONE:
                return self.new_list(st, sg)
            if len(sg) == 1 and sg[0].kind == 'splat':
                return self.mk_slice(sg[0].args[0], lo, hi)
            return self.mk_slice(T('list', segs(tuple(self.pure(st, s) for s in sg))), lo, hi)
        if b.kind == 'const' and isinstance(b.args[0], str) and all(is_const(x) for x in (lo, hi)):
            return const(b.args[0][slice(lo.args[0], hi.args[0])])
        return self.mk_slice(self.pure(st, b), lo, hi)

    def mk_slice(self, b, lo, hi):
        lo = ZERO if lo is NONE else lo
        hi = T('len', b) if hi is NONE else hi
        # counting one or two back from the length is counting from the end, also in what is shorter
        lo, hi = (next((const(-k) for k in (1, 2) if x is t_sub(T('len', b), const(k))), x) for x in (lo, hi))
        if lo is ZERO and hi is T('len', b):
            return T('list', segs((T('splat', b),)))
        return T('slice', b, lo, hi)

    def set_item(self, st, b, key, v, node):
        if b.kind == 'ite' and not is_cond(b):
            def put(q, x):
                self.set_item(q, x, key, v, node)
                return NONE
            self.over_cases(st, b, put)
            return
        key = self.pure(st, key)
        if b.kind == 'ref':
            o = st.heap[b.args[0]]
            if o.kind == 'dict':
                c = list(o.content)
                d = self.bump(st, b, o, key, v)
                if d is not None:
                    st.heap[b.args[0]] = o.with_content(c + [T('bump', key, d)])
                    return
                for i, s in enumerate(c):
                    if s.kind == 'put' and s.args[0] is key and all(
                            x.kind == 'put' and (x.args[0] is key or distinct(x.args[0], key)) for x in c[i:]):
                        c[i] = T('put', key, v)
                        break
                else:
                    c.append(T('put', key, v))
                st.heap[b.args[0]] = o.with_content(c)
                return
            if o.kind == 'list':
                c = list(o.content)
                if key.kind == 'const' and isinstance(key.args[0], int) and all(s.kind == 'item' for s in c) \
                        and -len(c) <= key.args[0] < len(c):
                    c[key.args[0]] = T('item', v)
                    st.heap[b.args[0]] = o.with_content(c)
                else:
                    st.heap[b.args[0]] = o.with_content(c + [T('setat', key, v)])
                return
            if o.kind == 'inst':
                m = self.prog.lookup(o.cls, '__setitem__')
                if m and m[0] == 'method':
                    self.call_fn(st, m[1], [b, key, v], {}, None)
                    return
            st.emit(unk('set item'))
            return
        was = self.get_item(st.fork(), b, key)
        st.over[(b, key)] = v
        v = self.pure(st, v)
        if was.kind != 'const' and was in leaves(v):
            # an entry that is given the value it has stays as it is
            st.trace = cat_segs(st.trace, mk_alt(mapleaves(
                v, lambda l: EMPTY if l is was else segs((T('item', T('setitem', b, key, l)),)))))
            return
        st.emit(T('setitem', b, key, v))

    def under(self, t, pc, depth=0):
        """t, its top decisions simplified by what is known"""
        if t.kind != 'ite' or pc is TRUE or depth > 30:
            return t
        a, h, l = t.args
        if land(pc, a) is FALSE:
            return self.under(l, pc, depth + 1)
        if land(pc, neg(a)) is FALSE:
            return self.under(h, pc, depth + 1)
        return ite(a, self.under(h, land(pc, a), depth + 1), self.under(l, land(pc, neg(a)), depth + 1))

    def bump(self, st, b, o, key, v):
        """m[key] = m.get(key, 0) + d: counting, independent of the order of the increments"""
        if all(s.kind == 'put' for s in o.content) or (v.kind != 'ite' and not numeric(v)):
            return None
        g = self.dict_get(st, b, key, ZERO)
        d = self.under(t_sub(v, g), st.pc)
        if d.kind == 'const' and isinstance(d.args[0], (int, float)) and d.args[0]:
            return d
        return None

    def del_item(self, st, b, key, node):
        key = self.pure(st, key)
        if b.kind == 'ref':
            o = st.heap[b.args[0]]
            if o.kind == 'dict':
                if key.kind == 'const' and all(s.kind == 'put' and (s.args[0] is key or distinct(s.args[0], key))
                                               for s in o.content):
                    st.heap[b.args[0]] = o.with_content([s for s in o.content if s.args[0] is not key])
                elif (left := self.without_key(st, o.content, key)) is not None:
                    st.heap[b.args[0]] = o.with_content(left)
                else:
                    st.heap[b.args[0]] = o.with_content(o.content + (T('del', key),))
                return
            if o.kind == 'list':
                c = list(o.content)
                if key.kind == 'const' and isinstance(key.args[0], int) and all(x.kind == 'item' for x in c) \
                        and -len(c) <= key.args[0] < len(c):
                    del c[key.args[0]]
                    st.heap[b.args[0]] = o.with_content(c)
                else:
                    st.heap[b.args[0]] = o.with_content(o.content + (T('delat', key),))
                return
            if o.kind == 'inst':
                m = self.prog.lookup(o.cls, '__delitem__')
                if m and m[0] == 'method':
                    self.call_fn(st, m[1], [b, key], {}, None)
                    return
        self.mutate_opaque(st, b, T('delitem', b, key), T('delat', key))

    def without_key(self, st, sg, key):
        """the entries of a dictionary but the one of a key"""
        out = ()
        for s in sg:
            if s.kind == 'put':
                got = mk_alt(ite(t_eq(s.args[0], key), EMPTY, segs((s,))))
            elif s.kind == 'splat' and (self.types.of(s.args[0]) or ('?',))[0] == 'dict':
                d = s.args[0]
                lv = sum(1 for x in st.loops if x is d)
                e = T('elem', d, lv)
                got = mk_each(d, lv, mk_alt(ite(t_eq(e, key), EMPTY, segs((T('put', e, t_item(d, e)),)))))
            elif s.kind == 'each':
                got = self.without_key(st, s.args[2].args, key)
                got = None if got is None else mk_each(s.args[0], s.args[1], got)
            elif s.kind == 'alt' and all(l.kind == 'segs' for l in leaves(s.args[0])):
                ks = {l: self.without_key(st, l.args, key) for l in leaves(s.args[0])}
                got = None if None in ks.values() else mk_alt(mapleaves(s.args[0], lambda l: segs(ks[l])))
            else:
                got = None
            if got is None:
                return None
            out = cat_segs(out, got)
        return out

    def grow(self, st, recv, items, kind):
        """adding to the container a local dict has under a key"""
        if recv.kind != 'sub' or recv.args[0].kind not in ('dict', 'defaultdict'):
            return False
        for n in sorted(st.heap, key=str):
            o = st.heap[n]
            if o.kind != 'dict':
                continue
            c = ()
            for s in o.content:
                if s.kind == 'alt':
                    v = self.under(s.args[0], st.pc)
                    c += v.args if v.kind == 'segs' else (T('alt', v),)
                else:
                    c += (s,)
            whole = c[0].args[0] if len(c) == 1 and c[0].kind == 'splat' else \
                T('dict', norm_dict(rebuild('segs', [self.pure(st, s) for s in c])))
            if whole is not recv.args[0]:
                continue
            base = c[0] if c else None
            if base is not None and base.kind == 'hole':
                base = base.args[2].args[0].args[0] if base.args[2].kind == 'list' and base.args[2].args[0].args else None
            if base is not None and base.kind == 'splat' and base.args[0].kind == 'defaultdict':
                if base.args[0].args[:1] != (T('bi', kind),):
                    return False
                seg = T('group', recv.args[1], kind, segs(items))
            else:
                cond = self.in_segs(st, recv.args[1], self.iter_segs(st, T('dict', segs(c))))
                seg = T('grow', recv.args[1], kind, segs(items), cond)
            st.heap[n] = o.with_content(cat_segs(c, (seg,)))
            k = (recv, '#content')
            cur = st.over.get(k, over_default(k))
            st.over[k] = segs(cat_segs(cur.args if cur.kind == 'segs' else mk_alt(cur), tuple(items)))
            return True
        return False

    def mutate_opaque(self, st, b, eff, seg):
        k = (b, '#content')
        cur = st.over.get(k, over_default(k))
        cur = cur.args if cur.kind == 'segs' else mk_alt(cur)
        st.over[k] = segs(cat_segs(cur, (seg,)))
        st.emit(eff)

    # ------------------------------------------------------------ calls

    def e_Call(self, e, st, ctx):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and not e.args:
            self.clsv(ctx.cls)
            return T('super', ctx.cls.qual, ctx.selfv)
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, st, ctx)
            args, kw = self.args(e, st, ctx)
            return self.call_method(st, recv, f.attr, args, kw, e)
        fv = self.ev(f, st, ctx)
        args, kw = self.args(e, st, ctx)
        return self.call(st, fv, args, kw, e)

    def args(self, e, st, ctx):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(('*', self.ev(a.value, st, ctx)))
            else:
                args.append(self.ev(a, st, ctx))
        for k in e.keywords:
            v = self.ev(k.value, st, ctx)
            if k.arg is None:
                c = st.heap[v.args[0]].content if v.kind == 'ref' else None
                if c is not None and all(s.kind == 'put' and s.args[0].kind == 'const' for s in c):
                    for s in c:
                        kw[s.args[0].args[0]] = s.args[1]
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return args, kw

    def call(self, st, f, args, kw, node):
        k = f.kind
        if k == 'ite' and not is_cond(f):
            return self.over_cases(st, f, lambda q, x: self.call(q, x, args, kw, node))
        if k == 'fn':
            return self.call_fn(st, self.funcs[f.args[0]], args, kw, node)
        if k == 'bound':
            return self.call_fn(st, self.funcs[f.args[1]], [f.args[0]] + list(args), kw, node)
        if k == 'lam':
            return self.call_lam(st, f, args, kw, node)
        if k == 'bm':
            return self.call_method(st, f.args[0], f.args[1], args, kw, node)
        if k == 'cls':
            return self.construct(st, self.classes[f.args[0]], args, kw, node)
        if k == 'pcls':
            return self.new_msg(st, f.args[0], args, kw)
        if k == 'bi':
            return self.call_builtin(st, f.args[0], args, kw, node)
        if k == 'ext':
            b = self.prog.models.get(f.args[0])
            if b is not None:
                return self.call(st, self.binding(st, b), args, kw, node)
            return self.call_ext(st, f.args[0], args, kw, node)
        if k == 'partial':
            base, n = f.args[0], f.args[1]
            pos = list(f.args[2:2 + n])
            kws = {x.args[0]: x.args[1] for x in f.args[2 + n:]}
            return self.call(st, base, pos + list(args), {**kws, **kw}, node)
        if k == 'lamnf':
            n, lvl, body = f.args
            ps = [self.pure(st, a) for a in args if not isinstance(a, tuple)]
            if len(ps) == n and body.kind != 'eff':
                return subst(body, {T('lamarg', lvl, i): p for i, p in enumerate(ps)})
        if k == 'type':
            return unk('type() call')
        if k == 'ref':
            o = st.heap[f.args[0]]
            if o.kind == 'inst':
                m = self.prog.lookup(o.cls, '__call__')
                if m and m[0] == 'method':
                    return self.call_fn(st, m[1], [f] + list(args), kw, node)
        if k == 'bottom':
            return f
        ty = self.types.of(f)
        if ty and ty[0] == 'cls':
            m = self.prog.lookup(ty[1], '__call__')
            if m and m[0] == 'method':
                return self.call_method(st, f, '__call__', args, kw, node)
        t = T('app', self.pure(st, f), *self.pargs(st, args, kw))
        st.emit(T('do', t))
        for i, a in enumerate(args):
            if not isinstance(a, tuple):
                self.changed_by(st, t, str(i), a)
        return t

    def pargs(self, st, args, kw):
        out = []
        for a in args:
            if isinstance(a, tuple):
                sg = self.iter_segs(st, a[1])
                if all(s.kind == 'item' for s in sg):
                    out += [self.pure(st, s.args[0]) for s in sg]
                else:
                    out.append(T('star', self.pure(st, a[1])))
            else:
                out.append(self.pure(st, a))
        for k in sorted(kw):
            out.append(T('kw', k, self.pure(st, kw[k])))
        return out

    def construct(self, st, c, args, kw, node):
        if self.prog.is_enum(c):
            return T('enumof', c.name, *self.pargs(st, args, kw))
        ext = [b for b in self.prog.mro(c) if isinstance(b, str)]
        obj = self.alloc(st, Obj('inst', c))
        m = self.prog.lookup(c, '__init__')
        if m and m[0] == 'method':
            self.call_fn(st, m[1], [obj] + list(args), kw, node)
        elif self.prog.is_dataclass(c):
            self.dc_init(st, c, obj, args, kw)
        elif any('Exception' in b or 'Error' in b for b in ext):
            st.heap[obj.args[0]] = st.heap[obj.args[0]].with_field('args', T('tup', *[
                self.pure(st, a) for a in args if not isinstance(a, tuple)]))
        return obj

    def dc_fields(self, c):
        out = {}
        for k in reversed(self.prog.mro(c)):
            if isinstance(k, ClassInfo) and k.is_dataclass:
                for n, a, v in k.ann:
                    out[n] = (k, a, v)
        return out

    def dc_init(self, st, c, obj, args, kw):
        fs = self.dc_fields(c)
        names = list(fs)
        vals = {}
        flat = []
        for a in args:
            if isinstance(a, tuple):
                sg = self.iter_segs(st, a[1])
                if all(x.kind == 'item' for x in sg):
                    flat += [x.args[0] for x in sg]
                else:
                    # as many values as there are fields left
                    flat += [self.get_item(st, a[1], const(j)) for j in range(
                        len([n for n in names[len(flat):] if n not in kw and fs[n][2] is None]))]
            else:
                flat.append(a)
        args = flat
        for n, a in zip(names, args):
            vals[n] = a
        vals.update(kw)
        bad = None
        if len(args) > len(names) or set(kw) - set(names):
            bad = 'arguments'
        for n in names:
            if n not in vals:
                k, a, v = fs[n]
                if v is None:
                    bad = bad or n
                    vals[n] = unk('missing field')
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'field':
                    kws = {x.arg: x.value for x in v.keywords}
                    if 'default_factory' in kws:
                        vals[n] = self.call(st, self.global_expr(st, k.module, kws['default_factory']), [], {}, None)
                    elif 'default' in kws:
                        vals[n] = self.global_expr(st, k.module, kws['default'])
                    else:
                        vals[n] = unk('field()')
                else:
                    vals[n] = self.global_expr(st, k.module, v)
        if bad:
            e = T('exn', 'TypeError', '!')
            q = st.fork()
            q.emit(T('raise', e))
            st.pend.append((TRUE, q, e))
        o = st.heap[obj.args[0]]
        for n in names:
            o = o.with_field(n, vals[n])
        st.heap[obj.args[0]] = o
        m = self.prog.lookup(c, '__post_init__')
        if m and m[0] == 'method':
            self.call_fn(st, m[1], [obj], {}, None)

    # ------------------------------------------------------------ reification

    def pure(self, st, v, depth=0):
        """value without references: heap objects replaced by their current content"""
        if not isinstance(v, Term) or not v.rf:
            return v
        k = v.kind
        charge()
        if depth > 24:
            return T('deep')
        if k == 'ref':
            return self.pure_obj(st, v, depth)
        if k in ('lam', 'fn', 'bound', 'partial'):
            return self.pure_fn(st, v, depth)
        ch = False
        na = []
        for a in v.args:
            if isinstance(a, Term):
                b = self.pure(st, a, depth + (k in ('item', 'obj')))
                ch = ch or b is not a
                na.append(b)
            else:
                na.append(a)
        if not ch:
            return v
        if k in ('elem',):
            return T(k, *na)
        return rebuild(k, na)

    def pure_obj(self, st, v, depth):
        key = v.args[0]
        busy = getattr(self, '_busy', None)
        if busy is None:
            busy = self._busy = []
        if key in busy:
            return T('cyc', len(busy) - busy.index(key))
        o = st.heap.get(key)
        if o is None:
            return unk('lost object')
        busy.append(key)
        try:
            if o.kind == 'inst':
                a = [o.cls.name if isinstance(o.cls, ClassInfo) else str(o.cls)]
                for n in sorted(o.fields):
                    a += [n, self.pure(st, o.fields[n], depth + 1)]
                if o.content:
                    a += ['#content', segs(tuple(self.pure(st, s, depth + 1) for s in o.content))]
                return T('obj', *a)
            if o.kind == 'msg':
                return self.pure_msg(st, o, depth)
            c = rebuild('segs', [self.pure(st, s, depth + 1) for s in o.content])
            if o.kind == 'set':
                return T('set', norm_set(c))
            if o.kind == 'dict':
                return T('dict', norm_dict(c))
            return T('list', c)
        finally:
            busy.pop()

    def pure_fn(self, st, v, depth):
        """functions as values, compared by what they compute (eta normal form)"""
        if v.kind == 'fn':
            f = self.funcs[v.args[0]]
            if f.name in self.opaque or f.qual.split(':')[-1] in self.opaque:
                return T('fnv', f.name)
            n = len(f.node.args.args) + len(f.node.args.posonlyargs) - len(f.node.args.defaults)
        elif v.kind == 'bound':
            f = self.funcs[v.args[1]]
            n = len(f.node.args.args) + len(f.node.args.posonlyargs) - len(f.node.args.defaults) - 1
        elif v.kind == 'lam':
            nd, _, _, _, _, dfl = self.lams[v.args[0]]
            n = len(nd.args.args) + len(nd.args.posonlyargs) - len(dfl)
        else:
            return T('partialv', self.pure(st, v.args[0], depth + 1), v.args[1],
                     *[self.pure(st, a, depth + 1) for a in v.args[2:]])
        key = ('eta', v)
        if key in self.stack or depth > 8 or sum(1 for x in self.stack if isinstance(x, tuple) and x[0] == 'eta') > 3:
            return T('fnv', v.args[0] if v.kind == 'fn' else v.args[1] if v.kind == 'bound' else 'lambda')
        q = st.fork()
        q.trace = ()
        q.pc = TRUE
        lvl = sum(1 for x in self.stack if isinstance(x, tuple) and x[0] == 'eta')
        ps = [T('lamarg', lvl, i) for i in range(n)]
        self.stack.append(key)
        busy, self._busy = getattr(self, '_busy', None), []
        try:
            r = self.call(q, v, ps, {}, None)
            r = self.pure(q, r, depth + 1)
        finally:
            self.stack.pop()
            self._busy = busy
        tr = tuple(self.pure(q, s, depth + 1) for s in q.trace)
        return T('lamnf', n, lvl, r) if not tr else T('lamnf', n, lvl, T('eff', r, segs(tr)))


def inner_set(s):
    """an element of a set drawn from another set: drawn from what that set is made of"""
    if s.kind == 'splat' and s.args[0].kind == 'set' and s.args[0].args and s.args[0].args[0].kind == 'segs':
        return s.args[0].args[0].args
    if s.kind == 'each' and s.args[0].kind == 'set' and s.args[0].args and s.args[0].args[0].kind == 'segs':
        sg, lv = s.args[0].args[0].args, s.args[1]
        el, ix = T('elem', s.args[0], lv), T('idx', s.args[0], lv)
        if all(x.kind in ('item', 'splat') for x in sg) and not contains(s.args[2], ix):
            out = ()
            for x in sg:
                if x.kind == 'item':
                    out = cat_segs(out, subst(s.args[2], {el: x.args[0]}).args)
                else:
                    out = cat_segs(out, mk_each(x.args[0], lv, subst(s.args[2], {el: T('elem', x.args[0], lv)}).args))
            return out
    return (s,)


def norm_set(c):
    c = T('segs', *[y for s in c.args for y in inner_set(s)])
    if all(s.kind in ('item', 'splat', 'each', 'alt') for s in c.args):
        return T('segs', *sorted(set(c.args), key=lambda x: x.dig))
    return c


def norm_dict(c):
    """entries under distinct constant keys, put in one after the other, in one order: a dictionary is compared by
    what is found in it (loops over it keep the order in which it was filled)"""
    out, run = [], []

    def flush():
        ks = [x.args[0] for x in run]
        out.extend(sorted(run, key=lambda x: x.args[0].dig) if len(set(ks)) == len(ks) else run)
        run.clear()
    for x in c.args if isinstance(c, Term) else c:
        if x.kind == 'put' and x.args[0].kind in ('const', 'enum'):
            run.append(x)
        else:
            flush()
            out.append(x)
    flush()
    return segs(tuple(out)) if isinstance(c, Term) else tuple(out)
