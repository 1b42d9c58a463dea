"""Abstract state of the value-flow interpreter: frames, heap, effect trace, overlays; fork and join."""
from .terms import *

UNBOUND = T('unbound')


class Obj:
    """immutable abstract heap object"""
    __slots__ = ('kind', 'cls', 'fields', 'content', 'owner', 'etype')

    def __init__(self, kind, cls=None, fields=None, content=(), owner=None, etype=None):
        self.kind, self.cls, self.fields, self.content, self.owner = kind, cls, fields or {}, content, owner
        self.etype = etype

    def with_field(self, n, v):
        f = dict(self.fields)
        f[n] = v
        return Obj(self.kind, self.cls, f, self.content, self.owner, self.etype)

    def with_content(self, c):
        return Obj(self.kind, self.cls, self.fields, tuple(c), self.owner, self.etype)

    def with_owner(self, o):
        return Obj(self.kind, self.cls, self.fields, self.content, o, self.etype)


class St:
    __slots__ = ('frames', 'heap', 'trace', 'over', 'pend', 'pc', 'loops')

    def __init__(self):
        self.frames, self.heap, self.trace, self.over = {}, {}, (), {}
        self.pend, self.pc, self.loops = [], TRUE, ()

    def fork(self):
        s = St()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap, s.trace, s.over = dict(self.heap), self.trace, dict(self.over)
        s.pend, s.pc, s.loops = [], self.pc, self.loops
        return s

    def become(self, o):
        self.frames, self.heap, self.trace, self.over = o.frames, o.heap, o.trace, o.over
        self.pc, self.loops = o.pc, o.loops
        if o.pend and o is not self:
            self.pend = self.pend + o.pend

    def emit(self, *effs):
        self.trace = cat_segs(self.trace, tuple(T('item', e) for e in effs))


# ---------------------------------------------------------------- segment sequences

def segs(t):
    return T('segs', *t)


def mk_each(dom, lvl, inner):
    """inner: tuple of segs"""
    if not inner:
        return ()
    if len(inner) == 1 and inner[0].kind == 'item' and inner[0].args[0] is T('elem', dom, lvl):
        return (T('splat', dom),)
    if len(inner) == 1 and inner[0].kind == 'put':
        # copying every entry is copying the dictionary
        k, v = inner[0].args
        e = T('elem', dom, lvl)
        if k.kind == v.kind == 'deepcopy' and k.args[0] is e and v.args[0] is t_item(dom, e):
            return (T('splat', T('deepcopy', dom)),)
    # nested flattening of the elements of an element stays nested
    return (T('each', dom, lvl, segs(inner)),)


def mk_alt(v):
    """v: a decision diagram over segs leaves"""
    if v.kind == 'segs':
        return v.args
    lvs = leaves(v)
    if any(l.kind != 'segs' for l in lvs):
        return (T('alt', v),)
    n0 = len(lvs[0].args)
    if n0 and all(len(l.args) == n0 for l in lvs):
        cols = [[l.args[i] for l in lvs] for i in range(n0)]
        if all(all(x.kind == 'item' for x in col) or
               all(x.kind == 'put' and x.args[0] is col[0].args[0] for x in col) or len(set(col)) == 1 for col in cols):
            out = []
            for i, col in enumerate(cols):
                if len(set(col)) == 1:
                    out.append(col[0])
                elif col[0].kind == 'item':
                    out.append(T('item', mapleaves(v, lambda l: l.args[i].args[0])))
                else:
                    out.append(T('put', col[0].args[0], mapleaves(v, lambda l: l.args[i].args[1])))
            return tuple(out)
    # factor a common prefix / suffix out of the case distinction
    pre = 0
    while all(len(l.args) > pre for l in lvs) and len({l.args[pre] for l in lvs}) == 1:
        pre += 1
    suf = 0
    while all(len(l.args) - pre > suf for l in lvs) and len({l.args[-1 - suf] for l in lvs}) == 1:
        suf += 1
    if not pre and not suf:
        return (T('alt', v),)
    first = lvs[0].args
    mid = mapleaves(v, lambda l: segs(l.args[pre:len(l.args) - suf]))
    tail = first[len(first) - suf:] if suf else ()
    return first[:pre] + (mk_alt(mid) if mid is not EMPTY else ()) + tail


def _atoms(v):
    out = set()
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if x in seen or x.kind != 'ite':
            continue
        seen.add(x)
        out.add(x.args[0])
        st += x.args[1:]
    return out


def cat_segs(a, b):
    """concatenation with merging of adjacent case distinctions over shared conditions"""
    a, b = tuple(a), tuple(b)
    while a and b and a[-1].kind == 'alt' and b[0].kind == 'alt' and _atoms(a[-1].args[0]) & _atoms(b[0].args[0]):
        x, y = a[-1].args[0], b[0].args[0]
        if x.size + y.size > 4000:
            break
        m = dist_segs(x, y)
        a, b = a[:-1] + mk_alt(m), b[1:]
    return a + b


def dist_segs(x, y):
    if x.kind == 'ite':
        c = x.args[0]
        return ite(c, dist_segs(x.args[1], assume(y, c, True)), dist_segs(x.args[2], assume(y, c, False)))
    if y.kind == 'ite':
        return ite(y.args[0], dist_segs(x, y.args[1]), dist_segs(x, y.args[2]))
    return segs(x.args + y.args)


def alt_segs(c, a, b):
    """segments of (a if c else b)"""
    a, b = tuple(a), tuple(b)
    if a == b:
        return a
    i = 0
    while i < len(a) and i < len(b) and a[i] is b[i]:
        i += 1
    j = 0
    while j < len(a) - i and j < len(b) - i and a[-1 - j] is b[-1 - j]:
        j += 1
    ma, mb = a[i:len(a) - j], b[i:len(b) - j]
    # an alternative standing alone on one side is merged into one diagram
    ta = ma[0].args[0] if len(ma) == 1 and ma[0].kind == 'alt' else segs(ma)
    tb = mb[0].args[0] if len(mb) == 1 and mb[0].kind == 'alt' else segs(mb)
    mid = mk_alt(ite(c, ta, tb))
    return cat_segs(cat_segs(a[:i], mid), a[len(a) - j:])


# ---------------------------------------------------------------- join

def vjoin(c, a, b):
    return a if a is b else ite(c, a, b)


def join(c, a, b):
    """state after (a if c else b)"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    s = St()
    for fid in set(a.frames) | set(b.frames):
        fa, fb = a.frames.get(fid), b.frames.get(fid)
        if fa is None or fb is None:
            s.frames[fid] = dict(fa if fb is None else fb)
            continue
        f = {}
        for n in fa:
            va = fa[n]
            vb = fb.get(n, UNBOUND)
            f[n] = va if va is vb else ite(c, va, vb)
        for n in fb:
            if n not in fa:
                f[n] = ite(c, UNBOUND, fb[n])
        s.frames[fid] = f
    s.heap = dict(a.heap)
    for o, ob in b.heap.items():
        oa = s.heap.get(o)
        if oa is None:
            s.heap[o] = ob
        elif oa is not ob:
            s.heap[o] = join_obj(c, oa, ob)
    for o, ob in s.heap.items():
        if ob.kind == 'dict' and ob.content and ob.content[-1].kind == 'alt' and o in a.heap and o in b.heap:
            s.heap[o] = grouped(s, ob)
    s.over = dict(a.over)
    for k in set(a.over) | set(b.over):
        va, vb = a.over.get(k), b.over.get(k)
        if va is vb:
            continue
        s.over[k] = vjoin(c, over_default(k) if va is None else va, over_default(k) if vb is None else vb)
    s.trace = alt_segs(c, a.trace, b.trace)
    s.loops = a.loops
    s.pc = lor(a.pc, b.pc) if a.pc is not b.pc else a.pc
    s.pend = [(land(c, k), x, v) for k, x, v in a.pend] + [(land(neg(c), k), x, v) for k, x, v in b.pend]
    return s


def grouped(s, ob):
    """a container under a key that is made when the key is new, and added to otherwise"""
    v = ob.content[-1].args[0]
    if v.kind != 'ite' or any(l.kind != 'segs' or len(l.args) != 1 for l in v.args[1:]):
        return ob
    c, x, y = v.args[0], v.args[1].args[0], v.args[2].args[0]
    if x.kind == 'put':
        c, x, y = neg(c), y, x
    if x.kind != 'grow' or y.kind != 'put' or x.args[0] is not y.args[0] or x.args[3] is not c or y.args[1].kind != 'ref':
        return ob
    new = s.heap.get(y.args[1].args[0])
    if new is None or new.kind != x.args[1]:
        return ob
    if T('segs', *flat_under(new.content, neg(c))) is not x.args[2]:
        return ob
    return ob.with_content(ob.content[:-1] + (T('group', *x.args[:3]),))


def flat_under(content, c):
    out = ()
    for x in content:
        if x.kind == 'alt':
            from .loops import restrict
            v = restrict(x.args[0], c)
            out += v.args if v.kind == 'segs' else (T('alt', v),)
        else:
            out += (x,)
    return out


def over_default(k):
    base, name = k
    if base.kind == 'stream':
        return ZERO
    if name == '#content':
        return segs((T('splat', base),))
    if isinstance(name, Term):
        return t_item(base, name)
    return t_attr(base, name)


def join_obj(c, a, b):
    f = {}
    for n in set(a.fields) | set(b.fields):
        va, vb = a.fields.get(n, UNBOUND), b.fields.get(n, UNBOUND)
        f[n] = vjoin(c, va, vb)
    return Obj(a.kind, a.cls, f, alt_segs(c, a.content, b.content), a.owner, a.etype)
