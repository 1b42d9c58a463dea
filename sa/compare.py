"""Comparison of two normal forms: the places where they differ, and whether the difference is decided.

A difference counts as decided only when it is expressed entirely in the interpreted vocabulary of the domain
(constants, attributes, messages, conditions, element-wise maps, ...).  When it involves a construct the
interpreter could only approximate (an unsummarised loop, an unsupported expression, recursion) the answer is
'undecided' and no alarm is raised.
"""
from .terms import *
from .terms import _excl as excluded

COMPLEX = {'unk', 'prev', 'sys', 'acc', 'rec', 'deep', 'bottom', 'cyc', 'fold', 'foldc', 'lastof', 'hole', 'phi', 'until', 'first',
           'firstidx', 'insat', 'popat', 'rm', 'lost', 'stepslice', 'splat', 'alt', 'dictw', 'mut', 'kwsplat', 'delat', 'del', 'grow', 'group', 'bump'}
UNORDERED = {'eq', 'mul', 'lin'}


class Diff:
    __slots__ = ('path', 'a', 'b', 'cond', 'decided', 'inner')

    def __init__(self, path, a, b, cond, decided):
        self.path, self.a, self.b, self.cond, self.decided = path, a, b, cond, decided
        self.inner = False

    def text(self, d=7):
        c = ' and '.join(('' if v else 'not ') + show(x, 5) for x, v in self.cond)
        return '%s%s: code gives %s, expected %s' % ('/'.join(self.path) or 'result',
                                                    ' when ' + c if c else '', clip(show(self.a, d)),
                                                    clip(show(self.b, d)))


def clip(s, n=420):
    return s if len(s) <= n else s[:n] + '…'


LOOPY = {'fold', 'foldc', 'prev', 'until', 'first', 'firstidx', 'lastof', 'sys'}
HARD = {'unk', 'rec', 'deep', 'bottom', 'cyc'}


def vocab_only(a, b, cond=(), shared=frozenset(), fine=()):
    """the difference between a and b is written in interpreted vocabulary, values the two sides share being opaque"""
    sa, sb = outer(a, shared), outer(b, shared)
    for x in sa ^ sb:
        if (x.kind in COMPLEX or unmodelled(x)) and x not in shared and x.kind not in fine:
            return False
    for x in (sa ^ sb) & shared:
        if any(y.kind in HARD for y in subterms(x)):
            return False
        if x.kind in LOOPY and any(bound(x, c) for c, _ in cond):
            return False
    for x, _ in cond:
        for y in outer(x, shared):
            if y.kind in HARD or ((y.kind in COMPLEX or unmodelled(y)) and y not in shared):
                return False
    return True


def bound(x, c):
    """a case that may fix what a loop computes: it is about what the loop runs over"""
    if any(y.kind == 'while' for y in subterms(x)):
        over = {y for y in subterms(x) if y.kind in ('sym', 'elem', 'attr', 'sub')}
        return any(y in over for y in subterms(c))
    return any(y.kind in ('nonempty', 'len', 'truthy') and y.args[0] is x.args[0] for y in subterms(c))


def outer(t, shared):
    """subterms of t, not looking inside shared ones"""
    out, st = set(), [t]
    while st:
        x = st.pop()
        if x in out:
            continue
        out.add(x)
        if x.kind == 'set' and x.args and x.args[0].kind == 'segs' and all(y.kind == 'splat' for y in x.args[0].args):
            st += [y.args[0] for y in x.args[0].args]
        elif x not in shared:
            st += [y for y in x.args if isinstance(y, Term)]
    return out


def diffs(a, b, limit=30, fresh=False, identity=False):
    """where a and b differ.  A difference inside the recurrence of a loop is decided only if the two loops are
    otherwise used alike: two loops may keep the same information in differently encoded state."""
    ca = {x for x in subterms(a) if x.kind in COMPLEX or unmodelled(x)}
    out = Out(frozenset(x for x in subterms(b) if x in ca))
    out.fresh, out.identity = fresh, identity
    _diff(a, b, (), (), out, set(), limit)
    r = list(out)
    if any(not d.decided for d in r):
        for d in r:
            if d.inner:
                d.decided = False
    return r


PAIRED = ('sys', 'until', 'first', 'firstidx', 'any', 'lastof', 'fold', 'foldc', 'prev', 'each', 'alt')
STATE = ('sys', 'lastof', 'fold', 'foldc', 'prev')


def verdict(a, b, fresh=False, identity=False):
    """(differences, decided).  First the plain comparison; where that is inconclusive because loops differ, the
    loops are matched from the inside out and compared one by one."""
    ds = diffs(a, b, fresh=fresh, identity=identity)
    hard = [d for d in ds if d.decided]
    if hard or not ds:
        return hard or ds, bool(hard)
    found = []
    state = False
    for _ in range(40):
        if a is b:
            break
        sa = {x for x in subterms(a) if x.kind in PAIRED}
        sb = {x for x in subterms(b) if x.kind in PAIRED}
        ua, ub = sa - sb, sb - sa
        if not ua or not ub:
            break
        ua = [x for x in ua if not any(y in ua for y in subterms(x) if y is not x)]
        ub = [x for x in ub if not any(y in ub for y in subterms(x) if y is not x)]
        pair = None
        for x in sorted(ua, key=lambda t: (t.size, t.dig)):
            c = [y for y in ub if y.kind == x.kind and (x.kind == 'sys' and len(x.args) == len(y.args) or
                                                       x.kind == 'alt' or
                                                       x.kind != 'sys' and x.args[0] is y.args[0])]
            if len(c) == 1 and len([z for z in ua if z.kind == x.kind and z.args[0] is x.args[0]]) == 1:
                pair = (x, c[0])
                break
        if pair is None:
            return ds, False
        x, y = pair
        out = Out(frozenset(z for z in subterms(x) if z.kind in COMPLEX and contains(y, z)))
        out.fresh, out.identity = fresh, identity
        _kids2(x, y, (x.kind,), (), out, set(), 30)
        if not out or any(not d.decided for d in out):
            return ds, False
        found += out
        state = state or x.kind in STATE
        a = subst(a, {x: y})
        if x.kind in STATE:
            for d in out:
                if d.a.kind not in ('acc', 'const', 'elem', 'idx', 'segs') and not is_cond(d.a):
                    a = rewrite(a, d.a, d.b, {})
    if not found:
        return ds, False
    rest = diffs(a, b, fresh=fresh, identity=identity) if a is not b else []
    if rest and (state or any(not d.decided for d in rest)):
        return ds, False
    return found, True


def match(pat, x, env):
    """pat with its loop-state variables instantiated gives x"""
    if pat.kind == 'acc':
        k = pat.args[2]
        return env.setdefault(k, x) is x
    if pat is x:
        return True
    if pat.kind != x.kind or len(pat.args) != len(x.args):
        return False
    for p, q in zip(pat.args, x.args):
        if isinstance(p, Term):
            if not isinstance(q, Term) or not match(p, q, env):
                return False
        elif p != q:
            return False
    return True


def rewrite(t, u, v, memo):
    """the same change u -> v made wherever t computes u of some loop state"""
    if t in memo:
        return memo[t]
    env = {}
    if t is not u and t.kind == u.kind and match(u, t, env):
        accs = {x: env[x.args[2]] for x in subterms(v) if x.kind == 'acc' and x.args[2] in env}
        r = subst(v, accs)
    else:
        na = [rewrite(c, u, v, memo) if isinstance(c, Term) else c for c in t.args]
        r = t if all(c is d for c, d in zip(na, t.args)) else rebuild(t.kind, na)
    memo[t] = r
    return r


class Out(list):
    def __init__(self, shared):
        self.shared = shared
        self.inner = 0
        self.fresh = self.identity = False
        self.keyed = 0


def align(x, y):
    """all elements of X, written as a map over X where the other side is one"""
    if len(x) == len(y):
        out = []
        for p, q in zip(x, y):
            if p.kind == 'splat' and p.args[0].kind in ('items', 'values') and q.kind == 'each' \
                    and q.args[0] is p.args[0].args[0] and isinstance(q.args[2], Term):
                el = T('elem', q.args[0], q.args[1])
                v = t_item(q.args[0], el)
                p = T('each', q.args[0], q.args[1], T('segs', T('item', T('tup', el, v) if p.args[0].kind == 'items' else v)))
            if p.kind == 'splat' and q.kind == 'each' and q.args[0] is p.args[0] and isinstance(q.args[2], Term):
                el = T('elem', q.args[0], q.args[1])
                ks = {z.kind for z in subterms(q.args[2])}
                inner = T('put', el, t_item(p.args[0], el)) if 'put' in ks else T('item', el)
                p = T('each', q.args[0], q.args[1], T('segs', inner))
            out.append(p)
        return out
    return x


def may_fill(x, strict):
    """a sequence that has an element for some input; strict: without relying on a condition"""
    if x.kind == 'segs':
        return any(may_fill(y, strict) for y in x.args)
    if x.kind in ('item', 'put', 'group', 'bump'):
        return True
    if x.kind == 'splat':
        if x.args[0].kind in ('list', 'set', 'dict') and len(x.args[0].args) == 1:
            return may_fill(x.args[0].args[0], strict)
        return free(x.args[0])
    if x.kind == 'each':
        return (not strict or free(x.args[0])) and isinstance(x.args[2], Term) and may_fill(x.args[2], strict)
    if strict:
        return False
    if x.kind == 'alt':
        return may_fill(x.args[0], strict)
    if x.kind == 'ite':
        return may_fill(x.args[1], strict) or may_fill(x.args[2], strict)
    return False


def puts(segs_):
    return [y for x in segs_ for y in subterms(x) if y.kind in ('put', 'item', 'group', 'bump')]


BINDERS = ('each', 'fold', 'foldc', 'any', 'until', 'first', 'firstidx', 'lastof', 'sum', 'prev')


def mentions(t, x, memo=None):
    """x occurs in t, other than as the variable of a loop inside t"""
    memo = {} if memo is None else memo
    if t is x:
        return True
    if t not in memo:
        memo[t] = False
        sub = [y for y in t.args if isinstance(y, Term)]
        if t.kind in BINDERS and x.kind == 'elem' and t.args[0] is x.args[0] and t.args[1] == x.args[1]:
            sub = [t.args[0]]
        memo[t] = any(mentions(y, x, memo) for y in sub)
    return memo[t]


def skips(z, lost):
    """a segment of a dict that can be absent, or concerns other keys, whatever the lost segments put"""
    if z.kind == 'alt':
        return any(l is EMPTY and not any(mentions(w, a) for a, _ in p for w in lost) for p, l in cases(z.args[0]))
    if z.kind in ('each', 'splat'):
        return free(z.args[0]) and not any(mentions(w, z.args[0]) for w in lost)
    if z.kind in ('put', 'item') and z.args[0].kind == 'const':
        return all(p.args[0] is not z.args[0] for p in puts(lost))
    return False


def free(x):
    """a value nothing is known about: a part of an argument, what an uninterpreted function returned"""
    while x.kind in ('attr', 'sub'):
        x = x.args[0]
    return x.kind in ('sym', 'elem', 'call', 'mcall', 'app', 'vcall')


MADE = {'obj', 'list', 'dict', 'set', 'msg', 'tup', 'fnv'}


def apart(a, b, keyed, whole):
    """two values that differ for some input whatever their parts are"""
    if a is EMPTY and b.kind == 'segs':
        return (whole or not keyed) and may_fill(b, False)
    if b is EMPTY and a.kind == 'segs':
        return (whole or not keyed) and may_fill(a, True)
    for p, q in ((a, b), (b, a)):
        if p.kind == 'const' and (q.kind in MADE or q.kind in ('call', 'mcall', 'vcall')):
            return True
    if b.kind == 'deepcopy' and shallow(a, b.args[0]):
        return True
    return a.kind == 'const' and b.kind in ('lastof', 'first', 'fold', 'sum', 'len')


def shallow(a, x):
    """x itself, or a new container with the same elements"""
    while a.kind in ('copy', 'dict', 'list', 'set', 'segs', 'splat') and len(a.args) == 1:
        a = a.args[0]
    return a is x


def known_under(c, lits, depth=0):
    """a condition simplified by the case at hand; a search succeeds if it does so on what is being looked at"""
    if c.kind != 'ite':
        if c in lits:
            return TRUE if lits[c] else FALSE
        if c.kind == 'any' and depth < 6 and known_under(c.args[2], lits, depth + 1) is TRUE:
            return TRUE
        return c
    a = known_under(c.args[0], lits, depth)
    if a is TRUE:
        return known_under(c.args[1], lits, depth)
    if a is FALSE:
        return known_under(c.args[2], lits, depth)
    x, y = known_under(c.args[1], lits, depth), known_under(c.args[2], lits, depth)
    return x if x is y else c


USES = ('attr', 'sub', 'elem', 'idx', 'any', 'nonempty', 'len', 'mcall', 'item', 'indexof')


def contradictory(cond):
    """two of the conditions exclude each other"""
    low, high, no = {}, {}, {}
    for a, v in cond:
        if a.kind == 'nonempty':
            x = T('len', a.args[0])
            (low if v else high).setdefault(x, []).append(1 if v else 0)
        elif a.kind in ('eq', 'lt'):
            for i in (0, 1):
                x, c = a.args[i], a.args[1 - i]
                if x.kind != 'len' or c.kind != 'const' or type(c.args[0]) is not int:
                    continue
                n = c.args[0]
                if a.kind == 'eq' and v:
                    low.setdefault(x, []).append(n)
                    high.setdefault(x, []).append(n)
                elif a.kind == 'eq':
                    no.setdefault(x, set()).add(n)
                elif i == 0:
                    (high if v else low).setdefault(x, []).append(n - 1 if v else n)
                else:
                    (low if v else high).setdefault(x, []).append(n + 1 if v else n)
    for x in set(low) | set(high) | set(no):
        lo, hi = max(low.get(x, []) + [0]), min(high.get(x, [10 ** 9]))
        if lo > hi or hi - lo < 50 and all(n in no.get(x, ()) for n in range(lo, hi + 1)):
            return True
    for a, v in cond:
        if not v:
            continue
        none = a.args[0] if a.kind == 'is' and a.args[1] is NONE else None
        num = size = None
        if a.kind == 'eq':
            for x, y in (a.args, a.args[::-1]):
                if x.kind == 'len' and y.kind == 'const' and type(y.args[0]) is int:
                    size, num = x, y
        for b, w in cond:
            if b is a:
                continue
            if w and excluded(a, b):
                return True
            if w and none is not None and any(
                    z.kind in USES and z.args[0] is none or z.kind == 'in' and z.args[1] is none for z in subterms(b)):
                return True
            if size is not None:
                if b.kind == 'nonempty' and b.args[0] is size.args[0] and w != (num.args[0] > 0):
                    return True
                if b.kind in ('lt', 'eq') and size in b.args:
                    c = subst(b, {size: num})
                    if c in (TRUE, FALSE) and w != (c is TRUE):
                        return True
    return False


def impossible(cond):
    """no element meets a condition, but the one being looked at does"""
    lits = dict(cond)
    if contradictory(cond):
        return True
    return any(not v and a.kind == 'any' and contains(a.args[2], T('elem', a.args[0], a.args[1]))
               and known_under(a.args[2], {k: w for k, w in lits.items() if k is not a}) is TRUE
               for a, v in cond)


def _emit(out, path, a, b, cond, whole=True):
    if impossible(cond):
        return
    d = Diff(path, a, b, cond, vocab_only(a, b, cond, out.shared, ('alt',) if EMPTY in (a, b) else ()))
    if not d.decided and apart(a, b, out.keyed, whole) and vocab_only(NONE, NONE, cond, out.shared):
        d.decided = True
    if {a.kind, b.kind} == {'range', 'slice'}:
        d.decided = False       # places and a part of the sequence
    if any(z.kind == 'elem' and z.args[0].kind == 'range' and any(y.kind == 'ite' for y in subterms(z.args[0]))
           for c, _ in cond for z in subterms(c)):
        d.decided = False       # the numbers counted up to depend on more than the case at hand
    if path and path[-1].endswith(' over') and (a.kind == 'range') != (b.kind == 'range'):
        r, o = (a, b) if a.kind == 'range' else (b, a)
        n = T('len', o)
        if not any(x is n for e in r.args for x in lin_parts(e)[0]) or r.args == (ZERO, n):
            d.decided = False   # elements and numbers in one loop or in nested ones
    d.inner = out.inner > 0
    if out.fresh and shares(a, b) and not any(y.kind in HARD for x, _ in cond for y in subterms(x)):
        d.decided = True
    if out.identity and copied(a, b) and not any(y.kind in HARD for x, _ in cond for y in subterms(x)):
        d.decided = True
    out.append(d)


def copied(a, b):
    """a new object with the contents of an argument where the argument itself is expected"""
    if not free(b):
        return False
    if a.kind == 'copy':
        return a.args[0] is b
    if a.kind in ('obj', 'dict', 'list', 'set'):
        return any(x is b or x.kind == 'attr' and x.args[0] is b for x in subterms(a)) and \
            not any(x.kind in ('each', 'alt', 'fold', 'foldc', 'sys', 'unk') for x in subterms(a))
    return False


def shares(a, b):
    """a part of an argument where a new object is expected"""
    if b.kind not in ('list', 'dict', 'set', 'obj') or a.kind not in ('attr', 'sub', 'elem', 'sym'):
        return False
    while a.kind in ('attr', 'sub'):
        a = a.args[0]
    return a.kind in ('sym', 'elem')


def cofactor(t, atom, val):
    """t in the case atom == val, everywhere inside t"""
    sub = {atom: TRUE if val else FALSE}
    if val:
        if atom.kind == 'is' and atom.args[1] is NONE and not is_cond(atom.args[0]):
            sub[atom.args[0]] = NONE
        if atom.kind == 'eq':
            for x, y in (atom.args[:2], atom.args[1::-1]):
                if (x.kind == 'enum' or x.kind == 'const' and isinstance(x.args[0], str)) and y.kind not in ('const', 'enum'):
                    sub[y] = x
        for x in subterms(t):
            if x.kind in BOOLK and x is not atom and excluded(atom, x):
                sub[x] = FALSE
    if atom.kind == 'nonempty' and not val:
        sub[T('len', atom.args[0])] = ZERO
    if atom.kind == 'lt' and atom.args[0].kind not in BOOLK:
        by = lin_sub(atom.args[1], atom.args[0])
        for x in subterms(t):
            # which of the two values compared is the larger one is known
            if x.kind in ('min', 'max') and len(x.args) == 2 and all(numeric(y) for y in x.args):
                p, q = x.args
                up = lin_sub(q, p)
                if up is not by:
                    p, q = q, p
                    up = lin_sub(q, p)
                if up is by:
                    sub[x] = p if (x.kind == 'min') == val else q
    return assume(subst(t, sub), atom, val)


def same(a, b, out):
    """equal up to cases that cannot arise"""
    if a is b:
        return True
    if a.kind != b.kind or a.kind not in ('each', 'alt', 'put', 'item') or a.kind == 'each' and a.args[0] is not b.args[0]:
        return False
    o = Out(out.shared)
    o.keyed = out.keyed
    _diff(a, b, (), (), o, set(), 1)
    return not o


def choices(t):
    """what alternative sequences are chosen by"""
    if t.kind != 'ite':
        return set()
    return set(cond_atoms(t.args[0])) | choices(t.args[1]) | choices(t.args[2])


def counted(sg):
    """the alternatives among segments are chosen by numbers of elements"""
    return any(y.kind in ('len', 'range') for z in sg if z.kind == 'alt' for c in choices(z.args[0]) for y in subterms(c))


def split(a, b, m, path, cond, out, seen, limit):
    """the differences where the condition holds, and those where it does not"""
    old = out.shared
    for v in (True, False):
        x, y = cofactor(a, m, v), cofactor(b, m, v)
        if old:
            ca = {z for z in subterms(x) if z.kind in COMPLEX or unmodelled(z)}
            out.shared = old | frozenset(cofactor(z, m, v) for z in old) \
                | frozenset(z for z in subterms(y) if z in ca)
        _diff(x, y, path, cond + ((m, v),), out, seen, limit)
    out.shared = old


def _diff(a, b, path, cond, out, seen, limit):
    if a is b or len(out) >= limit or (a, b) in seen:
        return
    seen.add((a, b))
    charge()
    if a.kind == 'ite' or b.kind == 'ite' or (is_cond(a) and is_cond(b)):
        tops = [x.args[0] for x in (a, b) if x.kind == 'ite']
        if is_cond(a) and is_cond(b):
            if a in (TRUE, FALSE) and b in (TRUE, FALSE):
                return _emit(out, path, a, b, cond)
            tops += [x for x in (a, b) if x.kind in BOOLK]
            # same predicate on differing operands: show the operands
            if a.kind == b.kind and a.kind in ('any', 'nonempty', 'isinst', 'hasfield') and len(a.args) == len(b.args):
                return _kids(a, b, path, cond, out, seen, limit)
        if tops:
            return split(a, b, min(tops, key=lambda x: x.dig), path, cond, out, seen, limit)
    if a.kind == b.kind == 'strcat' and a.args != b.args and sorted(x.dig for x in a.args) == sorted(x.dig for x in b.args) \
            and all(x.kind in ('call', 'app', 'mcall', 'vcall', 'ite') for x in a.args):
        # what is added may be numbers
        out.append(Diff(path, a, b, cond, False))
        return
    if a.kind != b.kind or a.kind in UNORDERED:
        return _emit(out, path, a, b, cond)
    if a.kind == 'segs':
        x, y = list(a.args), list(b.args)
        while x and y and x[0] is y[0]:
            x.pop(0), y.pop(0)
        while x and y and x[-1] is y[-1]:
            x.pop(), y.pop()
        if len(x) != len(y):
            while x and y and same(x[0], y[0], out):
                x.pop(0), y.pop(0)
            while x and y and same(x[-1], y[-1], out):
                x.pop(), y.pop()
        x, y = align(x, y), align(y, x)
        if out.keyed and not (x and y):
            rest = [z for z in (b if y else a).args if not any(z is w for w in x + y)]
            if out.keyed < 2 and all(skips(z, x + y) for z in rest):
                return _emit(out, path, T('segs', *x), T('segs', *y), cond)
        if len(x) == len(y) and len(x) == 1 and x[0].kind != y[0].kind and 'alt' in (x[0].kind, y[0].kind) \
                and {x[0].kind, y[0].kind} & {'item', 'put', 'bump', 'group', 'each', 'splat'} and not counted(x + y):
            u, v = [z[0].args[0] if z[0].kind == 'alt' else T('segs', z[0]) for z in (x, y)]
            return _diff(u, v, path + ('alt',), cond, out, seen, limit)
        if len(x) == len(y) and all(p.kind == q.kind for p, q in zip(x, y)):
            for i, (p, q) in enumerate(zip(x, y)):
                _diff(p, q, path + ('[%d]' % i,), cond, out, seen, limit)
            return
        n = len(out)
        _emit(out, path, T('segs', *x), T('segs', *y), cond,
              len(x) == len(a.args) and len(y) == len(b.args) and out.keyed < 2)
        if len(out) > n and not out[-1].decided and len(cond) < 10:
            tops = {c for z in x + y if z.kind == 'alt' for c in choices(z.args[0])}
            if tops and not counted(x + y):
                out.pop()
                m = min(tops, key=lambda z: z.dig)
                split(T('segs', *x), T('segs', *y), m, path, cond, out, seen, limit)
        return
    if a.kind == 'msg' and a.args[0] == b.args[0] and a.args[1::2] != b.args[1::2]:
        return message(a, b, path, cond, out, seen, limit)
    if len(a.args) != len(b.args):
        return _emit(out, path, a, b, cond)
    for p, q in zip(a.args, b.args):
        if isinstance(p, Term) != isinstance(q, Term) or (not isinstance(p, Term) and p != q):
            return _emit(out, path, a, b, cond)
    if not any(isinstance(p, Term) for p in a.args):
        return _emit(out, path, a, b, cond)
    if a.kind in ('each', 'fold', 'foldc', 'any', 'until', 'first', 'firstidx', 'lastof') and a.args[0] is not b.args[0]:
        n = len(out)
        _diff(a.args[0], b.args[0], path + (a.kind + ' over',), cond, out, seen, limit)
        if len(out) == n:
            _emit(out, path, a, b, cond)
        return
    _kids(a, b, path, cond, out, seen, limit)


def message(a, b, path, cond, out, seen, limit):
    """two messages of a type with different fields set"""
    x, y = dict(zip(a.args[1::2], a.args[2::2])), dict(zip(b.args[1::2], b.args[2::2]))
    for f in sorted(set(x) | set(y)):
        if f in x and f in y:
            _diff(x[f], y[f], path + (f,), cond, out, seen, limit)
            continue
        d = Diff(path + (f,), x.get(f, ABSENT), y.get(f, ABSENT), cond, False)
        d.decided = set_to(x[f] if f in x else y[f], f in x) and vocab_only(NONE, NONE, cond, out.shared)
        d.inner = out.inner > 0
        out.append(d)


ABSENT = T('absent')


def set_to(v, strict):
    """a field value that is not the default one for some input"""
    if v.kind == 'const':
        return v.args[0] not in (None, False, 0, '')
    if v.kind == 'ite':
        return not strict and (set_to(v.args[1], strict) or set_to(v.args[2], strict))
    if v.kind == 'list':
        return len(v.args) == 1 and may_fill(v.args[0], strict)
    return v.kind == 'msg' or free(v)


def _kids(a, b, path, cond, out, seen, limit):
    n = len(out)
    if a.kind in LOOPY:
        out.inner += 1
        try:
            return _kids2(a, b, path, cond, out, seen, limit)
        finally:
            out.inner -= 1
    return _kids2(a, b, path, cond, out, seen, limit)


def _kids2(a, b, path, cond, out, seen, limit):
    n = len(out)
    step = 1 if a.kind in ('dict', 'set') or out.keyed and a.kind in ('each', 'alt') else 0
    saved = out.keyed
    out.keyed = out.keyed + step if step else 0
    for i, (p, q) in enumerate(zip(a.args, b.args)):
        if isinstance(p, Term) and isinstance(q, Term) and p is not q:
            _diff(p, q, path + (label(a, i),), cond, out, seen, limit)
    out.keyed = saved
    if len(out) == n and not any((p, q) in seen for p, q in zip(a.args, b.args) if isinstance(p, Term)):
        _emit(out, path, a, b, cond)


def label(t, i):
    if t.kind in ('msg', 'obj') and i >= 1:
        prev = t.args[i - 1]
        return prev if isinstance(prev, str) else t.kind
    if t.kind == 'summary':
        return ('returned value', 'effects', 'raised')[i]
    if t.kind in ('item', 'list'):
        return ''
    return t.kind
