"""Hash-consed value-flow terms and their normal forms.

A term denotes where a value comes from (constant, parameter, attribute of ..., element of ...,
result of an external call, merge of two values under a condition).  Conditions and conditional
values are kept as ordered decision diagrams, so that two ways of writing the same case distinction
give the same term.  Nothing here runs or solves anything: terms are built bottom-up by the abstract
interpreter in engine.py and compared for identity.
"""
import hashlib

_table = {}


class Budget(Exception):
    """the analysis of one construct exceeded its work limit"""


LIMIT = [10 ** 9]


def charge(n=1):
    LIMIT[0] -= n
    if LIMIT[0] < 0:
        raise Budget()



class Term:
    __slots__ = ('kind', 'args', 'dig', 'size', 'unk', 'rf')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return id(self) >> 4

    def __lt__(self, other):
        return self.dig < other.dig


def T(kind, *args):
    if kind == 'idx' and args[0].kind == 'range' and len(args[0].args) == 2 and args[0].args[0] is ZERO:
        kind = 'elem'           # counting from nought: the element is the place
    key = (kind,) + tuple(a if isinstance(a, Term) else (type(a).__name__, a) for a in args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.kind = kind
        t.args = args
        h = hashlib.blake2b(digest_size=12)
        h.update(kind.encode())
        size = 1
        unk = kind == 'unk'
        rf = kind in ('ref', 'lam', 'fn', 'bound', 'partial')
        for a in args:
            if isinstance(a, Term):
                h.update(b'T' + a.dig)
                size += a.size
                unk = unk or a.unk
                rf = rf or a.rf
            else:
                h.update(b'P' + type(a).__name__.encode() + repr(a).encode('utf8', 'backslashreplace'))
        t.dig = h.digest()
        t.size = size
        t.unk = unk
        t.rf = rf
        _table[key] = t
    return t


def const(v):
    return T('const', v)


TRUE, FALSE, NONE = const(True), const(False), const(None)
ZERO, ONE = const(0), const(1)
EMPTY = T('segs')


def unk(why):
    return T('unk', str(why))


def is_const(t):
    return t.kind == 'const'


def cval(t):
    return t.args[0]


# ---------------------------------------------------------------- conditions

BOOLK = {'eq', 'lt', 'is', 'in', 'truthy', 'isinst', 'nonempty', 'any', 'all', 'hasfield', 'exc', 'callable',
         'hasattr', 'startswith'}


def is_cond(t):
    if t is TRUE or t is FALSE:
        return True
    if t.kind in BOOLK:
        return True
    if t.kind == 'ite':
        return is_cond(t.args[1]) and is_cond(t.args[2])
    return False


def cond_atoms(c, acc=None):
    acc = acc if acc is not None else []
    if c.kind == 'ite':
        if c.args[0] not in acc:
            acc.append(c.args[0])
        cond_atoms(c.args[1], acc)
        cond_atoms(c.args[2], acc)
    elif c is not TRUE and c is not FALSE and c not in acc:
        acc.append(c)
    return acc


def as_bdd(c):
    """a bare atom stands for ite(atom, True, False)"""
    if c is TRUE or c is FALSE or c.kind == 'ite':
        return c
    return T('ite', c, TRUE, FALSE)


def unbdd(c):
    if c.kind == 'ite' and c.args[1] is TRUE and c.args[2] is FALSE:
        return c.args[0]
    return c


def _excl(a, b):
    """atom a true implies atom b false"""
    if a.kind == 'eq' and b.kind == 'eq' and a is not b:
        for x in a.args:
            for y in b.args:
                if x is y:
                    xo = a.args[1] if a.args[0] is x else a.args[0]
                    yo = b.args[1] if b.args[0] is y else b.args[0]
                    if distinct(xo, yo):
                        return True
    if a.kind == 'is' and a.args[1] is NONE and b.kind in ('nonempty', 'truthy') and a.args[0] is b.args[0]:
        return True
    if b.kind == 'is' and b.args[1] is NONE and a.kind in ('nonempty', 'truthy') and a.args[0] is b.args[0]:
        return True
    if a.kind == 'is' and a.args[1] is NONE and b.kind == 'isinst' and a.args[0] is b.args[0]:
        return True
    if b.kind == 'is' and b.args[1] is NONE and a.kind == 'isinst' and a.args[0] is b.args[0]:
        return True
    for p, q in ((a, b), (b, a)):
        # a value of one of the listed types is not None
        if p.kind == 'is' and p.args[1] is NONE and q.kind == 'in' and q.args[0].kind == 'type' \
                and q.args[0].args[0] is p.args[0] and q.args[1].kind in ('dict', 'list', 'set', 'tup') \
                and {x.kind for x in subterms(q.args[1])} <= {'dict', 'list', 'set', 'tup', 'segs', 'put', 'item', 'const', 'bi', 'ext', 'cls'}:
            return True
    return False


def distinct(x, y):
    if x.kind == 'const' and y.kind == 'const':
        try:
            return x.args[0] != y.args[0]
        except Exception:
            return True
    if x.kind == 'enum' and y.kind == 'enum':
        return x.args[0] == y.args[0] and x.args[1] != y.args[1]
    return False


def assume(t, atom, val, memo=None):
    """restrict t to the case atom == val (only the decision nodes of t at the top are rewritten)"""
    if memo is None:
        memo = {}
    if t.kind != 'ite':
        if t is atom:
            return TRUE if val else FALSE
        if t.kind in BOOLK and val and _excl(atom, t):
            return FALSE
        return t
    if t in memo:
        return memo[t]
    a, hi, lo = t.args
    if a is atom:
        r = hi if val else lo
    elif val and _excl(atom, a):
        r = assume(lo, atom, val, memo)
    else:
        charge()
        h2, l2 = assume(hi, atom, val, memo), assume(lo, atom, val, memo)
        r = t if (h2 is hi and l2 is lo) else node(a, h2, l2)
    memo[t] = r
    return r


def node(atom, hi, lo):
    hi = assume(hi, atom, True)
    lo = assume(lo, atom, False)
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return atom
    if atom.kind == 'lt' and {hi.kind, lo.kind} != {'slice'} and 'slice' in (hi.kind, lo.kind):
        # the first n of what has no more than n
        s, x = (hi, lo) if hi.kind == 'slice' else (lo, hi)
        n = T('len', x)
        if s.args == (x, ZERO, s.args[2]) and s.args[2].kind == 'const' and \
                (atom is t_lt(s.args[2], n) and s is hi or atom is t_lt(n, s.args[2]) and s is lo):
            return s
    if atom.kind == 'lt' and hi.kind != 'ite' and lo.kind != 'ite' and numeric(hi) and numeric(lo) \
            and hi.kind not in BOOLK and lo.kind not in BOOLK and atom.args[0].kind not in BOOLK:
        # the larger or the smaller of the two values compared
        up, by = lin_sub(hi, lo), lin_sub(atom.args[1], atom.args[0])
        if up is by or up is lin_sub(atom.args[0], atom.args[1]):
            return T('max' if up is by else 'min', *sorted((hi, lo), key=lambda x: x.dig))
    return T('ite', atom, hi, lo)


_ite_memo = {}


def _top(t):
    """topmost atom of a diagram, None for a leaf"""
    if t.kind == 'ite':
        return t.args[0]
    if t.kind in BOOLK:
        return t
    return None


def _cof(t, atom, val):
    return assume(t, atom, val)


def ite(c, a, b):
    """normal-form conditional value; c is a condition (diagram), a and b arbitrary terms"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    charge()
    if c.kind != 'ite' and c.kind not in BOOLK:
        raise AssertionError('not a condition: %r' % (c,))
    # bare boolean atoms among a/b only matter when they are also decided by c
    atoms = [_top(c)] + [x.args[0] for x in (a, b) if x.kind == 'ite']
    if is_cond(a) and is_cond(b):
        atoms += [x for x in (a, b) if x.kind in BOOLK]
    m = min(atoms, key=lambda x: x.dig)
    hi = ite(assume(c, m, True), assume(a, m, True), assume(b, m, True))
    lo = ite(assume(c, m, False), assume(a, m, False), assume(b, m, False))
    r = node(m, hi, lo)
    _ite_memo[key] = r
    return r


def relative(f, c, memo=None):
    """a condition as it stands where another one holds"""
    if c in (TRUE, FALSE) or f in (TRUE, FALSE):
        return f
    memo = {} if memo is None else memo
    if (f, c) in memo:
        return memo[f, c]
    m = min((_top(f), _top(c)), key=lambda x: x.dig)
    c1, c0 = assume(c, m, True), assume(c, m, False)
    f1, f0 = assume(f, m, True), assume(f, m, False)
    if c1 is FALSE:
        r = relative(f0, c0, memo)
    elif c0 is FALSE:
        r = relative(f1, c1, memo)
    elif f1 is f0:
        r = relative(f1, lor(c1, c0), memo)
    else:
        r = ite(m, relative(f1, c1, memo), relative(f0, c0, memo))
    memo[f, c] = r
    return r


def neg(c):
    return ite(c, FALSE, TRUE)


def land(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def lor(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def implies(a, b):
    """a => b provable from the diagrams alone"""
    return land(a, neg(b)) is FALSE


def cases(t, path=()):
    """decision-diagram leaves of t with the literals leading to them"""
    if t.kind == 'ite':
        a, hi, lo = t.args
        yield from cases(hi, path + ((a, True),))
        yield from cases(lo, path + ((a, False),))
    else:
        yield path, t


def mapleaves(v, f, memo=None):
    memo = {} if memo is None else memo
    if v in memo:
        return memo[v]
    if v.kind == 'ite' and not is_cond(v):
        r = ite(v.args[0], mapleaves(v.args[1], f, memo), mapleaves(v.args[2], f, memo))
    else:
        r = f(v)
    memo[v] = r
    return r


def leaves(t):
    """distinct leaves of a decision diagram"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.kind == 'ite':
            st += [x.args[2], x.args[1]]
        else:
            out.append(x)
    return out


def path_cond(path):
    r = TRUE
    for a, v in path:
        r = land(r, a if v else neg(a))
    return r


def not_empty(x):
    return truth(x) if x.kind == 'call' and x.args[0] in STRING_CALLS else T('nonempty', x)


def truth(v):
    if v.kind == 'const':
        return TRUE if v.args[0] else FALSE
    if is_cond(v):
        return v
    if v.kind == 'ite':
        return ite(v.args[0], truth(v.args[1]), truth(v.args[2]))
    if v.kind in ('len', 'lenof'):
        return not_empty(v.args[0]) if v.kind == 'len' else T('nonempty', v)
    if v.kind in ('enum', 'fn', 'cls', 'lam', 'bound', 'obj'):
        return TRUE
    if v.kind == 'tup':
        return TRUE if v.args else FALSE
    if v.kind == 'call' and v.args[0] in STRING_CALLS:
        return neg(t_eq(v, const('')))
    if v.kind == 'call' and v.args[0].split('.')[-1] in OBJECT_CALLS:
        return neg(t_is(v, NONE))
    return T('truthy', v)


def dist2(f, a, b):
    """distribute a binary builder over conditional operands"""
    if a.kind == 'ite' and not is_cond(a):
        return ite(a.args[0], dist2(f, a.args[1], b), dist2(f, a.args[2], b))
    if b.kind == 'ite' and not is_cond(b):
        return ite(b.args[0], dist2(f, a, b.args[1]), dist2(f, a, b.args[2]))
    return f(a, b)


def t_eq(a, b):
    return dist2(_eq, a, b)


def _eq(a, b):
    if a is b:
        return TRUE
    if a.kind == 'const' and b.kind == 'const':
        return TRUE if a.args[0] == b.args[0] else FALSE
    if distinct(a, b):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.kind == 'len' and y is ZERO:
            return neg(T('nonempty', x.args[0]))
        if y is TRUE and is_cond(x):
            return x
        if y is FALSE and is_cond(x):
            return neg(x)
        if y is NONE:
            return t_is(x, NONE)
        if x.kind == 'indexof' and y.kind == 'const' and isinstance(y.args[0], int) and y.args[0] < 0:
            return FALSE
        if y is ZERO and x.kind in ('sum', 'lin') and positive(x) is not None:
            return neg(positive(x))
        if x.kind == 'lin' and y.kind == 'const' and type(y.args[0]) is int:
            # one length and a number
            co, k = lin_parts(x)
            if len(co) == 1 and type(k) is int:
                (u, n), = co.items()
                if u.kind == 'len' and n in (1, -1):
                    return t_eq(u, const((y.args[0] - k) * n)) if (y.args[0] - k) * n >= 0 else FALSE
    if a.kind == 'tup' and b.kind == 'tup':
        if len(a.args) != len(b.args):
            return FALSE
        return land(*[t_eq(x, y) for x, y in zip(a.args, b.args)])
    if a.dig > b.dig:
        a, b = b, a
    return T('eq', a, b)


def used_values(sg):
    """the values of all entries have attributes, which their keys are made of"""
    return bool(sg) and all(
        used_values(s.args) if s.kind == 'segs' else used_values((s.args[2],)) if s.kind == 'each' else
        s.kind == 'put' and any(x.kind in ('attr', 'vattr') and x.args[0] is s.args[1] for x in subterms(s.args[0]))
        for s in sg)


def t_is(a, b):
    return dist2(_is, a, b)


def _is(a, b):
    if a is b:
        return TRUE
    if a is NONE:
        a, b = b, a
    if b is NONE and a.kind in ('const', 'enum', 'tup', 'fn', 'cls', 'lam', 'list', 'dict', 'set', 'obj', 'msg',
                                'str', 'fstr', 'len', 'lin', 'join', 'ref', 'bound', 'idx', 'strcat', 'slice',
                                'sorted', 'deepcopy', 'sum', 'lamnf', 'fnv', 'bm', 'partial'):
        return FALSE
    if b is NONE and a.kind == 'sub' and a.args[0].kind == 'dict' and used_values(a.args[0].args):
        return FALSE
    if b in (TRUE, FALSE) and is_cond(a):
        return a if b is TRUE else neg(a)
    if a.kind == 'const' and b.kind == 'const':
        return TRUE if a.args[0] is b.args[0] else FALSE
    if a.kind == 'enum' or b.kind == 'enum':
        return t_eq(a, b)
    if b is not NONE and a.dig > b.dig:
        a, b = b, a
    return T('is', a, b)


def t_lt(a, b):
    return dist2(_lt, a, b)


def _lt(a, b):
    if a is b:
        return FALSE
    if a.kind == 'const' and b.kind == 'const':
        try:
            return TRUE if a.args[0] < b.args[0] else FALSE
        except TypeError:
            return T('lt', a, b)
    if b.kind == 'len' and a is ZERO:
        return not_empty(b.args[0])
    if a.kind == 'len' and b is ONE:
        return neg(not_empty(a.args[0]))
    if a.kind in ('len', 'indexof') and b is ZERO:
        return FALSE
    if numeric(a) and numeric(b):
        co, k = lin_parts(lin_sub(a, b))
        m = -k
        if not co:
            return TRUE if 0 < m else FALSE
        if isinstance(m, int) and m >= 1 and all(intlike(t) for t in co):
            return neg(_lt_build({t: -c for t, c in co.items()}, 1 - m))
        return _lt_build(co, m)
    return T('lt', a, b)


def norm_any(dom, lv, c):
    if c is FALSE:
        return FALSE
    if c is TRUE:
        return T('nonempty', dom)
    el, ix = T('elem', dom, lv), T('idx', dom, lv)
    if dom.kind == 'set' and dom.args and dom.args[0].kind == 'segs' and not contains(c, ix):
        sg = dom.args[0].args
        if all(s.kind in ('item', 'splat') for s in sg):
            return lor(*[subst(c, {el: s.args[0]}) if s.kind == 'item' else
                         norm_any(s.args[0], lv, subst(c, {el: T('elem', s.args[0], lv)})) for s in sg])
    if not contains(c, el) and not contains(c, ix) and not any(x.kind == 'phi' for x in subterms(c)):
        return land(T('nonempty', dom), c)
    if c.kind == 'eq' and any(a is el for a in c.args):
        o = c.args[0] if c.args[1] is el else c.args[1]
        if not contains(o, el):
            return T('in', o, dom)
    if c.kind == 'ite' and c.size < 120:
        free = {}

        def own(t):
            if t not in free:
                free[t] = not contains(t, el) and not contains(t, ix) and not any(x.kind == 'phi' for x in subterms(t))
            return free[t]
        ats = sorted(cond_atoms(c), key=lambda x: x.dig)
        for m in ats:
            if m.kind == 'eq' and own(m.args[0]) != own(m.args[1]):
                u, v = m.args if own(m.args[1]) else m.args[::-1]
                hi, lo = assume(c, m, True), assume(c, m, False)
                h2 = subst(hi, {u: v})
                if h2 is not hi and not contains(h2, el) and not contains(h2, ix):
                    return norm_any(dom, lv, ite(m, h2, lo))
        ind = [m for m in ats if own(m)]
        if ind and len(ind) <= 4:
            return ite(ind[0], norm_any(dom, lv, assume(c, ind[0], True)), norm_any(dom, lv, assume(c, ind[0], False)))
    return T('any', dom, lv, c)


def positive(t):
    """when a count, which is never negative, is not zero; None if t is not known to be a count"""
    if t.kind == 'const':
        return None if isinstance(t.args[0], (str, type(None))) or t.args[0] < 0 else TRUE if t.args[0] > 0 else FALSE
    if t.kind == 'len':
        return T('nonempty', t.args[0])
    if t.kind == 'ite' and not is_cond(t):
        a, b = positive(t.args[1]), positive(t.args[2])
        return None if a is None or b is None else ite(t.args[0], a, b)
    if t.kind == 'lin':
        co, k = lin_parts(t)
        return some_positive(co) if k == 0 and all(c > 0 for c in co.values()) else None
    if t.kind == 'sum' and t.args[0].kind == 'list' and t.args[0].args and t.args[0].args[0].kind == 'segs':
        return positive_segs(t.args[0].args[0].args)
    return None


def positive_segs(sg):
    out = []
    for s in sg:
        if s.kind == 'item':
            k = positive(s.args[0])
        elif s.kind == 'each':
            k = positive_segs(s.args[2].args)
            k = None if k is None else norm_any(s.args[0], s.args[1], k)
        elif s.kind == 'alt':
            ks = {l: positive_segs(l.args) for l in leaves(s.args[0])}
            k = None if None in ks.values() else mapleaves(s.args[0], lambda l: ks[l])
        else:
            k = None
        if k is None:
            return None
        out.append(k)
    return lor(*out) if out else FALSE


def some_positive(co):
    out = [positive(t) for t in co]
    return None if None in out else lor(*out)


def _lt_build(co, m):
    """sum(co) < m"""
    if m == 0 and all(c < 0 for c in co.values()):
        r = some_positive(co)
        if r is not None:
            return r
    if m == 0 and len(co) == 1:
        (t, c), = co.items()
        if t.kind == 'len':
            return not_empty(t.args[0]) if c < 0 else FALSE
        if c in (1, -1):
            return T('lt', t, ZERO) if c == 1 else T('lt', ZERO, t)
    pos = {t: c for t, c in co.items() if c > 0}
    ngt = {t: -c for t, c in co.items() if c < 0}
    left = lin_build(pos, -m if m < 0 else 0)
    right = lin_build(ngt, m if m > 0 else 0)
    return T('lt', left, right)


def t_le(a, b):
    """a <= b as not (b < a)"""
    # integers: a <= b with b = c - 1 is a < c; handled by linear normal form only for ints
    return neg(t_lt(b, a))


# ---------------------------------------------------------------- linear arithmetic

NUMERIC_FIELDS = set()


REAL_NAMES = set()
NUMERIC_CALLS = set()


STRING_CALLS = {'os.path.join', 'os.path.dirname', 'os.path.basename', 'os.path.abspath', 'os.getcwd'}


# functions that give None or an object that is true whatever it holds
OBJECT_CALLS = set()


def numeric(t):
    if t.kind == 'const':
        return isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)
    if t.kind in ('len', 'idx', 'lin', 'lenof', 'sum', 'mul', 'div', 'mod', 'pow', 'int', 'num'):
        return True
    if t.kind == 'attr':
        return t.args[1] in NUMERIC_FIELDS or t.args[1] in REAL_NAMES
    if t.kind == 'call' and isinstance(t.args[0], str):
        return t.args[0].split('.')[-1] in NUMERIC_CALLS or t.args[0].startswith('math.') and t.args[0] not in ('math.isnan', 'math.isinf')
    if t.kind == 'elem' and t.args[0].kind == 'range':
        return True
    if t.kind in ('max', 'min'):
        return all(numeric(x) for x in t.args)
    if t.kind == 'phi':
        return numeric(t.args[2])
    if t.kind == 'prev':
        return numeric(t.args[1].args[0])
    if t.kind == 'sym':
        return t.args[0] in NUMERIC_FIELDS or t.args[0] in REAL_NAMES
    if t.kind == 'fold':
        return t.args[2].kind == 'sys' and numeric(t.args[2].args[0])
    return False


def intlike(t):
    if t.kind == 'const':
        return isinstance(t.args[0], int)
    if t.kind in ('attr',):
        return t.args[1] in NUMERIC_FIELDS
    if t.kind == 'sym':
        return t.args[0] in NUMERIC_FIELDS
    if t.kind in ('len', 'idx', 'lenof', 'int', 'cnt'):
        return True
    if t.kind == 'elem' and t.args[0].kind == 'range':
        return True
    if t.kind == 'phi':
        return t.args[2].kind == 'const' and isinstance(t.args[2].args[0], int)
    if t.kind == 'prev':
        return intlike(t.args[1].args[0])
    if t.kind == 'ite' and not is_cond(t):
        return intlike(t.args[1]) and intlike(t.args[2])
    if t.kind == 'lin':
        co, k = lin_parts(t)
        return isinstance(k, int) and all(isinstance(c, int) and intlike(x) for x, c in co.items())
    if t.kind == 'sum' and t.args[0].kind == 'list' and t.args[0].args and t.args[0].args[0].kind == 'segs':
        return int_segs(t.args[0].args[0].args)
    return False


def int_segs(sg):
    return all(intlike(s.args[0]) if s.kind == 'item' else
               int_segs(s.args[2].args) if s.kind == 'each' else
               s.kind == 'alt' and all(int_segs(l.args) for l in leaves(s.args[0])) for s in sg)


def lin_parts(t):
    if t.kind == 'const':
        return {}, t.args[0]
    if t.kind == 'lin':
        k = t.args[0]
        co = {}
        for i in range(1, len(t.args), 2):
            co[t.args[i + 1]] = t.args[i]
        return co, k
    return {t: 1}, 0


def lin_build(co, k):
    co = {t: c for t, c in co.items() if c != 0}
    k = 0 if co and k == 0 else k
    if not co:
        return const(k)
    if k == 0 and len(co) == 1:
        (t, c), = co.items()
        if c == 1:
            return t
    args = [k]
    for t in sorted(co, key=lambda x: x.dig):
        args += [co[t], t]
    return T('lin', *args)


def _lin_comb(a, b, s):
    ca, ka = lin_parts(a)
    cb, kb = lin_parts(b)
    if not isinstance(ka, (int, float)) or not isinstance(kb, (int, float)):
        return unk('arithmetic on text')
    co = dict(ca)
    for t, c in cb.items():
        co[t] = co.get(t, 0) + s * c
    return lin_build(co, ka + s * kb)


def lin_sub(a, b):
    return _lin_comb(a, b, -1)


def t_add(a, b):
    return dist2(_add, a, b)


def _add(a, b):
    if a.kind == 'const' and b.kind == 'const':
        try:
            return const(a.args[0] + b.args[0])
        except Exception:
            return unk('const +')
    if numeric(a) or numeric(b):
        return _lin_comb(a, b, 1)
    # string / sequence concatenation: flatten, keep order
    parts = []
    for x in (a, b):
        if x.kind == 'strcat':
            parts += x.args
        elif x.kind == 'fstr':
            parts += x.args
        else:
            parts.append(x)
    strish = any(p.kind in ('str', 'join') or (p.kind == 'const' and isinstance(p.args[0], str)) for p in parts)
    if strish:
        return strcat(parts)
    return T('strcat', *parts)


def strcat(parts):
    out = []
    for p in parts:
        if p.kind in ('strcat', 'fstr'):
            sub = p.args
        else:
            sub = (p,)
        for q in sub:
            if q.kind == 'str' and q.args[0].kind == 'const' and isinstance(q.args[0].args[0], (str, int)):
                q = const(str(q.args[0].args[0]))
            if out and q.kind == 'const' and out[-1].kind == 'const' and isinstance(q.args[0], str) \
                    and isinstance(out[-1].args[0], str):
                out[-1] = const(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    out = [q for q in out if not (q.kind == 'const' and q.args[0] == '')]
    if not out:
        return const('')
    if len(out) == 1:
        return out[0]
    return T('strcat', *out)


def t_join(sep, lst):
    """sep.join(lst); pieces with a separator put before all but the first, or after all but the last, are joined by it"""
    if sep.kind == 'const' and sep.args[0] == '' and lst.kind == 'list' and lst.args[0].kind == 'segs' \
            and len(lst.args[0].args) == 1 and lst.args[0].args[0].kind == 'each':
        e = lst.args[0].args[0]
        D, lv, body = e.args
        s = one_string(body)
        if s is not None and s.kind == 'ite':
            c, hi, lo = s.args
            i, last = T('idx', D, lv), t_sub(T('len', D), ONE)
            p = None
            if c is t_lt(ZERO, i):
                p = before(hi, lo)
            elif c is t_eq(ZERO, i):
                p = before(lo, hi)
            elif c is t_lt(t_add(i, ONE), T('len', D)) or c is t_lt(i, last):
                p = after(hi, lo)
            elif c is t_eq(i, last) or c is t_eq(t_add(i, ONE), T('len', D)):
                p = after(lo, hi)
            if p is not None and not contains(p, T('elem', D, lv)) and not contains(p, i):
                short = lo if c.kind == 'lt' else hi
                return T('join', p, T('list', T('segs', T('each', D, lv, T('segs', T('item', short))))))
    return T('join', sep, lst)


def one_string(body):
    """the concatenation of a sequence of pieces"""
    parts = []
    for x in body.args:
        if x.kind == 'item':
            parts.append(x.args[0])
        elif x.kind == 'alt':
            if any(l.kind != 'segs' for l in leaves(x.args[0])):
                return None
            parts.append(strings(x.args[0]))
        elif x.kind == 'each':
            parts.append(t_join(const(''), T('list', T('segs', x))))
        else:
            return None
    if any(p.unk for p in parts):
        return None
    r = parts[-1] if parts else const('')
    for p in reversed(parts[:-1]):
        r = dist2(lambda a, b: strcat([a, b]), p, r)
    return r


def strings(t):
    if t.kind == 'ite':
        return ite(t.args[0], strings(t.args[1]), strings(t.args[2]))
    r = one_string(t)
    return unk('pieces') if r is None else r


def before(long, short):
    a = list(long.args) if long.kind == 'strcat' else [long]
    return a[0] if len(a) > 1 and strcat(a[1:]) is short else None


def after(long, short):
    a = list(long.args) if long.kind == 'strcat' else [long]
    return a[-1] if len(a) > 1 and strcat(a[:-1]) is short else None


def t_sub(a, b):
    return dist2(_sub, a, b)


def _sub(a, b):
    if a.kind == 'const' and b.kind == 'const':
        try:
            return const(a.args[0] - b.args[0])
        except Exception:
            return unk('const -')
    if a.kind in ('setlike', 'set') or b.kind in ('setlike', 'set'):
        return T('setdiff', a, b)
    return _lin_comb(a, b, -1)


def t_mul(a, b):
    return dist2(_mul, a, b)


def _mul(a, b):
    if a.kind == 'const' and b.kind == 'const':
        try:
            return const(a.args[0] * b.args[0])
        except Exception:
            return unk('const *')
    for x, y in ((a, b), (b, a)):
        if x.kind == 'const' and isinstance(x.args[0], (int, float)) and not isinstance(x.args[0], bool) \
                and y.kind not in ('list', 'ref'):
            if x.args[0] == 1:
                return y
            co, k = lin_parts(y)
            return lin_build({t: c * x.args[0] for t, c in co.items()}, k * x.args[0])
    fs = []
    for x in (a, b):
        if x.kind == 'mul':
            fs += x.args
        else:
            fs.append(x)
    return T('mul', *sorted(fs, key=lambda x: x.dig))


# ---------------------------------------------------------------- substitution / traversal

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, Term):
                st.append(a)


def contains(t, sub):
    return any(x is sub for x in subterms(t))


def rebuild(kind, args):
    """re-normalise a node after its children changed"""
    if kind == 'ite':
        c = args[0]
        if not is_cond(c):
            c = truth(c)
        return ite(c, args[1], args[2])
    if kind == 'eq':
        return t_eq(*args)
    if kind in ('in', 'sub'):
        r = seen_through(kind, *(args if kind == 'in' else args[::-1]))
        if r is not None:
            return r
    if kind == 'in' and args[1].kind in ('list', 'set', 'dict', 'tup') and (args[1].args == () or args[1].args[0] is EMPTY):
        return FALSE
    if kind == 'is':
        return t_is(*args)
    if kind == 'lt':
        return t_lt(*args)
    if kind == 'truthy':
        return truth(args[0])
    if kind == 'lin':
        r = const(args[0])
        for i in range(1, len(args), 2):
            r = t_add(r, t_mul(const(args[i]), args[i + 1]))
        return r
    if kind == 'mul':
        r = args[0]
        for a in args[1:]:
            r = t_mul(r, a)
        return r
    if kind == 'strcat':
        return strcat(list(args))
    if kind == 'any':
        return norm_any(*args)
    if kind == 'join':
        return t_join(*args)
    if kind == 'sub':
        return t_item(*args)
    if kind == 'attr':
        return t_attr(*args)
    if kind == 'segs':
        from .state import cat_segs, mk_alt, mk_each
        out = ()
        for a in args:
            if a.kind == 'alt':
                out = cat_segs(out, mk_alt(a.args[0]))
            elif a.kind == 'each' and a.args[0].kind == 'range' and a.args[0].args[:2] == (ZERO, ZERO):
                continue
            elif a.kind == 'each':
                out = cat_segs(out, mk_each(a.args[0], a.args[1], a.args[2].args))
            elif a.kind == 'segs':
                out = cat_segs(out, a.args)
            elif a.kind == 'splat' and a.args[0].kind == 'list' and a.args[0].args[0].kind == 'segs':
                out = cat_segs(out, a.args[0].args[0].args)
            else:
                out = cat_segs(out, (a,))
        return T('segs', *out)
    if kind == 'len' and args[0].kind == 'range' and len(args[0].args) == 2 and args[0].args[0] is ZERO:
        return args[0].args[1]
    if kind in ('len', 'nonempty') and args[0].kind in ('dict', 'list') and args[0].args and args[0].args[0].kind == 'segs' \
            and len(args[0].args[0].args) == 1 and args[0].args[0].args[0].kind == 'splat':
        return rebuild(kind, (args[0].args[0].args[0].args[0],))
    if kind == 'len' and args[0].kind == 'list' and args[0].args[0].kind == 'segs' \
            and all(x.kind == 'item' for x in args[0].args[0].args):
        return const(len(args[0].args[0].args))
    if kind == 'nonempty' and args[0].kind in ('list', 'set', 'dict') and args[0].args \
            and args[0].args[0].kind == 'segs':
        if not args[0].args[0].args:
            return FALSE
        if any(x.kind in ('item', 'put') for x in args[0].args[0].args):
            return TRUE
    return T(kind, *args)


def subst(t, m, memo=None):
    """replace terms by terms, re-normalising on the way up"""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.kind in BINDERS and isinstance(t.args[0], Term):
        bound = [k for k in (T('elem', t.args[0], t.args[1]), T('idx', t.args[0], t.args[1])) if k in m]
        if bound:
            d = subst(t.args[0], m, memo)
            m2 = {k: v for k, v in m.items() if k not in bound}
            rest = [subst(a, m2) if isinstance(a, Term) else a for a in t.args[1:]] if m2 else list(t.args[1:])
            r = rebuild(t.kind, [d] + rest)
            memo[t] = r
            return r
    charge()
    ch = False
    na = []
    for a in t.args:
        if isinstance(a, Term):
            b = subst(a, m, memo)
            ch = ch or b is not a
            na.append(b)
        else:
            na.append(a)
    r = rebuild(t.kind, na) if ch else t
    memo[t] = r
    return r


BINDERS = {'each', 'any', 'until', 'first', 'firstidx', 'fold', 'foldc', 'lastof'}

VIEW_FIELDS = {'traces', 'raw_events', 'payload'}


def t_attr(base, name):
    if base.kind == 'ite' and not is_cond(base):
        return ite(base.args[0], t_attr(base.args[1], name), t_attr(base.args[2], name))
    if name in VIEW_FIELDS and base.kind in ('sym', 'attr', 'elem', 'sub', 'slice', 'call', 'vcall', 'app', 'phi', 'prev', 'fold', 'acc'):
        return base
    if base.kind == 'enum' and name == 'name':
        return const(base.args[1])
    return T('attr', base, name)


def stretch(S):
    """a part of a sequence between fixed distances from its ends: the sequence, the first place, how many"""
    if S.kind != 'slice':
        return None
    b, lo, hi = S.args
    if lo.kind != 'const' or type(lo.args[0]) is not int or lo.args[0] < 0:
        return None
    n = T('len', b)
    if hi.kind == 'const':
        if type(hi.args[0]) is not int or hi.args[0] >= 0:
            return None
        hi = t_add(n, hi)
    elif hi is not n:
        k = t_sub(n, hi)
        if k.kind != 'const' or type(k.args[0]) is not int or k.args[0] < 0:
            return None
    return b, lo, t_sub(hi, lo)


def picked(kind, key, s):
    """looking a key up among the entries a loop over something makes, each under the element itself"""
    d, lv, body = s.args
    if len(body.args) != 1:
        return None
    b = body.args[0]
    tree = b.args[0] if b.kind == 'alt' else body
    el, ix = T('elem', d, lv), T('idx', d, lv)
    by_place = key.kind == 'idx' and key.args[0] is d
    for l in leaves(tree):
        if l.kind != 'segs' or len(l.args) > 1 or l.args and (l.args[0].kind != 'put' or
                                                              l.args[0].args[0] is not (ix if by_place else el)):
            return None
    if key.kind == 'best' and key.args[1].args[0] is d and not contains(tree, ix):
        # the element chosen is one of those the loop made an entry for
        got = {l for l in leaves(tree) if l.args}
        if len(got) == 1:
            return TRUE if kind == 'in' else subst(got.pop().args[0].args[1], {el: key})
    if by_place:
        tree = subst(tree, {el: T('elem', d, key.args[1]), ix: key})
        if kind == 'in':
            return mapleaves(tree, lambda l: TRUE if l.args else FALSE)
        no = T('sub', T('dict', T('segs', s)), key)
        return mapleaves(tree, lambda l: l.args[0].args[1] if l.args else no)
    if contains(tree, ix):
        return None
    here = rebuild('in', (key, d)) if not (key.kind == 'elem' and key.args[0] is d) else TRUE
    tree = subst(tree, {el: key})
    if kind == 'in':
        return land(here, mapleaves(tree, lambda l: TRUE if l.args else FALSE))
    no = T('sub', T('dict', T('segs', s)), key)
    return mapleaves(tree, lambda l: l.args[0].args[1] if l.args else no)


def seen_through(kind, key, d):
    """looking a key up in a dict of known last entries"""
    if d.kind != 'dict' or not d.args or d.args[0].kind != 'segs':
        return None
    sg = d.args[0].args
    n = len(sg)
    while n and sg[n - 1].kind == 'put':
        if sg[n - 1].args[0] is key:
            return TRUE if kind == 'in' else sg[n - 1].args[1]
        if not distinct(sg[n - 1].args[0], key):
            return None
        n -= 1
    if n == 1 and sg[0].kind == 'splat':
        src = sg[0].args[0]
        return rebuild('in', (key, src)) if kind == 'in' else t_item(src, key)
    if n == 1 and sg[0].kind == 'each':
        r = picked(kind, key, sg[0])
        if r is not None:
            return r
    if n == len(sg) or not n:
        return None
    rest = T('dict', T('segs', *sg[:n]))
    return T('in', key, rest) if kind == 'in' else T('sub', rest, key)


def t_item(base, key):
    if base.kind == 'ite' and not is_cond(base):
        return ite(base.args[0], t_item(base.args[1], key), t_item(base.args[2], key))
    if key.kind == 'ite' and not is_cond(key):
        return ite(key.args[0], t_item(base, key.args[1]), t_item(base, key.args[2]))
    if base.kind == 'dict':
        r = seen_through('sub', key, base)
        if r is not None:
            return r
    if base.kind == 'tup' and key.kind == 'const' and isinstance(key.args[0], int):
        try:
            return base.args[key.args[0]]
        except IndexError:
            return unk('tuple index')
    if key.kind == 'idx' and key.args[0] is base:
        return T('elem', base, key.args[1])
    if key.kind == 'idx' and base.kind == 'list' and base.args and base.args[0].kind == 'segs' and len(base.args[0].args) == 1:
        s = base.args[0].args[0]
        if s.kind == 'each' and s.args[0] is key.args[0] and len(s.args[2].args) == 1 and s.args[2].args[0].kind == 'item':
            d, lv, body = s.args
            return subst(body.args[0].args[0], {T('elem', d, lv): T('elem', d, key.args[1]), T('idx', d, lv): key})
    # a list of tuples etc. given as a reified literal
    if base.kind == 'list' and key.kind == 'const' and isinstance(key.args[0], int) and base.args:
        segs = base.args[0].args if base.args[0].kind == 'segs' else ()
        if all(s.kind == 'item' for s in segs):
            try:
                return segs[key.args[0]].args[0]
            except IndexError:
                return unk('list index')
    return T('sub', base, key)


# ---------------------------------------------------------------- printing

def show(t, depth=8):
    if not isinstance(t, Term):
        return repr(t)
    if depth <= 0:
        return '…'
    k, a = t.kind, t.args
    s = lambda x: show(x, depth - 1)
    if k == 'const':
        return repr(a[0])
    if k == 'sym':
        return '$' + a[0]
    if k == 'attr':
        return s(a[0]) + '.' + str(a[1])
    if k == 'sub':
        return s(a[0]) + '[' + s(a[1]) + ']'
    if k == 'elem':
        return 'each(' + s(a[0]) + ('' if a[1] == 0 else "'" * a[1]) + ')'
    if k == 'ite':
        if a[1] is FALSE and a[2] is TRUE:
            return 'not ' + s(a[0])
        return '(' + s(a[1]) + ' if ' + s(a[0]) + ' else ' + s(a[2]) + ')'
    if k == 'enum':
        return a[0] + '.' + a[1]
    if k == 'eq':
        return s(a[0]) + ' == ' + s(a[1])
    if k == 'lt':
        return s(a[0]) + ' < ' + s(a[1])
    if k == 'is':
        return s(a[0]) + ' is ' + s(a[1])
    if k == 'in':
        return s(a[0]) + ' in ' + s(a[1])
    if k == 'segs':
        return '[' + ', '.join(s(x) for x in a) + ']'
    if k == 'item':
        return s(a[0])
    if k == 'each':
        return 'for-each ' + s(a[0]) + ': ' + s(a[2])
    return k + '(' + ', '.join(s(x) for x in a) + ')'


# libraries whose functions only compute on data; what they give, unless modelled, may be written in other ways
DATA_LIBS = {'itertools', 'functools', 'operator', 'collections', 'more_itertools', 'heapq', 'bisect', 'dataclasses',
             'types', 'contextlib', 're', 'string', 'statistics', 'dict', 'str', 'int', 'list', 'set', 'frozenset', 'float'}
BUILTINS = set(dir(__import__('builtins'))) - {'print', 'open', 'input', 'exec', 'eval', 'exit', 'quit', 'id', 'round'}


def unmodelled(x):
    """the result of a library function that is not interpreted"""
    return x.kind == 'call' and isinstance(x.args[0], str) and (
        x.args[0] in BUILTINS and not x.args[0].endswith('Error') and not x.args[0].endswith('Exception') or
        '.' in x.args[0] and x.args[0].split('.')[0] in DATA_LIBS)
