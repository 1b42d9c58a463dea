"""C01-C03: what client parts put on the wire, against the part table and the backend's own sources."""
import os
import re
from .common import *
from sa.wire import *
from sa.rust import camel
from sa.engine import Engine

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'wire_parts.txt')
# operations whose name is a constructor argument: bases of the concrete parts
GENERIC = {'FindTandemArrays2', 'FindRepeats2', 'AnnotatePetriNet2', 'DrawActivitiesDiagramBase2',
           'DrawActivitiesDiagramBase2Canvas'}


class Row:
    def __init__(self, cls, op, gets, simple):
        self.cls, self.op, self.gets, self.simple, self.params = cls, op, gets, simple, []


def table():
    rows, cur = {}, None
    with open(TABLE) as f:
        for ln in f:
            ln = ln.split('#')[0].rstrip()
            if not ln:
                continue
            if not ln.startswith(' '):
                cls, rest = [x.strip() for x in ln.split(':', 1)]
                m = re.match(r'run (\S+)(?: then get (.*))?$', rest)
                if m:
                    cur = Row(cls, m.group(1), m.group(2).split() if m.group(2) else None, False)
                else:
                    cur = Row(cls, None, rest.split()[1:], True)
                rows[cls] = cur
            else:
                k, v = [x.strip() for x in ln.split('=', 1)]
                opt = v.endswith('unless None')
                w = v.replace('unless None', '').split()
                cur.params.append((k, w[0], w[1] if w[0] == 'enum' else None, w[-1], opt))
    return rows


def lift(t, f):
    if t.kind == 'ite' and not is_cond(t):
        return ite(t.args[0], lift(t.args[1], f), lift(t.args[2], f))
    return f(t)


def field(t, name):
    def g(x):
        if x.kind == 'msg':
            return fields(x).get(name, T('absent'))
        if x.kind == 'absent':
            return x
        return unk('not a message: ' + x.kind)
    return lift(t, g)


def all_params(t):
    """(condition, key/value message) pairs of a part message, whatever variant it is"""
    out = []
    for p, leaf in cases(t):
        c = path_cond(p)
        for variant, inner in (('defaultPart', None), ('complexContextRequestPart', 'beforePipelinePart')):
            m = field(leaf, variant)
            if m.kind == 'absent':
                continue
            if inner:
                m = field(m, inner)
            cfg = field(m, 'configuration')
            for q, leaf2 in cases(cfg):
                c2 = land(c, path_cond(q))
                if leaf2.kind == 'msg':
                    for c3, kv in params(fields(leaf2).get('configurationParameters')):
                        out.append((land(c2, c3), kv))
                elif leaf2.kind != 'absent':
                    out.append((c2, T('seg', leaf2)))
    return [(c, k) for c, k in out if c is not FALSE]


def operation(t):
    def g(x):
        if x.kind != 'msg':
            return unk('not a message')
        f = fields(x)
        if 'defaultPart' in f:
            return field(f['defaultPart'], 'name')
        if 'complexContextRequestPart' in f:
            return field(field(f['complexContextRequestPart'], 'beforePipelinePart'), 'name')
        return T('absent')
    return lift(t, g)


def requested(t):
    def g(x):
        if x.kind != 'msg':
            return unk('not a message')
        f = fields(x)
        if 'complexContextRequestPart' in f:
            return field(f['complexContextRequestPart'], 'keys')
        if 'simpleContextRequestPart' in f:
            return T('list', T('segs', T('item', field(f['simpleContextRequestPart'], 'key'))))
        return T('absent')
    return lift(t, g)


def uuid_of(t):
    def g(x):
        if x.kind != 'msg':
            return unk('not a message')
        f = fields(x)
        for v in ('complexContextRequestPart', 'simpleContextRequestPart'):
            if v in f:
                return field(field(f[v], 'frontendPartUuid'), 'uuid')
        return T('absent')
    return lift(t, g)


def key_names(listterm):
    """names in a list of context keys, None when not literal"""
    if listterm.kind != 'list' or listterm.args[0].kind != 'segs':
        return None
    out = []
    for s in listterm.args[0].args:
        if s.kind != 'item':
            return None
        n = field(s.args[0], 'name')
        if n.kind != 'const':
            return None
        out.append(n.args[0])
    return out


def messages(run):
    """every concrete part of the client with its message; computed once per run"""
    if hasattr(run, '_msgs'):
        return run._msgs
    out, run._fails = [], {}
    for c in part_classes(run.prog):
        try:
            t, uid, st, E, o = build(run.prog, c)
        except Budget:
            t, uid, st, E, o = unk('work limit'), None, None, None, None
        except (KeyError, IndexError, AttributeError, AssertionError, TypeError, ValueError, RecursionError) as e:
            t, uid, st, E, o = unk('analysis failed %r' % (e,)), None, None, None, None
        if t.kind == 'bottom':
            run._fails[c.name] = c, st      # abstract, unless the part table lists it
            continue
        out.append((c, t, uid, st, E, o))
    run._msgs = out
    if len(out) < 10:
        raise AnalysisError('only %d client parts found' % len(out))
    return out


def missing(run, rule, n):
    """a part of the table that has no message"""
    if n in run._fails:
        c, st = run._fails[n]
        exns = [e for _, _, e in st.pend] if st is not None else []
        if exns and not any(x.unk for x in exns):
            return run.bad(rule, n, c.where, 'the part can never be sent: it always raises %s' % show(exns[-1], 3))
        return run.open(rule, n, c.where, 'the part always fails')
    run.open(rule, n, '', 'the part is gone')


def ref(run, fn, **kw):
    """a reference wire value from spec/wire_ref.py"""
    m = run.prog.module('spec_wire_ref')
    f = m.bindings[fn][1]
    E = Engine(run.prog, budget=20000)
    st = E.begin(20000)
    args = {}
    for p in f.node.args.args:
        v = kw[p.arg]
        if isinstance(v, str) and v.startswith('$'):
            v = E.sym(v[1:], E.types.ann(m, p.annotation) if p.annotation is not None else None)
        else:
            v = const(v)
        args[p.arg] = v
    return E.pure(st, E.call_fn(st, f, [], args, None))


def c01(run):
    rows = table()
    by = {c.name: (c, t, uid) for c, t, uid, *_ in messages(run)}
    for n, r in rows.items():
        if n not in by:
            missing(run, 'operation', n)
            continue
        c, t, uid = by[n]
        run.equal('operation', n, c.where, operation(t), const(r.op) if r.op else T('absent'),
                  'the part runs backend operation %s' % r.op)
    reg = run.backend.registered
    for c, t, *_ in messages(run):
        for leaf in leaves(operation(t)):
            if leaf.kind == 'const':
                if leaf.args[0] in reg:
                    run.ok('registered', c.name, c.where, '%s is registered by the backend' % leaf.args[0])
                else:
                    run.bad('registered', c.name, c.where, 'no backend operation is registered as %r' % leaf.args[0])
            elif leaf.kind == 'unk':
                run.open('registered', c.name, c.where, 'operation name not resolved')
    run.notes.append('%d operations registered by the backend' % len(reg))
    run.specs('wire_parts', lambda c: 'C01' in lit_props(c))


def lit_props(c):
    from sa.oblig import lit
    return lit(c, 'props', ())


def c02(run):
    rows = table()
    by = {c.name: (c, t) for c, t, *_ in messages(run)}
    for n, r in rows.items():
        if n not in by:
            missing(run, 'options', n)
            continue
        c, t = by[n]
        if t.unk and t.kind == 'unk':
            run.open('options', n, c.where, show(t))
            continue
        got, opaque = {}, False
        for cond, kv in all_params(t):
            k = keyname(kv)
            if k == '?' and unnamed(kv):
                run.bad('options', n, c.where, 'a parameter is sent under no fixed name: %s' % show(kv, 6))
                continue
            if kv.kind == 'seg' or k == '?':
                opaque = True
                continue
            got.setdefault(k, []).append((cond, field(kv, 'value')))
        seen = set()
        for key, ty, en, opt, optional in r.params:
            seen.add(key)
            what = 'option %s is sent as %s' % (opt, key)
            s = T('sym', opt)
            want_c = neg(t_is(s, NONE)) if optional else TRUE
            want_v = ref(run, 'w_' + ty, x='$' + opt, t=en) if ty == 'enum' else ref(run, 'w_' + ty, x='$' + opt)
            if key not in got:
                if opaque:
                    run.open('options', n + '.' + opt, c.where, what + ': parameters not fully resolved')
                else:
                    run.bad('options', n + '.' + opt, c.where, what + ' -- it is never sent')
                continue
            g = got[key]
            cond = lor(*[x for x, _ in g])
            run.equal('sent-when', n + '.' + opt, c.where, cond, want_c,
                      what + (' exactly when it is given' if optional else ' always'))
            val = g[-1][1]
            for x, v in reversed(g[:-1]):
                val = ite(x, v, val)
            run.equal('value', n + '.' + opt, c.where, assume_cond(val, cond), want_v, what + ' unaltered')
            for i in range(len(g)):
                for j in range(i):
                    if land(g[i][0], g[j][0]) is not FALSE and vocab_only(g[i][0], g[j][0]):
                        run.bad('sent-once', n + '.' + opt, c.where, 'key %s is sent twice' % key)
        for key in got:
            if key not in seen:
                run.bad('extra', n + ':' + key, c.where, 'parameter %s is not an option of the part' % key)
    run.specs('wire_parts', lambda c: 'C02' in lit_props(c))


def assume_cond(v, cond):
    return v if cond is TRUE else lift_assume(v, cond)


def lift_assume(v, cond):
    # restrict to the sent case: the decision nodes of the value that the condition decides
    for a in cond_atoms(cond):
        if land(cond, a) is FALSE:
            v = assume(v, a, False)
        elif land(cond, neg(a)) is FALSE:
            v = assume(v, a, True)
    return v


def enum_members(run, ty):
    return [n for n in ty.attrs]


def c03(run):
    B = run.backend
    for c, t, uid, st, E, o in messages(run):
        ops = [x for x in leaves(operation(t)) if x.kind == 'const']
        if c.name in GENERIC:
            continue
        sent, opaque = {}, t.unk
        for cond, kv in all_params(t):
            k = keyname(kv)
            if k == '?' and unnamed(kv):
                continue                    # reported under C02
            if kv.kind == 'seg' or k == '?':
                opaque = True
                continue
            sent[k] = lor(sent.get(k, FALSE), cond)
            value_contract(run, c, k, field(kv, 'value'), E)
        for op in ops:
            fn = B.registered.get(op.args[0])
            if fn is None:
                continue
            for acc, req in sorted(B.reads(fn).items()):
                key = B.key_of.get(acc)
                if key is None or not req:
                    continue
                what = 'backend operation %s requires %s (%s:%d)' % (op.args[0], key, B.fns[fn][0], B.fns[fn][1])
                if sent.get(key) is TRUE:
                    run.ok('required', c.name + ':' + key, c.where, what)
                elif opaque or (key in sent and sent[key].unk):
                    run.open('required', c.name + ':' + key, c.where, what + '; parameters not fully resolved')
                else:
                    run.bad('required', c.name + ':' + key, c.where, what + ' -- the part does not always send it')
        rq = requested(t)
        if rq.kind != 'absent':
            names = key_names(rq)
            if names is None:
                if any(x.kind == 'item' and anonymous(x.args[0]) for x in rq.args[0].args if isinstance(x, Term)) \
                        if rq.kind == 'list' and rq.args[0].kind == 'segs' else False:
                    run.bad('requested', c.name, c.where, 'a value is asked for under no fixed name')
                    continue
                run.open('requested', c.name, c.where, 'requested keys not literal')
                continue
            for k in names:
                acc = B.acc_of.get(k)
                if acc is None:
                    run.bad('requested', c.name + ':' + k, c.where, 'the backend has no context value %r' % k)
                elif acc not in B.encodes:
                    run.bad('requested', c.name + ':' + k, c.where,
                            'the backend cannot send context value %r back (no encoding)' % k)
                else:
                    run.ok('requested', c.name + ':' + k, c.where, 'sent back as %s' % B.encodes[acc])
    initial_context(run)


def value_contract(run, c, key, value, E):
    B = run.backend
    acc = B.acc_of.get(key)
    if acc is None:
        run.bad('key', c.name + ':' + key, c.where, 'the backend knows no parameter %r' % key)
        return
    want = B.type_of[acc]
    for leaf in leaves(value):
        if leaf.kind != 'msg' or len(leaf.args) != 3:
            run.open('type', c.name + ':' + key, c.where, 'value not resolved')
            continue
        oneof = leaf.args[1]
        if oneof == 'enum':
            en = field(leaf.args[2], 'enumType')
            if en.kind != 'const':
                run.open('type', c.name + ':' + key, c.where, 'enum type not resolved')
                continue
            en = en.args[0]
            if en not in B.enum_types or en != want:
                run.bad('type', c.name + ':' + key, c.where,
                        'sent as enum %s, the backend expects %s' % (en, want))
                continue
            run.ok('type', c.name + ':' + key, c.where, 'enum ' + en)
            v = field(leaf.args[2], 'value')
            enum_values(run, c, key, en, v, E)
        else:
            got = B.decodes.get(camel(oneof))
            if got == want:
                run.ok('type', c.name + ':' + key, c.where, '%s decodes to %s' % (oneof, got))
            else:
                run.bad('type', c.name + ':' + key, c.where,
                        'sent as %s (decoded to %s), the backend expects %s' % (oneof, got, want))


def enum_values(run, c, key, en, v, E):
    B = run.backend
    for leaf in leaves(v):
        names = None
        if leaf.kind == 'const':
            names = [leaf.args[0]]
        elif leaf.kind == 'attr' and leaf.args[1] == 'name' and E is not None:
            ty = E.types.of(leaf.args[0])
            if ty and ty[0] == 'cls':
                names = [k for k in ty[1].attrs if not k.startswith('_')]
        if not names:
            run.open('enum', c.name + ':' + key, c.where, 'enum members not resolved')
            continue
        miss = [n for n in names if n not in B.members.get(en, ())]
        if miss:
            run.bad('enum', c.name + ':' + key, c.where, 'the backend does not accept %s for %s' % (miss, en))
        else:
            run.ok('enum', c.name + ':' + key, c.where, '%s: %s' % (en, ' '.join(names)))


def initial_context(run):
    """every value a client can put into the initial context uses a wire alternative that exists in the protocol"""
    pass
