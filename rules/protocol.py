"""C11: the generated client stubs speak the protocol the backend is compiled from."""
import ast
import os
import re
from .common import *

MODELS = 'src/python/ficus/grpc_pipelines/models'
TYPES = {1: 'double', 2: 'float', 3: 'int64', 4: 'uint64', 5: 'int32', 6: 'fixed64', 7: 'fixed32', 8: 'bool',
         9: 'string', 12: 'bytes', 13: 'uint32', 15: 'sfixed32', 16: 'sfixed64', 17: 'sint32', 18: 'sint64'}


def varint(b, i):
    r = s = 0
    while True:
        c = b[i]
        i += 1
        r |= (c & 127) << s
        s += 7
        if c < 128:
            return r, i


def decode(b):
    """fields of a serialized message: number -> values"""
    out, i = {}, 0
    while i < len(b):
        k, i = varint(b, i)
        n, w = k >> 3, k & 7
        if w == 0:
            v, i = varint(b, i)
        elif w == 2:
            ln, i = varint(b, i)
            v, i = b[i:i + ln], i + ln
        elif w == 5:
            v, i = b[i:i + 4], i + 4
        elif w == 1:
            v, i = b[i:i + 8], i + 8
        else:
            raise ValueError('wire type %d' % w)
        out.setdefault(n, []).append(v)
    return out


def name(d, n=1):
    return d[n][0].decode() if n in d else ''


def local(t):
    return t.split('.')[-1]


def descriptor(blob):
    """messages, enums and services of a serialized file descriptor"""
    f = decode(blob)
    msgs, enums, services = {}, {}, {}

    def message(m):
        m = decode(m)
        oneofs = [name(decode(o)) for o in m.get(8, ())]
        fields = {}
        for fd in m.get(2, ()):
            fd = decode(fd)
            ty = fd.get(5, [0])[0]
            # proto3 optional fields sit in a synthetic oneof (field 17)
            one = oneofs[fd[9][0]] if 9 in fd and not fd.get(17, [0])[0] else None
            fields[name(fd)] = (fd[3][0], TYPES.get(ty) or local(name(fd, 6)), fd.get(4, [1])[0] == 3, one)
        msgs[name(m)] = fields
        for x in m.get(3, ()):
            message(x)
        for x in m.get(4, ()):
            enum(x)

    def enum(e):
        e = decode(e)
        enums[name(e)] = {name(decode(v)): decode(v).get(2, [0])[0] for v in e.get(2, ())}

    for m in f.get(4, ()):
        message(m)
    for e in f.get(5, ()):
        enum(e)
    for s in f.get(6, ()):
        s = decode(s)
        services[name(s)] = {name(decode(r)): (local(name(decode(r), 2)), bool(decode(r).get(5, [0])[0]),
                                               local(name(decode(r), 3)), bool(decode(r).get(6, [0])[0]))
                             for r in s.get(2, ())}
    return msgs, enums, services, name(f, 2)


def rpc(seg):
    """( [stream] A ) returns ( [stream] B )"""
    t = [x for x in seg if x not in '()']
    i = t.index('returns')
    a, b = t[:i], t[i + 1:]
    return local(a[-1]), 'stream' in a[:-1], local(b[-1]), 'stream' in b[:-1]


def c11(run):
    protos = run.prog.protos
    if len(protos) < 20:
        raise AnalysisError('protocol definitions are gone')
    files = sorted({p['file'] for p in protos.values()})
    gm, ge, gs, where = {}, {}, {}, {}
    for f in files:
        path = os.path.join(run.repo, MODELS, f + '_pb2.py')
        if not os.path.exists(path):
            raise AnalysisError('generated module %s is gone' % path)
        with open(path) as h:
            tree = ast.parse(h.read())
        blobs = [n.args[0].value for n in ast.walk(tree) if isinstance(n, ast.Call) and
                 isinstance(n.func, ast.Attribute) and n.func.attr == 'AddSerializedFile' and n.args and
                 isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, bytes)]
        if len(blobs) != 1:
            raise AnalysisError('no serialized descriptor in %s' % path)
        try:
            m, e, s, pkg = descriptor(blobs[0])
        except (ValueError, IndexError, KeyError) as x:
            run.bad('descriptor', f, MODELS + '/' + f + '_pb2.py', 'the serialized descriptor is corrupt: %r' % (x,))
            continue
        for n in list(m) + list(e) + list(s):
            where[n] = MODELS + '/' + f + '_pb2.py'
        gm.update(m)
        ge.update(e)
        gs.update(s)
    for n, p in sorted(protos.items()):
        if n.startswith('enum '):
            k = n[5:]
            got = ge.get(k)
            if got == p['values']:
                run.ok('enum', k, where[k], '%d values' % len(got))
            else:
                run.bad('enum', k, where.get(k, p['file']), 'generated %s, protocol %s' % (got, p['values']))
        elif n.startswith('service '):
            k = n[8:]
            for r, seg in sorted(p['rpcs'].items()):
                want = rpc(seg)
                got = gs.get(k, {}).get(r)
                if got == want:
                    run.ok('rpc', k + '.' + r, where[k], '%s -> %s' % (want[0], want[2]))
                else:
                    run.bad('rpc', k + '.' + r, where.get(k, p['file']), 'generated %s, protocol %s' % (got, want))
            stubs(run, k, {r: rpc(seg) for r, seg in p['rpcs'].items()})
        else:
            got = gm.get(n)
            if got is None:
                run.bad('message', n, p['file'] + '.proto', 'no generated class for message %s' % n)
                continue
            want = {f: wire_type(d) for f, d in p['fields'].items()}
            for f in sorted(set(want) | set(got)):
                if want.get(f) == got.get(f):
                    run.ok('field', n + '.' + f, where[n], 'number %d, %s' % want[f][:2])
                else:
                    run.bad('field', n + '.' + f, where[n], 'generated code has %s, the protocol %s' % (
                        got.get(f, 'no such field'), want.get(f, 'no such field')))
    for n in sorted(set(gm) - set(protos)):
        run.bad('message', n, where[n], 'generated message %s is not in the protocol' % n)
    run.notes.append('%d messages' % len(gm))


def wire_type(d):
    return d['number'], local(d['type']), d['label'] == 'repeated', d['oneof']


def stubs(run, service, rpcs):
    """client stub methods: path, shape and message types"""
    path = MODELS + '/backend_service_pb2_grpc.py'
    try:
        with open(os.path.join(run.repo, path)) as h:
            tree = ast.parse(h.read())
    except OSError:
        raise AnalysisError('generated stubs %s are gone' % path)
    found = {}
    for c in tree.body:
        if isinstance(c, ast.ClassDef) and c.name == service + 'Stub':
            for n in ast.walk(c):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.targets[0], ast.Attribute) \
                        and isinstance(n.value.func, ast.Attribute) and n.value.args and \
                        isinstance(n.value.args[0], ast.Constant):
                    kw = {k.arg: ast.unparse(k.value).split('.')[-2:] for k in n.value.keywords}
                    found[n.targets[0].attr] = (n.value.args[0].value, n.value.func.attr, kw)
    if not found:
        raise AnalysisError('client stub of %s is gone' % service)
    for r, (a, sa, b, sb) in sorted(rpcs.items()):
        want = ('/ficus.%s/%s' % (service, r), '%s_%s' % ('stream' if sa else 'unary', 'stream' if sb else 'unary'),
                {'request_serializer': [a, 'SerializeToString'], 'response_deserializer': [b, 'FromString']})
        g = found.get(r)
        if g and (g[0], g[1]) == want[:2] and all(g[2].get(k) == v for k, v in want[2].items()):
            run.ok('stub', service + '.' + r, path, '%s as %s' % want[:2])
        else:
            run.bad('stub', service + '.' + r, path, 'the stub has %s, the protocol %s' % (g, want))
