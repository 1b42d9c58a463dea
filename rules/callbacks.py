"""C04: a part that reads context values back asks for exactly what it reads, under its own identity."""
from .common import *
from .wire import messages, requested, uuid_of, key_names, GENERIC
from sa.wire import *
from sa.rust import camel
from sa.summary import finish


def reads(run, c, E, st, o):
    """the context values a callback reads: name -> alternatives, names that are not literal, what it does"""
    m = run.prog.lookup(c, 'execute_callback')
    ann = m[1].node.args.args[1].annotation
    vals = E.sym('values', E.types.ann(m[1].module, ann) if ann is not None else None)
    v = E.call_method(st, o, 'execute_callback', [vals], {}, None)
    s = finish(E, st, v)
    t = T('summary', s.ret, s.trace, s.raises)
    got, odd, parents = {}, [], {}
    subs = list(subterms(t))
    for x in subs:
        for a in x.args:
            if isinstance(a, Term):
                parents.setdefault(a, set()).add(x)
    for x in subs:
        if x.kind in ('sub', 'getor') and x.args[0] is vals:
            k = x.args[1]
            if k.kind != 'const':
                odd.append(k)
                continue
            g = got.setdefault(k.args[0], set())
            g.update(p.args[1] for p in parents.get(x, ()) if p.kind == 'attr')
    return got, odd, s


def c04(run):
    B = run.backend
    base = run.prog.find_class('PipelinePart2WithCallback')
    if base is None:
        raise AnalysisError('PipelinePart2WithCallback is gone')
    n = 0
    for c, t, uid, st, E, o in messages(run):
        rq = requested(t)
        if not any(x is base for x in run.prog.mro(c)):
            if rq.kind != 'absent' and not rq.unk:
                run.bad('reads-back', c.name, c.where, 'context values are requested but the part has no callback')
            continue
        n += 1
        if st is None:
            run.open('reads-back', c.name, c.where, 'message not resolved')
            continue
        if rq.kind == 'absent':
            run.bad('reads-back', c.name, c.where, 'the part has a callback but requests no context value')
            continue
        names = key_names(rq)
        run.equal('identity', c.name, c.where, uuid_of(t), T('str', uid),
                  'values are sent back under the identity of the part')
        try:
            got, odd, s = reads(run, c, E, st, o)
        except Budget:
            run.open('requests', c.name, c.where, 'work limit')
            continue
        except AnalysisError:
            raise
        except Exception as e:
            run.open('requests', c.name, c.where, 'analysis failed %r' % (e,))
            continue
        if c.name in GENERIC:
            continue
        if names is None:
            run.open('requests', c.name, c.where, 'requested keys not literal')
            continue
        if odd:
            run.open('requests', c.name, c.where, 'a value is read by a name that is not literal')
        for k, alts in sorted(got.items()):
            if k in names:
                run.ok('requests', c.name + ':' + k, c.where, 'the callback reads %s, which is requested' % k)
            else:
                run.bad('requests', c.name + ':' + k, c.where, 'the callback reads %s but only %s is requested' % (
                    k, ', '.join(names)))
            enc = B.encodes.get(B.acc_of.get(k))
            for f in sorted(alts):
                if enc is None:
                    continue                    # reported under C03
                if camel(f) == enc:
                    run.ok('alternative', c.name + ':' + k, c.where, '%s is read as %s, as the backend sends it' % (k, f))
                else:
                    run.bad('alternative', c.name + ':' + k, c.where,
                            '%s is read as %s but the backend sends it as %s' % (k, f, enc))
        for k in names:
            if k not in got and not odd and not s.trace.unk and not s.ret.unk:
                run.bad('requests', c.name + ':' + k, c.where, 'the callback never reads %s, which it requests' % k)
    if n < 5:
        raise AnalysisError('only %d parts with callbacks found' % n)


def c05(run):
    """every part whose identity or nested pipeline is in the message of a part is registered with it"""
    n = 0
    for c, t, uid, st, E, o in messages(run):
        if st is None or c.name in GENERIC:
            continue
        try:
            acc = E.new_list(st, (), 'list')
            E.call_method(st, o, 'append_parts_with_callbacks', [acc], {}, None)
            content = st.heap[acc.args[0]].content
            ids, doms, odd = registered(E, st, content)
        except (Budget, KeyError, IndexError, AttributeError, TypeError, RecursionError) as e:
            run.open('registers', c.name, c.where, 'not resolved: %r' % (e,))
            continue
        want_ids, want_doms = set(), {}
        for x in subterms(t):
            if x.kind == 'msg' and x.args[0] == 'GrpcUuid':
                u = fields(x).get('uuid')
                if u is not None and u.kind == 'str':
                    want_ids.add(u.args[0])
            if x.kind == 'vcall' and x.args[1] == 'to_grpc_part' and x.args[0].kind == 'elem':
                want_doms[x.args[0].args[0]] = True
        for u in sorted(want_ids, key=lambda z: z.dig):
            n += 1
            own = 'its own callback' if u is uid else 'the callback of a part it contains'
            if ids.get(u) is TRUE:
                run.ok('registers', c.name + ('' if u is uid else ':inner'), c.where, own + ' is registered')
            elif odd:
                run.open('registers', c.name, c.where, 'registered parts not resolved')
            else:
                run.bad('registers', c.name + ('' if u is uid else ':inner'), c.where, own + ' is not registered')
        for d in sorted(want_doms, key=lambda z: z.dig):
            n += 1
            if d in doms and always(doms[d], d):
                run.ok('registers-nested', c.name, c.where, 'callbacks of the nested pipeline %s are registered' % show(d))
            elif odd:
                run.open('registers-nested', c.name, c.where, 'registered parts not resolved')
            else:
                run.bad('registers-nested', c.name, c.where,
                        'callbacks of the nested pipeline %s are not registered' % show(d))
        if not want_ids and not want_doms and (ids or doms):
            run.bad('registers', c.name, c.where, 'a part that asks for no value is registered for callbacks')
    if not n:
        raise AnalysisError('only %d registrations expected, the parts are gone' % n)


def registered(E, st, content, c=TRUE):
    """identities and nested part lists registered, each with its condition"""
    ids, doms, odd = {}, {}, False

    def put(m, k, cond):
        m[k] = lor(m.get(k, FALSE), cond)
    for s in content:
        if s.kind == 'item':
            put(ids, E.pure(st, E.get_attr(st, s.args[0], 'uuid')), c)
        elif s.kind == 'splat' and s.args[0].kind == 'appended':
            r = s.args[0].args[0]
            if r.kind == 'elem':
                put(doms, r.args[0], c)
            else:
                odd = True
        elif s.kind == 'each':
            body = s.args[2].args
            el = T('elem', s.args[0], s.args[1])
            if any(b.kind == 'splat' and b.args[0].kind == 'appended' and b.args[0].args[0] is el for b in body):
                put(doms, s.args[0], c)
            elif all(b.kind == 'alt' for b in body):
                pass                # not for every part
            else:
                odd = True
        elif s.kind == 'alt':
            for p, leaf in cases(s.args[0]):
                i, d, o = registered(E, st, leaf.args, land(c, path_cond(p)))
                for k, v in i.items():
                    put(ids, k, v)
                for k, v in d.items():
                    put(doms, k, v)
                odd = odd or o
        else:
            odd = True
    return ids, doms, odd


def always(cond, dom):
    """the condition holds whenever there is a nested pipeline"""
    if cond is TRUE:
        return True
    for x in subterms(dom):
        if x.kind in ('sym', 'attr') and land(neg(cond), neg(t_is(x, NONE))) is FALSE:
            return True
    return False
