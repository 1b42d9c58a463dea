"""Event, trace and log containers."""
import copy
from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
from ficus.legacy.util import deep_copy_dict, increase_in_int_map


class CopyEvent:
    """a shallow copy has a payload dictionary of its own with the same entries"""
    props = ('C20', 'C13')
    fresh = True
    target = 'MyEvent.__copy__'

    @staticmethod
    def code(e: MyEvent):
        return copy.copy(e)

    @staticmethod
    def spec(e):
        r = MyEvent()
        r.payload = dict(e.payload)
        return r


class CopyTrace:
    """a shallow copy shares the events and has its own event list and attributes"""
    props = ('C20', 'C13')
    fresh = True
    target = 'MyTrace.__copy__'

    @staticmethod
    def code(t: MyTrace):
        return copy.copy(t)

    @staticmethod
    def spec(t):
        return MyTrace(list(t.raw_events), dict(t.attributes))


class CopyLog:
    """a shallow copy shares the traces and has its own list of them, and carries all log-level data"""
    props = ('C20', 'C13')
    fresh = True
    target = 'MyEventLog.__copy__'

    @staticmethod
    def code(log: MyEventLog):
        return copy.copy(log)

    @staticmethod
    def spec(log):
        return MyEventLog(traces=list(log.traces), attributes=dict(log.attributes), extensions=dict(log.extensions),
                          classifiers=dict(log.classifiers), properties=dict(log.properties),
                          global_values=dict(log.global_values))


class DeepCopyDict:
    """every key and value is copied deeply"""
    props = ('C20', 'C13')
    fresh = True
    target = 'deep_copy_dict'

    @staticmethod
    def code(d: dict):
        return deep_copy_dict(d)

    @staticmethod
    def spec(d):
        return {copy.deepcopy(k): copy.deepcopy(v) for k, v in d.items()}


class DeepCopyEvent:
    """a deep copy shares no payload data"""
    props = ('C20', 'C13')
    fresh = True
    target = 'MyEvent.__deepcopy__'

    @staticmethod
    def code(e: MyEvent):
        return copy.deepcopy(e)

    @staticmethod
    def spec(e):
        r = MyEvent()
        r.payload = deep_copy_dict(e.payload)
        return r


class DeepCopyTrace:
    """a deep copy copies every event and the attributes deeply"""
    props = ('C20', 'C13')
    fresh = True
    target = 'MyTrace.__deepcopy__'

    @staticmethod
    def code(t: MyTrace):
        return copy.deepcopy(t)

    @staticmethod
    def spec(t):
        return MyTrace([copy.deepcopy(e) for e in t.raw_events], deep_copy_dict(t.attributes))


class DeepCopyLog:
    """a deep copy copies every trace and all log-level data deeply"""
    props = ('C20', 'C13')
    fresh = True
    target = 'MyEventLog.__deepcopy__'

    @staticmethod
    def code(log: MyEventLog):
        return copy.deepcopy(log)

    @staticmethod
    def spec(log):
        return MyEventLog(traces=[copy.deepcopy(t) for t in log.traces], attributes=deep_copy_dict(log.attributes),
                          extensions=deep_copy_dict(log.extensions), classifiers=deep_copy_dict(log.classifiers),
                          properties=deep_copy_dict(log.properties), global_values=deep_copy_dict(log.global_values))


class EventAccess:
    """an event behaves as its payload"""
    identity = True
    props = ('C20',)
    target = 'MyEvent'

    @staticmethod
    def code(d: dict[str, str], k: str):
        e = MyEvent(d)
        return e[k], len(e), [x for x in e], e.payload_items(), k in e, e.payload

    @staticmethod
    def spec(d, k):
        if d is None:
            d = {}
        return d[k], len(d), [x for x in d], list(d.items()), k in d, d


class EventWrite:
    """setting and deleting attributes of an event changes exactly its payload"""
    identity = True
    props = ('C20',)
    target = 'MyEvent'

    @staticmethod
    def code(d: dict[str, str], k: str, v: str, g: str):
        e = MyEvent({'a': 1, 'b': 2})
        e[k] = v
        del e['b']
        return e.payload

    @staticmethod
    def spec(d, k, v, g):
        e = {'a': 1, 'b': 2}
        e[k] = v
        del e['b']
        return e


class TraceAccess:
    """a trace behaves as its list of events"""
    identity = True
    props = ('C20',)
    target = 'MyTrace'

    @staticmethod
    def code(es: list[MyEvent], i: int):
        t = MyTrace(es)
        return t[i], len(t), [x for x in t], t.raw_events

    @staticmethod
    def spec(es, i):
        if es is None:
            es = []
        return es[i], len(es), [x for x in es], es


class TraceWrite:
    """appending, inserting, replacing and deleting events act on the list of events"""
    identity = True
    props = ('C20',)
    target = 'MyTrace'

    @staticmethod
    def code(a: MyEvent, b: MyEvent, c: MyEvent, d: MyEvent):
        t = MyTrace()
        t.append(a)
        t.append(b)
        t.insert(c, 1)
        t[0] = d
        q = list(t.raw_events)
        del t[1]
        return q, t.raw_events

    @staticmethod
    def spec(a, b, c, d):
        return [d, c, b], [d, b]


class LogAccess:
    """a log behaves as its list of traces"""
    identity = True
    props = ('C20',)
    target = 'MyEventLog'

    @staticmethod
    def code(ts: list[MyTrace], i: int):
        log = MyEventLog(ts)
        return log[i], len(log), [x for x in log], log.traces

    @staticmethod
    def spec(ts, i):
        if ts is None:
            ts = []
        return ts[i], len(ts), [x for x in ts], ts


class LogWrite:
    """appending, replacing and deleting traces act on the list of traces"""
    identity = True
    props = ('C20',)
    target = 'MyEventLog'

    @staticmethod
    def code(a: MyTrace, b: MyTrace, c: MyTrace):
        log = MyEventLog()
        log.append(a)
        log.append(b)
        log.append(a)
        log[0] = c
        del log[1]
        return log.traces

    @staticmethod
    def spec(a, b, c):
        return [c, a]


class NewLog:
    """a new log holds exactly what it is given, and containers of its own for what it is not given"""
    identity = True
    props = ('C20',)
    target = 'MyEventLog'

    @staticmethod
    def code(t: list[MyTrace], a: dict, x: dict, c: dict, p: dict, g: dict):
        q = MyEventLog(traces=t, attributes=a, extensions=x, classifiers=c, properties=p, global_values=g)
        n = MyEventLog()
        return (q.traces, q.attributes, q.extensions, q.classifiers, q.properties, q.global_values,
                n.traces, n.attributes, n.extensions, n.classifiers, n.properties, n.global_values,
                MyTrace().raw_events, MyTrace().attributes, MyEvent().payload)

    @staticmethod
    def spec(t, a, x, c, p, g):
        return (t if t is not None else [], a if a is not None else {}, x if x is not None else {},
                c if c is not None else {}, p if p is not None else {}, g if g is not None else {}, [], {}, {}, {}, {}, {}, [], {}, {})


class CountUp:
    """counting an occurrence adds exactly one, starting from zero"""
    props = ('C27',)
    target = 'increase_in_int_map'

    @staticmethod
    def code(m: dict[str, int], k: str):
        increase_in_int_map(m, k)

    @staticmethod
    def spec(m, k):
        if k in m:
            m[k] = m[k] + 1
        else:
            m[k] = 1
