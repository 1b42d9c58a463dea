"""Activities in logs: substitution of activities for events, unattached events, logs of activities, counting."""
import copy
from collections.abc import Callable
from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
from ficus.legacy.analysis.patterns.patterns_models import ActivityNode, ActivityInTraceInfo, \
    UndefinedActivityHandlingStrategy
from ficus.legacy.analysis.patterns.event_log_patterns import _process_trace_activities, narrow_activity, \
    create_new_log_from_activities, full_fill_activities, create_unattached_events_log, add_unattached_activities, \
    create_logs_for_activities, create_logs_for_activities_with_promote, calculate_underlying_events_count, \
    count_underlying_events, execute_with_underlying_events, _create_trace_for_activity, _do_extract_activities_from_log, \
    default_activity_in_trace_filter, default_class_extractor
from ficus.legacy.analysis.patterns.util import _do_create_hashes, _find_events_for_repeat_set


class Process:
    """activities in order; the events before, between and after them are reported once, as ranges"""
    props = ('C22',)
    target = '_process_trace_activities'

    @staticmethod
    def code(t: MyTrace, xs: list[ActivityInTraceInfo], gap: Callable[[int, int], None],
             act: Callable[[ActivityInTraceInfo], None]):
        _process_trace_activities(t, xs, gap, act)

    @staticmethod
    def spec(t, xs, gap, act):
        i = 0
        for a in xs:
            if i < a.start_pos:
                gap(i, a.start_pos)
            act(a)
            i = a.start_pos + a.length
        if i < len(t.raw_events):
            gap(i, len(t.raw_events))


class NewLog:
    """every activity becomes one event that holds copies of its events and all activities under it"""
    props = ('C22', 'C13')
    budget = 3000000
    target = 'create_new_log_from_activities'

    @staticmethod
    def code(log: MyEventLog, xs: list[list[ActivityInTraceInfo]], h: bool, s: UndefinedActivityHandlingStrategy):
        return create_new_log_from_activities(log, xs, h, s)

    @staticmethod
    def spec(log, xs, h, s):
        r = MyEventLog()
        for x, t in zip(xs, log.traces):
            r.traces.append(MyTrace(new_events(t, x, h, s)))
        return r


def new_events(t, xs, h, s):
    out = []

    def gap(a, b):
        if s == UndefinedActivityHandlingStrategy.InsertAsSingleEvent:
            out.append(MyEvent({'concept:name': 'UndefinedActivity'}))
        elif s == UndefinedActivityHandlingStrategy.InsertAllEvents:
            for i in range(a, b):
                out.append(t.raw_events[i])
        elif s != UndefinedActivityHandlingStrategy.DontInsert:
            raise ValueError()

    i = 0
    for a in xs:
        if i < a.start_pos:
            gap(i, a.start_pos)
        e = MyEvent()
        e.payload['concept:name'] = a.node.unique_name() if h else a.node.name
        under = t.raw_events[a.start_pos:a.start_pos + a.length]
        e.payload['UnderlyingEvents'] = [copy.copy(u) for u in under]
        nodes = [n for u in under for n in (u.payload['UnderlyingActivities'] if 'UnderlyingActivities' in u.payload else [])]
        nodes.append(a.node)
        e.payload['UnderlyingActivities'] = nodes
        out.append(e)
        i = a.start_pos + a.length
    if i < len(t.raw_events):
        gap(i, len(t.raw_events))
    return out


class Unattached:
    """one trace per trace, of its events outside all activities, in order"""
    props = ('C22',)
    target = 'create_unattached_events_log'

    @staticmethod
    def code(log: MyEventLog, xs: list[list[ActivityInTraceInfo]]):
        return create_unattached_events_log(log, xs)

    @staticmethod
    def spec(log, xs):
        r = MyEventLog()
        for x, t in zip(xs, log.traces):
            out = []
            i = 0
            for a in x:
                if i < a.start_pos:
                    for e in t.raw_events[i:a.start_pos]:
                        out.append(e)
                i = a.start_pos + a.length
            if i < len(t.raw_events):
                for e in t.raw_events[i:len(t.raw_events)]:
                    out.append(e)
            r.traces.append(MyTrace(out))
        return r


class AddUnattached:
    """activities found in events outside existing ones are added at their place in the trace"""
    props = ('C22',)
    target = 'add_unattached_activities'
    opaque = ('_do_create_hashes', '_do_extract_activities_from_log')

    @staticmethod
    def code(log: MyEventLog, nodes: list[ActivityNode], xs: list[list[ActivityInTraceInfo]],
             cl: Callable[[MyEvent], str], f: Callable[[ActivityInTraceInfo], bool], n: int, narrow: bool):
        return add_unattached_activities(log, nodes, xs, cl, f, n, narrow)

    @staticmethod
    def spec(log, nodes, xs, cl, f, n, narrow):
        r = []
        for x, t in zip(xs, log.traces):
            out = []

            def gap(a, b):
                h = _do_create_hashes(t.raw_events[a:b], cl)
                if len(h) < n:
                    return
                for y in _do_extract_activities_from_log([h], nodes, narrow, f)[0]:
                    out.append(ActivityInTraceInfo(y.node, a + y.start_pos, y.length))

            i = 0
            for y in x:
                if i < y.start_pos:
                    gap(i, y.start_pos)
                i = y.start_pos + y.length
            if i < len(t.raw_events):
                gap(i, len(t.raw_events))
            out.extend(x)
            r.append(sorted(out, key=lambda y: y.start_pos))
        return r


class ActivityTrace:
    """copies of the events of the activity, named by their class"""
    props = ('C22', 'C24', 'C13')
    target = '_create_trace_for_activity'

    @staticmethod
    def code(t: MyTrace, a: ActivityInTraceInfo, cl: Callable[[MyEvent], str]):
        return _create_trace_for_activity(t, a, cl)

    @staticmethod
    def spec(t, a, cl):
        r = MyTrace()
        for e in t.raw_events[a.start_pos:a.start_pos + a.length]:
            c = copy.copy(e)
            c.payload['concept:name'] = cl(c)
            r.raw_events.append(c)
        return r


class ActivityLogs:
    """for every activity of the level a log with one trace per instance, in order"""
    props = ('C22', 'C24')
    target = 'create_logs_for_activities'
    opaque = ('_create_trace_for_activity',)

    @staticmethod
    def code(log: MyEventLog, xs: list[list[ActivityInTraceInfo]], n: int, cl: Callable[[MyEvent], str]):
        return create_logs_for_activities(log, xs, n, cl)

    @staticmethod
    def spec(log, xs, n, cl):
        r = {}
        for x, t in zip(xs, log.traces):
            for a in x:
                if a.node.activity_level == n:
                    new = _create_trace_for_activity(t, a, cl)
                    if new is not None:
                        if a.node.name in r:
                            r[a.node.name].append(new)
                        else:
                            r[a.node.name] = MyEventLog([new])
        return r


class Count:
    """events at the bottom of an event, at any depth"""
    props = ('C22', 'C27')
    target = 'count_underlying_events'

    @staticmethod
    def code(e: MyEvent):
        return count_underlying_events(e)

    @staticmethod
    def spec(e):
        n = 0
        q = [e]
        while len(q) != 0:
            x = q.pop(0)
            if 'UnderlyingEvents' in x.payload:
                for u in x.payload['UnderlyingEvents']:
                    q.append(u)
            else:
                n += 1
        return n


class CountAll:
    """events at the bottom of all events of a log"""
    props = ('C22', 'C27')
    target = 'calculate_underlying_events_count'
    opaque = ('count_underlying_events',)

    @staticmethod
    def code(log: MyEventLog):
        return calculate_underlying_events_count(log)

    @staticmethod
    def spec(log):
        n = 0
        for t in log.traces:
            for e in t.raw_events:
                n += count_underlying_events(e)
        return n


class Execute:
    """the action sees every event at the bottom once"""
    props = ('C22',)
    target = 'execute_with_underlying_events'

    @staticmethod
    def code(e: MyEvent, f: Callable[[MyEvent], None]):
        execute_with_underlying_events(e, f)

    @staticmethod
    def spec(e, f):
        q = [e]
        while len(q) != 0:
            x = q.pop(0)
            if 'UnderlyingEvents' in x.payload:
                for u in x.payload['UnderlyingEvents']:
                    q.append(u)
            else:
                f(x)


class Narrow:
    """the smallest activity under the node that has all events, the node itself if there is none"""
    props = ('C22',)
    target = 'narrow_activity'

    @staticmethod
    def code(n: ActivityNode, s: set[int]):
        return narrow_activity(n, s)

    @staticmethod
    def spec(n, s):
        q = []
        for c in n.child_nodes:
            q.append(c)
        r = []
        while len(q) != 0:
            x = q.pop(0)
            if x.set_of_events.issuperset(s):
                r.append(x)
                for c in x.child_nodes:
                    q.append(c)
        if len(r) == 0:
            return n
        return sorted(r, key=lambda x: x.length)[0]


class Promoted:
    """instances of lower levels count where their classes are those of the activity"""
    props = ('C22', 'C24')
    target = 'create_logs_for_activities_with_promote'
    opaque = ('_create_trace_for_activity', '_find_events_for_repeat_set', 'default_class_extractor')

    @staticmethod
    def code(log: MyEventLog, xs: list[list[ActivityInTraceInfo]], n: int, cls: list[Callable[[MyEvent], str]], adjust: bool):
        return create_logs_for_activities_with_promote(log, xs, n, cls, adjust)

    @staticmethod
    def spec(log, xs, n, cls, adjust):
        assert len(cls) == n + 1
        r = {}
        for x, t in zip(xs, log.traces):
            for a in x:
                new = promoted(log, t, a, n, cls, adjust)
                if new is not None:
                    if a.node.name in r:
                        r[a.node.name].append(new)
                    else:
                        r[a.node.name] = MyEventLog([new])
        return r


def promoted(log, t, a, n, cls, adjust):
    level = a.node.activity_level
    if level > n:
        return None
    if level == n:
        return _create_trace_for_activity(t, a, cls[n] if adjust else default_class_extractor)
    own = t.raw_events[a.start_pos:a.start_pos + a.length]
    copies = [copy.copy(e) for e in own]
    for c in cls[level:n + 1]:
        for e in copies:
            e.payload['concept:name'] = c(e)
    have = {e.payload['concept:name'] for e in copies}
    if {cls[n](e) for e in _find_events_for_repeat_set(log, a.node.repeat_set)} != have:
        return None
    new = MyTrace()
    for e in (copies if adjust else own):
        new.append(e)
    return new
