"""Splitting and merging of traces."""
import copy
import uuid
from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
from ficus.legacy.analysis.event_log_split import split_log_by_traces, merge_all_traces_in_one_log, create_unique_event


class Merge:
    """copies of all events of all traces in order in one trace, each trace closed by an event of its own"""
    props = ('C28', 'C13')
    fresh = True
    target = 'merge_all_traces_in_one_log'
    opaque = ('create_unique_event',)

    @staticmethod
    def code(log: MyEventLog):
        return merge_all_traces_in_one_log(log)

    @staticmethod
    def spec(log):
        t = MyTrace()
        r = MyEventLog([t])
        for x in log.traces:
            for e in x.raw_events:
                t.raw_events.append(copy.copy(e))
            t.raw_events.append(create_unique_event())
        return r


class Unique:
    """an event with a name no other event has"""
    props = ('C28',)
    target = 'create_unique_event'

    @staticmethod
    def code():
        return create_unique_event()

    @staticmethod
    def spec():
        return MyEvent({'concept:name': str(uuid.uuid4())})


def groups_of(traces, key):
    r = {}
    for t in traces:
        k = key(t)
        if k in r:
            r[k].append(t)
        else:
            r[k] = [t]
    return r


def refine(traces):
    groups = [list(traces)]
    i = 0
    while True:
        if i >= len(traces[0].raw_events):
            break
        new, single = [], True
        for g in groups:
            if len(g) == 1:
                new.append(g)
                continue
            single = False
            for x in groups_of(g, lambda t: t.raw_events[i].payload['concept:name']).values():
                new.append(x)
        if single:
            break
        i += 1
        groups = new
    return groups


class Split:
    """traces of equal length are split by the names of their events, position by position"""
    props = ('C28',)
    target = 'split_log_by_traces'

    @staticmethod
    def code(log: MyEventLog):
        return split_log_by_traces(log)

    @staticmethod
    def spec(log):
        r = []
        for traces in groups_of(log.traces, lambda t: len(t.raw_events)).values():
            if len(traces) == 1:
                r.append([traces[0]])
                continue
            for g in refine(traces):
                r.append(g)
        return r
