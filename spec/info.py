"""Statistics about a log."""
from typing import Callable
from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
from ficus.legacy.analysis.event_log_info import DirectlyFollowsGraph, LogInformation, TraceCounts, create_dfg, \
    create_log_information, calculate_events_in_each_trace, apply_to_all_events, find_all_events_names, \
    calculate_events_count


def up(m, k):
    m[k] = m.get(k, 0) + 1


class LogInfo:
    """events are counted per name, and each pair of neighbours among the not ignored events of a trace once"""
    props = ('C27', 'C15')
    target = 'create_log_information'
    compare = 'ret'

    @staticmethod
    def code(log: MyEventLog, ignored: set[str], fake: bool):
        r = create_log_information(log, ignored, fake)
        return r.events_count, r.dfg.pairs

    @staticmethod
    def spec(log, ignored, fake):
        pairs, counts = dict(), dict()
        for t in log:
            prev = None
            for e in t:
                name = e['concept:name']
                if ignored is not None and name in ignored:
                    continue
                up(counts, name)
                if prev is not None:
                    up(pairs, (prev['concept:name'], name))
                elif fake:
                    up(pairs, ('FAKE_START', name))
                prev = e
            if fake and prev is not None:
                up(pairs, (prev['concept:name'], 'FAKE_END'))
        return counts, pairs


class Dfg:
    """the directly-follows graph has no artificial start and end"""
    props = ('C27',)
    target = 'create_dfg'
    opaque = ('create_log_information',)

    @staticmethod
    def code(log: MyEventLog):
        return create_dfg(log)

    @staticmethod
    def spec(log):
        return create_log_information(log, None, False).dfg


class InfoDefault:
    """by default nothing is ignored and artificial start and end are counted"""
    props = ('C27',)
    target = 'create_log_information'

    @staticmethod
    def code(log: MyEventLog):
        return create_log_information(log)

    @staticmethod
    def spec(log):
        return create_log_information(log, None, True)


class DfgFollowers:
    """every pair appears under its first event with its count; single-follower events are those with one follower"""
    props = ('C27',)
    target = 'DirectlyFollowsGraph'

    @staticmethod
    def code(pairs: dict[tuple[str, str], int]):
        g = DirectlyFollowsGraph(pairs)
        return g.pairs, g.followed_events, g.events_with_single_follower

    @staticmethod
    def spec(pairs):
        fol, single = dict(), set()
        for a, b in pairs.keys():
            if a in fol:
                if a in single:
                    single.remove(a)
                if b not in fol[a]:
                    fol[a][b] = pairs[(a, b)]
            else:
                fol[a] = {b: pairs[(a, b)]}
                single.add(a)
        return pairs, fol, single


class TraceCounting:
    """per trace: the occurrences of each name and the number of events"""
    props = ('C27', 'C15')
    target = 'calculate_events_in_each_trace'

    @staticmethod
    def code(log: MyEventLog):
        return calculate_events_in_each_trace(log)

    @staticmethod
    def spec(log):
        r = []
        for t in log:
            c = dict()
            for e in t:
                up(c, e['concept:name'])
            r.append(TraceCounts(c, len(t)))
        return r


class EventsCount:
    """the number of events of a log is the sum of its trace lengths"""
    props = ('C27',)
    target = 'calculate_events_count'

    @staticmethod
    def code(log: MyEventLog):
        return calculate_events_count(log)

    @staticmethod
    def spec(log):
        n = 0
        for t in log:
            n += len(t)
        return n


class ApplyToAll:
    """the function is applied to every event once"""
    props = ('C27',)
    target = 'apply_to_all_events'

    @staticmethod
    def code(log: MyEventLog, f: Callable[[MyEvent], None]):
        apply_to_all_events(log, f)

    @staticmethod
    def spec(log, f):
        for t in log:
            for e in t:
                f(e)


class NamesByPredicate:
    """the names all of whose events satisfy the predicate"""
    props = ('C27', 'C15')
    target = 'find_all_events_names'

    @staticmethod
    def code(log: MyEventLog, predicate: Callable[[MyEvent], bool]):
        return find_all_events_names(log, predicate)

    @staticmethod
    def spec(log, predicate):
        no, yes = set(), set()
        for t in log:
            for e in t:
                n = e['concept:name']
                if n in no:
                    continue
                if not predicate(e):
                    if n in yes:
                        yes.remove(n)
                    no.add(n)
                    continue
                yes.add(n)
        return yes
