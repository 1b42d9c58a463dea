"""Entropy-based filters: what they may remove and when they stop."""
from typing import Callable
from ficus.legacy.log.event_log import MyEventLog
from ficus.legacy.analysis.event_log_info import calculate_events_in_each_trace, create_log_information
from ficus.legacy.analysis.event_log_analysis_entropy import calculate_laplace_or_default_entropies, \
    calculate_default_entropy_average, calculate_position_entropies_fast, calculate_position_entropies_fast_sum, \
    create_events_positions, PositionEntropyIgnoredEvents
from ficus.legacy.filtering.event_log_filters import filter_events_default_entropy_indirect, \
    filter_events_default_entropy_direct, filter_events_pos_entropy_direct, filter_events_pos_entropy_indirect, \
    next_removal_default_entropy_indirect, next_event_to_remove_default_entropy_direct, \
    next_event_remove_pos_entropy_indirect, filter_events_pos_entropy_direct_till_end, \
    filter_events_pos_entropy_indirect_till_end, TillEndFilteringMetricKind
from ficus.legacy.filtering.event_log_filters import next_event_remove_pos_entropy_direct
from ficus.legacy.analysis.event_log_info import LogInformation
from ficus.legacy.analysis.event_log_analysis_entropy import calculate_position_entropies
from ficus.legacy.mutations.event_log_mutations import remove_event_from_log


def touchable(metrics, untouchable):
    for k in [k for k in metrics.keys() if untouchable(k)]:
        del metrics[k]
    return metrics


class NextDirect:
    """the next event is the touchable one with the highest entropy"""
    props = ('C17',)
    target = 'next_event_to_remove_default_entropy_direct'
    opaque = ('calculate_laplace_or_default_entropies',)
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, laplace: bool, untouchable: Callable[[str], bool]):
        return next_event_to_remove_default_entropy_direct(log, laplace, untouchable)

    @staticmethod
    def spec(log, laplace, untouchable):
        m = touchable(calculate_laplace_or_default_entropies(log, laplace), untouchable)
        n = max(m, key=m.get)
        return n, m[n]


class FilterDirect:
    """while the worst touchable event is above the threshold it is removed, at most the given number of times"""
    props = ('C17',)
    target = 'filter_events_default_entropy_direct'
    opaque = ('calculate_laplace_or_default_entropies', 'remove_event_from_log')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, laplace: bool, threshold: float, limit: int, untouchable: Callable[[str], bool]):
        return filter_events_default_entropy_direct(log, laplace, threshold, limit, untouchable)

    @staticmethod
    def spec(log, laplace, threshold, limit, untouchable):
        n = 0
        while True:
            if len(log) == 0:
                return log
            m = touchable(calculate_laplace_or_default_entropies(log, laplace), untouchable)
            name = max(m, key=m.get)
            if m[name] > threshold:
                log = remove_event_from_log(log, name)
                n += 1
                if n == limit:
                    return log
            else:
                return log


class FilterPosDirect:
    """while the worst touchable event is above the threshold it is removed, at most the given number of times"""
    props = ('C17',)
    target = 'filter_events_pos_entropy_direct'
    opaque = ('calculate_position_entropies_fast', 'remove_event_from_log')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, threshold: float, untouchable: Callable[[str], bool], limit: int):
        return filter_events_pos_entropy_direct(log, threshold, untouchable, limit)

    @staticmethod
    def spec(log, threshold, untouchable, limit):
        n = 0
        while True:
            if len(log) == 0:
                return log
            m = touchable(calculate_position_entropies_fast(log), untouchable)
            name = max(m, key=m.get)
            if m[name] > threshold:
                log = remove_event_from_log(log, name)
                n += 1
                if n == limit:
                    return log
            else:
                return log


class NextIndirect:
    """among the top candidates the touchable one whose absence gives the lowest entropy is chosen"""
    props = ('C17',)
    target = 'next_removal_default_entropy_indirect'
    opaque = ('calculate_laplace_or_default_entropies', 'calculate_default_entropy_average')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, laplace: bool, top: float, untouchable: Callable[[str], bool]):
        return next_removal_default_entropy_indirect(log, laplace, top, untouchable)

    @staticmethod
    def spec(log, laplace, top, untouchable):
        name, best = None, 1e10
        s = sorted(calculate_laplace_or_default_entropies(log, laplace=laplace).items(), key=lambda x: x[1])
        for k, _ in s[len(s) - int(len(s) * top):]:
            if not untouchable(k):
                e = calculate_default_entropy_average(log, laplace, ignored_events={k})
                if e < best:
                    best, name = e, k
        return name, best


class FilterIndirect:
    """events are removed one by one until the average entropy is at most the threshold or the limit is reached"""
    props = ('C17',)
    target = 'filter_events_default_entropy_indirect'
    opaque = ('calculate_default_entropy_average', 'next_removal_default_entropy_indirect', 'remove_event_from_log')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, laplace: bool, threshold: float, top: float, limit: int,
             untouchable: Callable[[str], bool]):
        return filter_events_default_entropy_indirect(log, laplace, threshold, top, limit, untouchable)

    @staticmethod
    def spec(log, laplace, threshold, top, limit, untouchable):
        n = 0
        while True:
            if len(log) == 0:
                return log
            if calculate_default_entropy_average(log, laplace) <= threshold:
                return log
            log = remove_event_from_log(log, next_removal_default_entropy_indirect(log, laplace, top, untouchable)[0])
            n += 1
            if n >= limit:
                return log


class NextPosIndirect:
    """the touchable event whose absence gives the lowest position entropy is chosen"""
    props = ('C17',)
    target = 'next_event_remove_pos_entropy_indirect'
    opaque = ('calculate_events_in_each_trace', 'create_log_information', 'create_events_positions',
              'calculate_position_entropies_fast_sum')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, untouchable: Callable[[str], bool]):
        return next_event_remove_pos_entropy_indirect(log, untouchable_event_func=untouchable)

    @staticmethod
    def spec(log, untouchable):
        counts = calculate_events_in_each_trace(log)
        best, name = 1e10, None
        for n in create_log_information(log).events_count.keys():
            if untouchable(n):
                continue
            v = calculate_position_entropies_fast_sum(log, PositionEntropyIgnoredEvents({n}, counts),
                                                      create_events_positions(log))
            if v < best:
                best, name = v, n
        return name, best


class FilterPosIndirect:
    """events are removed one by one until the position entropy is at most the threshold or the limit is reached"""
    props = ('C17',)
    target = 'filter_events_pos_entropy_indirect'
    opaque = ('calculate_events_in_each_trace', 'create_log_information', 'create_events_positions',
              'calculate_position_entropies_fast_sum', 'next_event_remove_pos_entropy_indirect',
              'remove_event_from_log')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, threshold: float, limit: int, untouchable: Callable[[str], bool]):
        return filter_events_pos_entropy_indirect(log, threshold, limit, untouchable)

    @staticmethod
    def spec(log, threshold, limit, untouchable):
        n = 0
        while True:
            positions = create_events_positions(log)
            if calculate_position_entropies_fast_sum(log, positions=positions) <= threshold:
                return log
            name = next_event_remove_pos_entropy_indirect(log, calculate_events_in_each_trace(log),
                                                          create_log_information(log), positions, untouchable)[0]
            log = remove_event_from_log(log, name)
            n += 1
            if n >= limit:
                return log


class FilterDirectOnce:
    """removing at most one event removes the worst touchable one if it is above the threshold"""
    props = ('C17',)
    target = 'filter_events_default_entropy_direct'
    opaque = ('calculate_laplace_or_default_entropies', 'remove_event_from_log')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, laplace: bool, threshold: float, untouchable: Callable[[str], bool]):
        return filter_events_default_entropy_direct(log, laplace, threshold, 1, untouchable)

    @staticmethod
    def spec(log, laplace, threshold, untouchable):
        if len(log) == 0:
            return log
        m = touchable(calculate_laplace_or_default_entropies(log, laplace), untouchable)
        name = max(m, key=m.get)
        return remove_event_from_log(log, name) if m[name] > threshold else log


class FilterDirectTwice:
    """removing at most two events"""
    props = ('C17',)
    target = 'filter_events_default_entropy_direct'
    opaque = ('calculate_laplace_or_default_entropies', 'remove_event_from_log')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, laplace: bool, threshold: float):
        return filter_events_default_entropy_direct(log, laplace, threshold, 2)

    @staticmethod
    def spec(log, laplace, threshold):
        for _ in (1, 2):
            if len(log) == 0:
                return log
            m = calculate_laplace_or_default_entropies(log, laplace)
            name = max(m, key=m.get)
            if m[name] <= threshold:
                return log
            log = remove_event_from_log(log, name)
        return log


class FilterPosDirectOnce:
    """removing at most one event removes the worst touchable one if it is above the threshold"""
    props = ('C17',)
    target = 'filter_events_pos_entropy_direct'
    opaque = ('calculate_position_entropies_fast', 'remove_event_from_log')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, threshold: float, untouchable: Callable[[str], bool]):
        return filter_events_pos_entropy_direct(log, threshold, untouchable, 1)

    @staticmethod
    def spec(log, threshold, untouchable):
        if len(log) == 0:
            return log
        m = touchable(calculate_position_entropies_fast(log), untouchable)
        name = max(m, key=m.get)
        return remove_event_from_log(log, name) if m[name] > threshold else log


class FilterIndirectTwice:
    """each round removes the event next_removal_default_entropy_indirect names, while the entropy is above the threshold"""
    props = ('C17',)
    target = 'filter_events_default_entropy_indirect'
    opaque = ('calculate_default_entropy_average', 'next_removal_default_entropy_indirect', 'remove_event_from_log')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, laplace: bool, threshold: float, top: float, untouchable: Callable[[str], bool]):
        return filter_events_default_entropy_indirect(log, laplace, threshold, top, 2, untouchable)

    @staticmethod
    def spec(log, laplace, threshold, top, untouchable):
        for _ in (1, 2):
            if len(log) == 0:
                return log
            if calculate_default_entropy_average(log, laplace) <= threshold:
                return log
            name, entropy = next_removal_default_entropy_indirect(log, laplace, top, untouchable)
            log = remove_event_from_log(log, name)
        return log


class FilterPosIndirectTwice:
    """each round removes the event next_event_remove_pos_entropy_indirect names for the current log"""
    props = ('C17',)
    target = 'filter_events_pos_entropy_indirect'
    opaque = ('calculate_events_in_each_trace', 'create_log_information', 'create_events_positions',
              'calculate_position_entropies_fast_sum', 'next_event_remove_pos_entropy_indirect',
              'remove_event_from_log')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, threshold: float, untouchable: Callable[[str], bool]):
        return filter_events_pos_entropy_indirect(log, threshold, 2, untouchable)

    @staticmethod
    def spec(log, threshold, untouchable):
        for _ in (1, 2):
            p = create_events_positions(log)
            if calculate_position_entropies_fast_sum(log, positions=p) <= threshold:
                return log
            name, entropy = next_event_remove_pos_entropy_indirect(
                log, calculate_events_in_each_trace(log), create_log_information(log), p, untouchable)
            log = remove_event_from_log(log, name)
        return log


class NextPosIndirectGiven:
    """what is known about the log already is used; of two events the touchable one with the lower rest wins"""
    props = ('C17',)
    target = 'next_event_remove_pos_entropy_indirect'
    opaque = ('calculate_events_in_each_trace', 'create_log_information', 'create_events_positions',
              'calculate_position_entropies_fast_sum')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, counts: list, events, pos: PositionEntropyEventsPositions,
             untouchable: Callable[[str], bool]):
        info = create_log_information(log)
        info.events_count = {'A': 1, 'B': 2}
        return next_event_remove_pos_entropy_indirect(log, counts, info, pos, untouchable)

    @staticmethod
    def spec(log, counts, events, pos, untouchable):
        name, best = None, 1e10
        if counts is None:
            counts = calculate_events_in_each_trace(log)
        if pos is None:
            pos = create_events_positions(log)
        if not untouchable('A'):
            v = calculate_position_entropies_fast_sum(log, PositionEntropyIgnoredEvents({'A'}, counts), pos)
            if v < best:
                name, best = 'A', v
        if not untouchable('B'):
            v = calculate_position_entropies_fast_sum(log, PositionEntropyIgnoredEvents({'B'}, counts), pos)
            if v < best:
                name, best = 'B', v
        return name, best


class NextPosDirect:
    """the next event is the one with the highest position entropy"""
    props = ('C17',)
    target = 'next_event_remove_pos_entropy_direct'
    opaque = ('calculate_position_entropies',)
    pure_args = True

    @staticmethod
    def code(log: MyEventLog):
        return next_event_remove_pos_entropy_direct(log)

    @staticmethod
    def spec(log):
        m = calculate_position_entropies(log)
        name = max(m, key=m.get)
        return name, m[name]


class TillEndDirect:
    """every removal until the log is empty is reported in order, with the sum of the entropies before it"""
    props = ('C17',)
    target = 'filter_events_pos_entropy_direct_till_end'
    opaque = ('calculate_position_entropies_fast', 'remove_event_from_log')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, untouchable: Callable[[str], bool]):
        return filter_events_pos_entropy_direct_till_end(log, TillEndFilteringMetricKind.BeforeOnly, untouchable)

    @staticmethod
    def spec(log, untouchable):
        out = []
        while len(log) != 0:
            m = touchable(calculate_position_entropies_fast(log), untouchable)
            name = max(m, key=m.get)
            out.append((name, sum(m.values())))
            log = remove_event_from_log(log, name)
        return out


class TillEndDirectDelta:
    """every removal until the log is empty is reported in order, with the decrease of the sum of the entropies"""
    props = ('C17',)
    target = 'filter_events_pos_entropy_direct_till_end'
    opaque = ('calculate_position_entropies_fast', 'remove_event_from_log')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, untouchable: Callable[[str], bool]):
        return filter_events_pos_entropy_direct_till_end(log, TillEndFilteringMetricKind.AfterBeforeDelta, untouchable)

    @staticmethod
    def spec(log, untouchable):
        out = []
        while len(log) != 0:
            m = touchable(calculate_position_entropies_fast(log), untouchable)
            before = sum(m.values())
            name = max(m, key=m.get)
            log = remove_event_from_log(log, name)
            out.append((name, before - sum(touchable(calculate_position_entropies_fast(log), untouchable).values())))
        return out


class TillEndIndirect:
    """every removal until the log is empty is reported in order, with the entropy before it"""
    props = ('C17',)
    target = 'filter_events_pos_entropy_indirect_till_end'
    opaque = ('calculate_events_in_each_trace', 'create_log_information', 'create_events_positions',
              'calculate_position_entropies_fast_sum', 'next_event_remove_pos_entropy_indirect',
              'remove_event_from_log')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, untouchable: Callable[[str], bool]):
        return filter_events_pos_entropy_indirect_till_end(log, TillEndFilteringMetricKind.BeforeOnly, untouchable)

    @staticmethod
    def spec(log, untouchable):
        out = []
        while len(log) != 0:
            p = create_events_positions(log)
            before = calculate_position_entropies_fast_sum(log, positions=p)
            name = next_event_remove_pos_entropy_indirect(log, calculate_events_in_each_trace(log),
                                                          create_log_information(log), p, untouchable)[0]
            out.append((name, before))
            log = remove_event_from_log(log, name)
        return out


class TillEndIndirectDelta:
    """every removal until the log is empty is reported in order, with the decrease of the entropy"""
    props = ('C17',)
    target = 'filter_events_pos_entropy_indirect_till_end'
    opaque = ('calculate_events_in_each_trace', 'create_log_information', 'create_events_positions',
              'calculate_position_entropies_fast_sum', 'next_event_remove_pos_entropy_indirect',
              'remove_event_from_log')
    pure_args = True

    @staticmethod
    def code(log: MyEventLog, untouchable: Callable[[str], bool]):
        return filter_events_pos_entropy_indirect_till_end(log, TillEndFilteringMetricKind.AfterBeforeDelta,
                                                           untouchable)

    @staticmethod
    def spec(log, untouchable):
        out = []
        while len(log) != 0:
            p = create_events_positions(log)
            before = calculate_position_entropies_fast_sum(log, positions=p)
            name, after = next_event_remove_pos_entropy_indirect(log, calculate_events_in_each_trace(log),
                                                                 create_log_information(log), p, untouchable)
            out.append((name, before - after))
            log = remove_event_from_log(log, name)
        return out
