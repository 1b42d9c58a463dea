"""Entropies of event classes: what is summed over what, and what ignoring classes means."""
import math
import numpy as np
import pandas as pd
from typing import Callable
from matplotlib import pyplot as plt
from ficus.legacy.log.event_log import MyEventLog
from ficus.legacy.analysis.event_log_info import create_log_information, LogInformation, TraceCounts
from ficus.legacy.analysis.event_log_analysis_entropy import *
from ficus.legacy.analysis.event_log_analysis_entropy import _calculate_entropy, _do_calculate_position_entropy, \
    _calculate_max_vector_length, _do_calculate_entropy_sum, _do_calculate_entropy_avg


class Choice:
    """the smoothed entropies are taken exactly if asked for, ignoring the same classes"""
    props = ('C31',)
    target = 'calculate_laplace_or_default_entropies'
    opaque = ('calculate_laplace_entropies', 'calculate_default_entropies')

    @staticmethod
    def code(log: MyEventLog, p: bool, i: set[str]):
        return calculate_laplace_or_default_entropies(log, p, i)

    @staticmethod
    def spec(log, p, i):
        return calculate_laplace_entropies(log, i) if p else calculate_default_entropies(log, i)


class Total:
    """the sum of the entropies of all classes"""
    props = ('C31',)
    target = 'calculate_default_entropy_sum'
    opaque = ('calculate_laplace_or_default_entropies',)

    @staticmethod
    def code(log: MyEventLog, p: bool, i: set[str]):
        return calculate_default_entropy_sum(log, p, i)

    @staticmethod
    def spec(log, p, i):
        return sum(calculate_laplace_or_default_entropies(log, p, i).values())


class Average:
    """the mean of the entropies of all classes, zero without any"""
    props = ('C31',)
    target = 'calculate_default_entropy_average'
    opaque = ('calculate_laplace_or_default_entropies',)

    @staticmethod
    def code(log: MyEventLog, p: bool, i: set[str]):
        return calculate_default_entropy_average(log, p, i)

    @staticmethod
    def spec(log, p, i):
        e = calculate_laplace_or_default_entropies(log, p, i)
        return 0 if len(e) == 0 else sum(e.values()) / len(e)


class Shannon:
    """minus the sum of p log2 p over the probabilities that are not zero"""
    props = ('C31',)
    target = '_calculate_entropy'

    @staticmethod
    def code(v: list[float]):
        return _calculate_entropy(v)

    @staticmethod
    def spec(v):
        r = 0.0
        for p in v:
            if p != 0:
                r -= p * math.log2(p)
        return r


class Plain:
    """entropy of what follows a class (or the end) plus that of what precedes it (or the start)"""
    props = ('C31',)
    target = 'calculate_default_entropies'
    opaque = ('create_log_information', '_calculate_entropy')

    @staticmethod
    def code(log: MyEventLog, i: set[str]):
        return calculate_default_entropies(log, i)

    @staticmethod
    def spec(log, i):
        k = create_log_information(log, i)
        names = list(k.events_count.keys())
        return {n: _calculate_entropy([k.dfg.pairs.get((n, x), 0) / k.events_count[n] for x in names + ['FAKE_END']]) +
                _calculate_entropy([k.dfg.pairs.get((x, n), 0) / k.events_count[n] for x in names + ['FAKE_START']])
                for n in names}


def smoothed(pair, names, count):
    a = 1 / count
    return (a + pair) / (a * (names + 1) + count)


class Smoothed:
    """as for the plain entropies, each probability smoothed by one over the number of occurrences"""
    props = ('C31',)
    target = 'calculate_laplace_entropies'
    opaque = ('create_log_information', '_calculate_entropy')

    @staticmethod
    def code(log: MyEventLog, i: set[str]):
        return calculate_laplace_entropies(log, i)

    @staticmethod
    def spec(log, i):
        k = create_log_information(log, i)
        names = list(k.events_count.keys())
        c = k.events_count
        return {n: _calculate_entropy([smoothed(k.dfg.pairs.get((n, x), 0), len(c), c[n]) for x in names + ['FAKE_END']]) +
                _calculate_entropy([smoothed(k.dfg.pairs.get((x, n), 0), len(c), c[n]) for x in names + ['FAKE_START']])
                for n in names}


class Table:
    """a row per class with its entropy, highest first"""
    props = ('C31',)
    target = 'create_entropies_df'
    opaque = ('calculate_default_entropies',)

    @staticmethod
    def code(log: MyEventLog):
        return create_entropies_df(log)

    @staticmethod
    def spec(log):
        e = calculate_default_entropies(log)
        return pd.DataFrame(e.values(), index=list(e.keys()), columns=['Entropy']).sort_values(by='Entropy', ascending=False)


class Longest:
    """the number of positions is that of the longest trace without the ignored classes"""
    props = ('C31',)
    target = 'PositionEntropyIgnoredEvents.calculate_max_vector_length'

    @staticmethod
    def code(s: set[str], t: list[TraceCounts]):
        return PositionEntropyIgnoredEvents(s, t).calculate_max_vector_length()

    @staticmethod
    def spec(s, t):
        r = 0
        for x in t:
            r = max(r, x.overall_count - sum(x.counts.get(n, 0) for n in s))
        return r


class LongestOf:
    """without ignored classes it is the length of the longest trace"""
    props = ('C31',)
    target = '_calculate_max_vector_length'
    opaque = ('PositionEntropyIgnoredEvents.calculate_max_vector_length',)

    @staticmethod
    def code(log: MyEventLog, i: PositionEntropyIgnoredEvents):
        return _calculate_max_vector_length(log, None), _calculate_max_vector_length(log, i)

    @staticmethod
    def spec(log, i):
        return max([len(t) for t in log.traces]), max([len(t) for t in log.traces]) if i is None else i.calculate_max_vector_length()


class Positions:
    """for every trace the positions of every class in it, in order, and its length"""
    props = ('C31',)
    fresh = True
    target = 'create_events_positions'

    @staticmethod
    def code(log: MyEventLog):
        return create_events_positions(log)

    @staticmethod
    def spec(log):
        r = []
        for t in log.traces:
            p = {}
            for i, e in enumerate(t.raw_events):
                n = e['concept:name']
                if n in p:
                    p[n].append(i)
                else:
                    p[n] = [i]
            r.append(TraceEventsPositionInfo(p, len(t.raw_events)))
        return PositionEntropyEventsPositions(r)


class PositionEntropies:
    """one entropy per class that is not ignored"""
    props = ('C31',)
    target = 'calculate_position_entropies'
    opaque = ('create_log_information', 'calculate_position_entropy')

    @staticmethod
    def code(log: MyEventLog, i: PositionEntropyIgnoredEvents):
        return calculate_position_entropies(log, None), calculate_position_entropies(log, i)

    @staticmethod
    def spec(log, i):
        return {n: calculate_position_entropy(log, n, None) for n in create_log_information(log, None).events_count.keys()}, \
            {n: calculate_position_entropy(log, n, i) for n in create_log_information(log, None if i is None else i.ignored_events).events_count.keys()}


class FastEntropies:
    """one entropy per class that is not ignored, from the positions given or made once"""
    props = ('C31',)
    target = 'calculate_position_entropies_fast'
    opaque = ('create_log_information', 'calculate_position_entropy_fast', 'create_events_positions')

    @staticmethod
    def code(log: MyEventLog, i: PositionEntropyIgnoredEvents, p: PositionEntropyEventsPositions):
        return calculate_position_entropies_fast(log, None, None), calculate_position_entropies_fast(log, i, p)

    @staticmethod
    def spec(log, i, p):
        q = create_events_positions(log)
        return {n: calculate_position_entropy_fast(log, n, None, q) for n in create_log_information(log, None).events_count.keys()}, \
            {n: calculate_position_entropy_fast(log, n, i, q if p is None else p) for n in create_log_information(log, None if i is None else i.ignored_events).events_count.keys()}


class PositionSums:
    """sums of the entropies of all classes with the same classes ignored"""
    props = ('C31',)
    target = 'calculate_position_entropies_sum'
    opaque = ('calculate_position_entropies_fast', 'calculate_position_entropies')

    @staticmethod
    def code(log: MyEventLog, i: PositionEntropyIgnoredEvents, p: PositionEntropyEventsPositions):
        return calculate_position_entropies_sum(log, i), calculate_position_entropies_fast_sum(log, i, p)

    @staticmethod
    def spec(log, i, p):
        return sum(calculate_position_entropies(log, i).values()), sum(calculate_position_entropies_fast(log, i, p).values())


class Spread:
    """variance and deviation of the position entropies of all classes"""
    props = ('C31',)
    target = 'calculate_pos_entropy_var'
    opaque = ('calculate_position_entropies_fast',)

    @staticmethod
    def code(log: MyEventLog):
        return calculate_pos_entropy_var(log), calculate_pos_entropy_std(log)

    @staticmethod
    def spec(log):
        return np.var(list(calculate_position_entropies_fast(log).values())), np.std(list(calculate_position_entropies_fast(log).values()))


class Drawn:
    """the histogram is one of the position entropies of all classes"""
    props = ('C31',)
    target = 'draw_position_entropies_histogram'
    opaque = ('calculate_position_entropies_fast',)

    @staticmethod
    def code(log: MyEventLog):
        return draw_position_entropies_histogram(log)

    @staticmethod
    def spec(log):
        plt.hist(calculate_position_entropies_fast(log).values())


class Formula:
    """the mean over the positions that occur of minus their probability's logarithm to the base of the number of traces"""
    props = ('C31',)
    target = '_do_calculate_position_entropy'

    @staticmethod
    def code(p: np.ndarray, n: int):
        return _do_calculate_position_entropy(p, n)

    @staticmethod
    def spec(p, n):
        q = p[p != 0]
        return np.sum(-(np.log(q) / np.log(n))) / len(q)


class PositionEntropy:
    """in each trace without the ignored classes the positions of the class are marked; the share of marks per position counts"""
    props = ('C31',)
    target = 'calculate_position_entropy'
    opaque = ('_calculate_max_vector_length', '_do_calculate_position_entropy')

    @staticmethod
    def code(log: MyEventLog, n: str, i: PositionEntropyIgnoredEvents):
        return calculate_position_entropy(log, n, i)

    @staticmethod
    def spec(log, n, i):
        m = _calculate_max_vector_length(log, i)
        rows = [np.zeros(m) for _ in range(len(log.traces))]
        k = 0
        r = 0
        for t in log.traces:
            p = 0
            for e in t.raw_events:
                if i is not None and e['concept:name'] in i.ignored_events:
                    continue
                if e['concept:name'] == n:
                    rows[r][p] = 1
                p += 1
            if p > 0:
                k += 1
            r += 1
        return _do_calculate_position_entropy(np.sum(rows, axis=0) / k, k)


class FastEntropy:
    """the position of an occurrence is the one it has without the ignored events before it"""
    props = ('C31',)
    target = 'calculate_position_entropy_fast'
    opaque = ('create_events_positions', '_calculate_max_vector_length', '_do_calculate_position_entropy')
    budget = 1000000

    @staticmethod
    def code(log: MyEventLog, n: str, i: PositionEntropyIgnoredEvents, c: PositionEntropyEventsPositions):
        return calculate_position_entropy_fast(log, n, i, c)

    @staticmethod
    def spec(log, n, i, c):
        marks = [0] * _calculate_max_vector_length(log, i)
        k = 0
        off = []
        for t in (create_events_positions(log) if c is None else c).traces_positions:
            off.clear()
            if i is not None:
                for x in i.ignored_events:
                    y = t.positions.get(x, None)
                    if y is not None:
                        off.extend(y)
            if len(off) == t.length:
                continue
            k += 1
            own = t.positions.get(n, None)
            if own is None:
                continue
            off.sort()
            a = 0
            b = 0
            while a != len(own) or b != len(off):
                if a >= len(own):
                    break
                while b < len(off) and own[a] > off[b]:
                    b += 1
                marks[own[a] - b] += 1
                a += 1
        return _do_calculate_position_entropy(np.array(marks) / k, k)
