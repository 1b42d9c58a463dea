"""Specifications: discovery of patterns in traces and of activities from them."""
from ficus.legacy.analysis.patterns.event_log_patterns import *
from ficus.legacy.analysis.patterns.event_log_patterns import _find_maximal_tandem_arrays, _try_extract_tandem_array, \
    _do_find_maximal_repeats, _do_find_super_maximal_repeats, _do_create_repeat_sets, _do_build_repeat_set_tree, \
    _do_find_near_super_maximal_repeats, _do_extract_activities_from_log
from ficus.legacy.analysis.patterns.patterns_models import *
from ficus.legacy.analysis.patterns.util import _create_hashes_traces_with_selector, _split_activity_nodes_by_size
from ficus.legacy.analysis.common.common_models import *


class TandemArrays:
    """tandem arrays of the classes in use, per trace"""
    props = ('C30',)
    target = 'find_maximal_tandem_arrays'
    opaque = ('_create_hashes_traces_with_selector', '_find_maximal_tandem_arrays')

    @staticmethod
    def code(log: MyEventLog, max_length: int, extractor: ClassExtractor):
        return find_maximal_tandem_arrays(log, max_length, extractor)

    @staticmethod
    def spec(log, max_length, extractor):
        return _find_maximal_tandem_arrays(_create_hashes_traces_with_selector(log, extractor), max_length)


class TandemSearch:
    """every sub-array is tried once, at its first place; tandem arrays in order of length and place"""
    props = ('C30',)
    target = '_find_maximal_tandem_arrays'
    opaque = ('_try_extract_tandem_array', 'calculate_poly_hash_for_collection')

    @staticmethod
    def code(traces: list[list[int]], max_length: int):
        return _find_maximal_tandem_arrays(traces, max_length)

    @staticmethod
    def spec(traces, max_length):
        return [tandems(trace, max_length) for trace in traces]


def tandems(trace, max_length):
    r = []
    tried = set()
    for length in range(2, max_length):
        for start in range(len(trace) - length):
            h = calculate_poly_hash_for_collection(trace, start, start + length)
            if h not in tried:
                tried.add(h)
                t = _try_extract_tandem_array(trace, start, length)
                if t is not None:
                    r.append(t)
    return r


class Tandem:
    """the longest run of equal neighbours from the place"""
    props = ('C30',)
    target = '_try_extract_tandem_array'

    @staticmethod
    def code(trace: list[int], start: int, length: int):
        return _try_extract_tandem_array(trace, start, length)

    @staticmethod
    def spec(trace, start, length):
        count = 1
        at = start + length
        while at + length - 1 < len(trace) and all(trace[at + i] == trace[start + i] for i in range(length)):
            count += 1
            at += length
        return TandemArrayInfo(first_pos=start, length=length, repeat_count=count) if count > 1 else None


class PrimitiveTandems:
    """tandem arrays at whose place there is none of a shorter length"""
    props = ('C30',)
    target = 'find_primitive_tandem_arrays'
    opaque = ('_create_hashes_traces_with_selector', '_find_maximal_tandem_arrays', '_try_extract_tandem_array')

    @staticmethod
    def code(log: MyEventLog, max_length: int, extractor: ClassExtractor):
        return find_primitive_tandem_arrays(log, max_length, extractor)

    @staticmethod
    def spec(log, max_length, extractor):
        traces = _create_hashes_traces_with_selector(log, extractor)
        return [[a for a in arrays if not any(_try_extract_tandem_array(trace, a.first_pos, k)
                                              for k in range(2, int((a.length + 1) / 2 + 1)))]
                for arrays, trace in zip(_find_maximal_tandem_arrays(traces, max_length), traces)]


class MaximalRepeats:
    """maximal repeats of the classes in use"""
    props = ('C30',)
    target = 'find_maximal_repeats'
    opaque = ('_create_hashes_traces_with_selector', '_do_find_maximal_repeats')

    @staticmethod
    def code(log: MyEventLog, extractor: ClassExtractor):
        return find_maximal_repeats(log, extractor)

    @staticmethod
    def spec(log, extractor):
        return _do_find_maximal_repeats(_create_hashes_traces_with_selector(log, extractor))


class RepeatSearch:
    """the maximal repeats of every trace at their places in it"""
    props = ('C30',)
    target = '_do_find_maximal_repeats'

    @staticmethod
    def code(traces: list[list[int]]):
        return _do_find_maximal_repeats(traces)

    @staticmethod
    def spec(traces):
        return [repeats_in(trace) for trace in traces]


def repeats_in(trace):
    r = []
    for found in Tree({'Trace': trace}).maximal_repeats():
        path = found[1]
        r.append(MaximalRepeatInfo(path.start, path.end - path.start))
    return r


class SuperMaximalRepeats:
    """super maximal repeats of the classes in use"""
    props = ('C30',)
    target = 'find_super_maximal_repeats'
    opaque = ('_create_hashes_traces_with_selector', '_do_find_super_maximal_repeats')

    @staticmethod
    def code(log: MyEventLog, extractor: ClassExtractor):
        return find_super_maximal_repeats(log, extractor)

    @staticmethod
    def spec(log, extractor):
        return _do_find_super_maximal_repeats(_create_hashes_traces_with_selector(log, extractor))


class SuperSearch:
    """the maximal repeats of a trace that are part of no other one"""
    props = ('C30',)
    target = '_do_find_super_maximal_repeats'
    opaque = ('_do_find_maximal_repeats',)

    @staticmethod
    def code(traces: list[list[int]]):
        return _do_find_super_maximal_repeats(traces)

    @staticmethod
    def spec(traces):
        return [alone(trace, found) for trace, found in zip(traces, _do_find_maximal_repeats(traces))]


def alone(trace, found):
    parts = {i: trace[r.first_pos:r.first_pos + r.length] for i, r in enumerate(found)}
    tree = Tree(parts)
    return [found[i] for i, part in parts.items() if len(tree.find_all(part)) == 1]


class NearSuperRepeats:
    """near super maximal repeats of the classes in use"""
    props = ('C30',)
    target = 'find_near_super_maximal_repeats'
    opaque = ('_create_hashes_traces_with_selector', '_do_find_near_super_maximal_repeats')

    @staticmethod
    def code(log: MyEventLog, extractor: ClassExtractor):
        return find_near_super_maximal_repeats(log, extractor)

    @staticmethod
    def spec(log, extractor):
        return _do_find_near_super_maximal_repeats(_create_hashes_traces_with_selector(log, extractor))


class NearSearch:
    """the repeats that occur at a place not covered by longer ones"""
    props = ('C30',)
    target = '_do_find_near_super_maximal_repeats'
    opaque = ('_do_find_maximal_repeats',)

    @staticmethod
    def code(traces: list[list[int]]):
        return _do_find_near_super_maximal_repeats(traces)

    @staticmethod
    def spec(traces):
        r = []
        for trace, found in zip(traces, _do_find_maximal_repeats(traces)):
            tree = Tree({'Tree': trace})
            places = intervaltree.IntervalTree()
            for i, repeat in enumerate(found):
                for hit in tree.find_all(trace[repeat.first_pos:repeat.first_pos + repeat.length]):
                    places.addi(hit[1].start, hit[1].start + repeat.length, i)
            covered = set()
            near = set()
            for place in sorted(places.all_intervals, key=lambda p: p.end - p.begin + 1, reverse=True):
                if place not in covered:
                    covered.add(place)
                    near.add(place.data)
                    for inner in places.envelop(place.begin, place.end):
                        covered.add(inner)
            r.append([found[i] for i in near])
        return r


class RepeatSets:
    """repeat sets of the classes in use"""
    props = ('C30',)
    target = 'create_repeat_sets'
    opaque = ('_create_hashes_traces_with_selector', '_do_create_repeat_sets')

    @staticmethod
    def code(log: MyEventLog, arrays: list[list[SubArrayInEventLog]], extractor: ClassExtractor):
        return create_repeat_sets(log, arrays, extractor)

    @staticmethod
    def spec(log, arrays, extractor):
        return _do_create_repeat_sets(_create_hashes_traces_with_selector(log, extractor), arrays)


class SetSearch:
    """one repeat set per set of classes, at its first place"""
    props = ('C30',)
    target = '_do_create_repeat_sets'
    opaque = ('calculate_poly_hash_for_collection',)

    @staticmethod
    def code(traces: list[list[int]], arrays: list[list[SubArrayInEventLog]]):
        return _do_create_repeat_sets(traces, arrays)

    @staticmethod
    def spec(traces, arrays):
        r = {}
        for i, (found, trace) in enumerate(zip(arrays, traces)):
            for a in found:
                h = calculate_poly_hash_for_collection(sorted(set(trace[a.first_pos:a.first_pos + a.length])))
                if h not in r:
                    r[h] = SubArrayWithTraceIndex(a.first_pos, a.length, i)
        return list(r.values())


class RepeatTree:
    """the tree of the classes in use"""
    props = ('C30',)
    target = 'build_repeat_set_tree'
    opaque = ('_create_hashes_traces_with_selector', '_do_build_repeat_set_tree')

    @staticmethod
    def code(log: MyEventLog, sets: list[SubArrayWithTraceIndex], names: Callable[[SubArrayWithTraceIndex], str],
             level: int, extractor: ClassExtractor):
        return build_repeat_set_tree(log, sets, names, level, extractor)

    @staticmethod
    def spec(log, sets, names, level, extractor):
        return _do_build_repeat_set_tree(_create_hashes_traces_with_selector(log, extractor), sets, names, extractor,
                                         level)


class Extraction:
    """activities in the classes in use"""
    props = ('C30',)
    target = 'extract_activities_from_log'
    opaque = ('_create_hashes_traces_with_selector', '_do_extract_activities_from_log')

    @staticmethod
    def code(log: MyEventLog, nodes: list[ActivityNode], extractor: ClassExtractor, keep: ActivityInTraceFilter,
             narrow: bool):
        return extract_activities_from_log(log, nodes, extractor, keep, narrow)

    @staticmethod
    def spec(log, nodes, extractor, keep, narrow):
        return _do_extract_activities_from_log(_create_hashes_traces_with_selector(log, extractor), nodes, narrow, keep)


class ClassTree:
    """a layer of nodes per class function, each over the nodes below of its class"""
    props = ('C30',)
    target = 'build_class_tree'
    opaque = ('create_log_information',)

    @staticmethod
    def code(log: MyEventLog, extractors: list[Callable[[str], str]]):
        return build_class_tree(log, extractors)

    @staticmethod
    def spec(log, extractors):
        layers = [[EventClassNode(n) for n in set(create_log_information(log).events_count.keys())]]
        for f in extractors:
            by_class = {}
            for node in layers[-1]:
                c = f(node.name)
                if c in by_class:
                    by_class[c].child_nodes.append(node)
                else:
                    by_class[c] = EventClassNode(c)
                    by_class[c].child_nodes.append(node)
            layers.append(list(by_class.values()))
        return layers[-1]


class AllPatterns:
    """the trace cut where no pattern continues"""
    props = ('C30',)
    target = 'add_all_patterns'

    @staticmethod
    def code(log: list[list[int]], patterns: list[list[SubArrayInEventLog]]):
        return add_all_patterns(log, patterns)

    @staticmethod
    def spec(log, patterns):
        return [cuts(trace, found) for trace, found in zip(log, patterns)]


def cuts(trace, found):
    tree = Tree({str(i): trace[p.first_pos:p.first_pos + p.length] for i, p in enumerate(found)})
    r = []
    start = 0
    for i in range(1, len(trace)):
        if not tree.find(trace[start:i]):
            r.append(SubArrayInEventLog(start, i - start))
            start = i
    return r


class TreeSearch:
    """every set hangs below the first larger set that has all of its classes, the nearest layer first"""
    props = ('C30',)
    target = '_do_build_repeat_set_tree'

    @staticmethod
    def code(traces: list[list[int]], sets: list[SubArrayWithTraceIndex], names: Callable[[SubArrayWithTraceIndex], str],
             extractor: ClassExtractor, level: int):
        return _do_build_repeat_set_tree(traces, sets, names, extractor, level)

    @staticmethod
    def spec(traces, sets, names, extractor, level):
        if len(sets) == 0:
            return []
        nodes = sorted([node_of(traces, s, names, extractor, level) for s in sets], key=lambda n: n.length, reverse=True)
        longest = nodes[0].length
        size = longest
        tops = [nodes[0]]
        after = 1
        for i in range(1, len(nodes)):
            if nodes[i].length != longest:
                after = i
                size = nodes[i].length
                break
            tops.append(nodes[i])
        if len(tops) == len(nodes):
            return tops
        layers = [[]]
        for i in range(after, len(nodes)):
            node = nodes[i]
            if node.length < size:
                size = node.length
                layers.append([])
            placed = False
            for k in range(len(layers) - 1, -1, -1):
                for other in layers[k]:
                    if other.contains_other(node) and other != node:
                        other.child_nodes.append(node)
                        placed = True
                        break
                if placed:
                    break
            if not placed:
                for other in tops:
                    if other.contains_other(node) and other != node:
                        other.child_nodes.append(node)
                        placed = True
                        break
            layers[-1].append(node)
            if not placed:
                tops.append(node)
        return tops


def node_of(traces, s, names, extractor, level):
    classes = set(traces[s.trace_index][s.first_pos:s.first_pos + s.length])
    return ActivityNode(names(s), s, classes, extractor, level)


class ExtractionSearch:
    """an activity lasts while one has all classes seen; it begins and ends where its events do"""
    props = ('C30',)
    target = '_do_extract_activities_from_log'
    opaque = ('_split_activity_nodes_by_size', 'narrow_activity')
    budget = 400000

    @staticmethod
    def code(traces: list[list[int]], nodes: list[ActivityNode], narrow: bool, keep: ActivityInTraceFilter):
        return _do_extract_activities_from_log(traces, nodes, narrow, keep)

    @staticmethod
    def spec(traces, nodes, narrow, keep):
        sized = _split_activity_nodes_by_size(nodes)
        r = []
        for trace in traces:
            found = []
            i = -1
            now = None
            start = -1
            seen = set()
            while i < len(trace):
                i += 1
                if i >= len(trace):
                    break
                h = trace[i]
                if now is None:
                    hit = False
                    for same in sized:
                        for a in same:
                            if h in a.set_of_events:
                                now = a
                                start = i
                                hit = True
                                break
                        if hit:
                            seen.clear()
                            seen.add(h)
                            break
                    continue
                if h in now.set_of_events:
                    seen.add(h)
                else:
                    more = seen.copy()
                    more.add(h)
                    hit = False
                    for same in sized:
                        if len(same) == 0 or same[0].length < now.length:
                            continue
                        for a in same:
                            if more.issubset(a.set_of_events):
                                now = a
                                hit = True
                                break
                        if hit:
                            seen.add(h)
                            break
                    if not hit:
                        if narrow:
                            now = narrow_activity(now, seen)
                        info = ActivityInTraceInfo(now, start, i - start)
                        if keep(info):
                            found.append(info)
                        now = None
                        seen.clear()
                        start = -1
                        i -= 1
            if start != -1:
                if narrow:
                    now = narrow_activity(now, seen)
                info = ActivityInTraceInfo(now, start, i - start)
                if keep(info):
                    found.append(info)
            r.append(found)
        return r
