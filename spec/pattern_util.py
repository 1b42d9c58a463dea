"""Names, classes and hashes of events in pattern discovery; sorting of activities by size and level."""
from collections.abc import Callable
from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
from ficus.legacy.util import calculate_string_poly_hash
from ficus.legacy.analysis.common.common_models import SubArrayInEventLog
from ficus.legacy.analysis.patterns.patterns_models import ActivityNode, ActivityInTraceInfo, SubArrayWithTraceIndex
from ficus.legacy.analysis.patterns.util import _create_activity_name, default_class_extractor, \
    sub_array_with_event_index_to_event_names, convert_sub_arrays_to_event_names, _create_hashes_traces, \
    _do_create_hashes, _create_hashes_traces_with_selector, _create_hashes_traces_with_decode, \
    convert_log_sub_arrays_to_event_names, create_activity_name_from_log, create_activity_name_from_trace, \
    _split_activity_nodes_by_size, substitute_original_events, _find_events_for_repeat_set, \
    split_activities_by_levels_dict, split_activities_by_level, get_activities_for_level, \
    select_traces_activities_for_activity_level


def name(e):
    return e.payload['concept:name']


class DefaultClass:
    """the class of an event is its name unless told otherwise"""
    props = ('C24',)
    target = 'default_class_extractor'

    @staticmethod
    def code(e: MyEvent):
        return default_class_extractor(e)

    @staticmethod
    def spec(e):
        return name(e)


class NamesOfRange:
    """the classes of the events of the range in its trace, each once"""
    props = ('C24',)
    target = 'sub_array_with_event_index_to_event_names'
    unordered = True

    @staticmethod
    def code(log: MyEventLog, r: SubArrayWithTraceIndex, cl: Callable[[MyEvent], str]):
        return sub_array_with_event_index_to_event_names(log, r, cl)

    @staticmethod
    def spec(log, r, cl):
        t = log.traces[r.trace_index]
        return list({cl(t.raw_events[i]) for i in range(r.first_pos, r.first_pos + r.length)})


class ActivityName:
    """the names of the events of the activity's range"""
    props = ('C24',)
    target = '_create_activity_name'
    opaque = ('sub_array_with_event_index_to_event_names',)

    @staticmethod
    def code(log: MyEventLog, a: ActivityInTraceInfo):
        return _create_activity_name(log, a)

    @staticmethod
    def spec(log, a):
        return ', '.join(sub_array_with_event_index_to_event_names(log, a.node.repeat_set))


class NamesOfRanges:
    """the names of the events of every range in its own trace, each once"""
    props = ('C24',)
    target = 'convert_sub_arrays_to_event_names'

    @staticmethod
    def code(log: MyEventLog, rs: list[SubArrayWithTraceIndex]):
        return convert_sub_arrays_to_event_names(log, rs)

    @staticmethod
    def spec(log, rs):
        return [list({name(log.traces[r.trace_index].raw_events[i]) for i in range(r.first_pos, r.first_pos + r.length)})
                for r in rs]


class HashesByName:
    """one hash per event, of its name, per trace and in order"""
    props = ('C24',)
    target = '_create_hashes_traces'
    opaque = ('calculate_string_poly_hash',)

    @staticmethod
    def code(log: MyEventLog):
        return _create_hashes_traces(log)

    @staticmethod
    def spec(log):
        return [[calculate_string_poly_hash(name(e)) for e in t.raw_events] for t in log.traces]


class HashesByClass:
    """one hash per event, of its class (its name if no class function is given), per trace and in order"""
    props = ('C24',)
    target = '_create_hashes_traces_with_selector'
    opaque = ('calculate_string_poly_hash',)

    @staticmethod
    def code(log: MyEventLog, cl: Callable[[MyEvent], str]):
        return _create_hashes_traces_with_selector(log, cl)

    @staticmethod
    def spec(log, cl):
        return [[calculate_string_poly_hash(cl(e) if cl is not None else name(e)) for e in t.raw_events] for t in log.traces]


class HashesOfEvents:
    """one hash per event, of its class, in order"""
    props = ('C24',)
    target = '_do_create_hashes'
    opaque = ('calculate_string_poly_hash',)

    @staticmethod
    def code(es: list[MyEvent], cl: Callable[[MyEvent], str]):
        return _do_create_hashes(es, cl)

    @staticmethod
    def spec(es, cl):
        return [calculate_string_poly_hash(cl(e)) for e in es]


class HashesAndNames:
    """the hashes of the names, and the name of every hash"""
    props = ('C24',)
    target = '_create_hashes_traces_with_decode'
    opaque = ('calculate_string_poly_hash',)

    @staticmethod
    def code(log: MyEventLog):
        return _create_hashes_traces_with_decode(log)

    @staticmethod
    def spec(log):
        names = {}
        for t in log.traces:
            for e in t.raw_events:
                names[calculate_string_poly_hash(name(e))] = name(e)
        return [[calculate_string_poly_hash(name(e)) for e in t.raw_events] for t in log.traces], names


class NamesPerTrace:
    """for every trace and every range of it the names of its events in order"""
    props = ('C24',)
    target = 'convert_log_sub_arrays_to_event_names'

    @staticmethod
    def code(log: MyEventLog, rs: list[list[SubArrayInEventLog]]):
        return convert_log_sub_arrays_to_event_names(log, rs)

    @staticmethod
    def spec(log, rs):
        return [[[name(t.raw_events[i]) for i in range(r.first_pos, r.first_pos + r.length)] for r in x]
                for x, t in zip(rs, log.traces)]


class NameFromTrace:
    """the sorted distinct classes of the events of the range"""
    props = ('C24',)
    target = 'create_activity_name_from_trace'

    @staticmethod
    def code(t: MyTrace, r: SubArrayWithTraceIndex, cl: Callable[[MyEvent], str]):
        return create_activity_name_from_trace(t, r, cl)

    @staticmethod
    def spec(t, r, cl):
        return '::'.join(sorted({cl(e) for e in t.raw_events[r.first_pos:r.first_pos + r.length]}))


class NameFromLog:
    """the name made from the trace the range is in"""
    props = ('C24',)
    target = 'create_activity_name_from_log'
    opaque = ('create_activity_name_from_trace',)

    @staticmethod
    def code(log: MyEventLog, r: SubArrayWithTraceIndex, cl: Callable[[MyEvent], str]):
        return create_activity_name_from_log(log, r, cl)

    @staticmethod
    def spec(log, r, cl):
        return create_activity_name_from_trace(log.traces[r.trace_index], r, cl)


class EventsOfRange:
    """the events of the range in its trace, in order"""
    props = ('C24',)
    target = '_find_events_for_repeat_set'

    @staticmethod
    def code(log: MyEventLog, r: SubArrayWithTraceIndex):
        return _find_events_for_repeat_set(log, r)

    @staticmethod
    def spec(log, r):
        return log.traces[r.trace_index].raw_events[r.first_pos:r.first_pos + r.length]


class BySize:
    """activities of equal size together, smallest first, by name within a size"""
    props = ('C22',)
    target = '_split_activity_nodes_by_size'

    @staticmethod
    def code(nodes: list[ActivityNode]):
        return _split_activity_nodes_by_size(nodes)

    @staticmethod
    def spec(nodes):
        if len(nodes) == 0:
            return []
        nodes = sorted(nodes, key=lambda x: x.length)
        size = nodes[0].length
        r = [[nodes[0]]]
        for i in range(1, len(nodes)):
            if nodes[i].length != size:
                r.append([])
                size = nodes[i].length
            r[-1].append(nodes[i])
        for i in range(len(r)):
            r[i] = sorted(r[i], key=lambda x: x.name)
        return r


class Originals:
    """an activity event is replaced by the events under it, at any depth, in order"""
    props = ('C22',)
    target = 'substitute_original_events'
    recursive = ('substitute_original_events',)

    @staticmethod
    def code(t: MyTrace):
        return substitute_original_events(t)

    @staticmethod
    def spec(t):
        return MyTrace(originals(t))


def originals(t):
    r = []
    for e in t.raw_events:
        if 'UnderlyingEvents' in e.payload:
            r.extend(substitute_original_events(e.payload['UnderlyingEvents']))
        else:
            r.append(e)
    return r


class LevelsDict:
    """every activity under its level, in order"""
    props = ('C22',)
    target = 'split_activities_by_levels_dict'

    @staticmethod
    def code(xs: list[ActivityNode]):
        return split_activities_by_levels_dict(xs)

    @staticmethod
    def spec(xs):
        r = {}
        for x in xs:
            if x.activity_level in r:
                r[x.activity_level].append(x)
            else:
                r[x.activity_level] = [x]
        return r


class Levels:
    """levels in ascending order with their activities"""
    props = ('C22',)
    target = 'split_activities_by_level'
    opaque = ('split_activities_by_levels_dict',)

    @staticmethod
    def code(xs: list[ActivityNode]):
        return split_activities_by_level(xs)

    @staticmethod
    def spec(xs):
        return sorted(split_activities_by_levels_dict(xs).items(), key=lambda x: x[0])


class OfLevel:
    """the activities of the level"""
    props = ('C22',)
    target = 'get_activities_for_level'
    opaque = ('split_activities_by_levels_dict',)

    @staticmethod
    def code(xs: list[ActivityNode], n: int):
        return get_activities_for_level(xs, n)

    @staticmethod
    def spec(xs, n):
        return split_activities_by_levels_dict(xs)[n]


class InstancesOfLevel:
    """for every trace its activities of the level in order"""
    props = ('C22',)
    target = 'select_traces_activities_for_activity_level'

    @staticmethod
    def code(xs: list[list[ActivityInTraceInfo]], n: int):
        return select_traces_activities_for_activity_level(xs, n)

    @staticmethod
    def spec(xs, n):
        return [[a for a in x if a.node.activity_level == n] for x in xs]
