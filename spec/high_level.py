"""What the composed local parts do with the algorithms they are made of."""
import copy
import graphviz
from typing import Any, Callable, Union
from ficus.legacy.util import *
from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
from ficus.legacy.pipelines.pipelines import *
from ficus.legacy.pipelines.contexts.part_results import *
from ficus.legacy.pipelines.contexts.accessors import *
from ficus.legacy.pipelines.analysis.high_level import *
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import *
from ficus.legacy.pipelines.analysis.patterns.patterns_graph_parts import *
from ficus.legacy.pipelines.analysis.patterns.models import *
from ficus.legacy.analysis.event_log_info import *
from ficus.legacy.analysis.event_log_split import *
from ficus.legacy.analysis.patterns.event_log_patterns import *
from ficus.legacy.analysis.patterns.patterns_graphs import *
from ficus.legacy.analysis.patterns.util import *


def known(e):
    return default_class_extractor if e is None else e


def trees(c, g, ps, v, e, n):
    """activities made of patterns of a log"""
    e = known(e)
    return build_repeat_set_tree(g, create_repeat_sets(g, ps, event_class_extractor=e), activity_level=v,
                                 activity_names_creator=lambda s: n(s, g, e), event_class_extractor=e)


def stored(c, a, ps):
    r = PipelinePartResult()
    r.values = dict(c.values)
    return r.with_activities(a).with_patterns(ps)


class TandemPrimitive:
    """arrays are found in the log, activities are made of them, their instances are found in the log"""
    props = ('C23', 'C24')
    target = 'DiscoverActivitiesFromTandemArrays.execute'
    opaque = ('find_primitive_tandem_arrays', 'find_maximal_tandem_arrays', 'create_repeat_sets', 'build_repeat_set_tree', 'extract_activities_from_log')
    compare = 'noraise'

    @staticmethod
    def code(m: int, v: int, e: Callable, f: Callable, n: Callable, w: bool, c: PipelinePartResult):
        return DiscoverActivitiesFromTandemArrays(TandemArrayKind.PrimitiveArray, m, v, False, e, f, n, w).execute(c)

    @staticmethod
    def spec(m, v, e, f, n, w, c):
        g = log(c)
        ps = find_primitive_tandem_arrays(g, max_tandem_array_length=m, event_class_extractor=known(e))
        a = trees(c, g, ps, v, e, n)
        r = stored(c, a, ps)
        return r.with_trace_activities(extract_activities_from_log(g, a, event_class_extractor=e, activity_filter=f, should_narrow_activity=w))


class TandemMaximal:
    """arrays are found in the log, activities are made of them, their instances are found in the log"""
    props = ('C23', 'C24')
    target = 'DiscoverActivitiesFromTandemArrays.execute'
    opaque = ('find_primitive_tandem_arrays', 'find_maximal_tandem_arrays', 'create_repeat_sets', 'build_repeat_set_tree', 'extract_activities_from_log')
    compare = 'noraise'

    @staticmethod
    def code(m: int, v: int, e: Callable, f: Callable, n: Callable, w: bool, c: PipelinePartResult):
        return DiscoverActivitiesFromTandemArrays(TandemArrayKind.MaximalArray, m, v, False, e, f, n, w).execute(c)

    @staticmethod
    def spec(m, v, e, f, n, w, c):
        g = log(c)
        ps = find_maximal_tandem_arrays(g, max_tandem_array_length=m, event_class_extractor=known(e))
        a = trees(c, g, ps, v, e, n)
        r = stored(c, a, ps)
        return r.with_trace_activities(extract_activities_from_log(g, a, event_class_extractor=e, activity_filter=f, should_narrow_activity=w))


class RepeatsMaximalRepeats:
    """repeats are found in the log, activities are made of them, their instances are found in the log"""
    props = ('C23', 'C24')
    target = 'DiscoverActivitiesInstancesFromRepeats.execute'
    opaque = ('find_maximal_repeats', 'find_super_maximal_repeats', 'find_near_super_maximal_repeats', 'create_repeat_sets', 'build_repeat_set_tree', 'extract_activities_from_log')
    compare = 'noraise'

    @staticmethod
    def code(v: int, e: Callable, f: Callable, n: Callable, w: bool, c: PipelinePartResult):
        return DiscoverActivitiesInstancesFromRepeats(RepeatActivitiesSource.MaximalRepeats, v, ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, False, e, f, n, w).execute(c)

    @staticmethod
    def spec(v, e, f, n, w, c):
        g = log(c)
        ps = find_maximal_repeats(g, known(e))
        a = trees(c, g, ps, v, e, n)
        r = stored(c, a, ps)
        return r.with_trace_activities(extract_activities_from_log(g, a, event_class_extractor=e, activity_filter=f, should_narrow_activity=w))


class RepeatsSuperMaximalRepeats:
    """repeats are found in the log, activities are made of them, their instances are found in the log"""
    props = ('C23', 'C24')
    target = 'DiscoverActivitiesInstancesFromRepeats.execute'
    opaque = ('find_maximal_repeats', 'find_super_maximal_repeats', 'find_near_super_maximal_repeats', 'create_repeat_sets', 'build_repeat_set_tree', 'extract_activities_from_log')
    compare = 'noraise'

    @staticmethod
    def code(v: int, e: Callable, f: Callable, n: Callable, w: bool, c: PipelinePartResult):
        return DiscoverActivitiesInstancesFromRepeats(RepeatActivitiesSource.SuperMaximalRepeats, v, ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, False, e, f, n, w).execute(c)

    @staticmethod
    def spec(v, e, f, n, w, c):
        g = log(c)
        ps = find_super_maximal_repeats(g, known(e))
        a = trees(c, g, ps, v, e, n)
        r = stored(c, a, ps)
        return r.with_trace_activities(extract_activities_from_log(g, a, event_class_extractor=e, activity_filter=f, should_narrow_activity=w))


class RepeatsNearSuperMaximalRepeats:
    """repeats are found in the log, activities are made of them, their instances are found in the log"""
    props = ('C23', 'C24')
    target = 'DiscoverActivitiesInstancesFromRepeats.execute'
    opaque = ('find_maximal_repeats', 'find_super_maximal_repeats', 'find_near_super_maximal_repeats', 'create_repeat_sets', 'build_repeat_set_tree', 'extract_activities_from_log')
    compare = 'noraise'

    @staticmethod
    def code(v: int, e: Callable, f: Callable, n: Callable, w: bool, c: PipelinePartResult):
        return DiscoverActivitiesInstancesFromRepeats(RepeatActivitiesSource.NearSuperMaximalRepeats, v, ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, False, e, f, n, w).execute(c)

    @staticmethod
    def spec(v, e, f, n, w, c):
        g = log(c)
        ps = find_near_super_maximal_repeats(g, known(e))
        a = trees(c, g, ps, v, e, n)
        r = stored(c, a, ps)
        return r.with_trace_activities(extract_activities_from_log(g, a, event_class_extractor=e, activity_filter=f, should_narrow_activity=w))


class RepeatsMerged:
    """repeats are found in all traces put together; instances are found in the log itself, which stays"""
    props = ('C23', 'C28')
    target = 'DiscoverActivitiesInstancesFromRepeats.execute'
    opaque = ('find_maximal_repeats', 'create_repeat_sets', 'build_repeat_set_tree', 'extract_activities_from_log', 'merge_all_traces_in_one_log')
    compare = 'noraise'

    @staticmethod
    def code(v: int, e: Callable, f: Callable, n: Callable, w: bool, c: PipelinePartResult):
        return DiscoverActivitiesInstancesFromRepeats(RepeatActivitiesSource.MaximalRepeats, v, ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace, False, e, f, n, w).execute(c)

    @staticmethod
    def spec(v, e, f, n, w, c):
        g = merge_all_traces_in_one_log(log(c))
        ps = find_maximal_repeats(g, known(e))
        a = trees(c, g, ps, v, e, n)
        r = stored(c, a, ps)
        return r.with_trace_activities(extract_activities_from_log(log(c), a, event_class_extractor=e, activity_filter=f, should_narrow_activity=w))


class PatternsOfSource:
    """activities are made of the patterns a part finds in a copy of the context; the context itself stays"""
    props = ('C23', 'C13')
    target = 'DiscoverActivitiesFromPatterns.execute'
    opaque = ('create_repeat_sets', 'build_repeat_set_tree')
    compare = 'ret'

    @staticmethod
    def code(p: PipelinePart, e: Callable, v: int, n: Callable, c: PipelinePartResult):
        return DiscoverActivitiesFromPatterns(p, ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, e, v, n).execute(c)

    @staticmethod
    def spec(p, e, v, n, c):
        t = copy.copy(c) if p is None else p.execute(copy.copy(c))
        a = trees(t, log(t), patterns(t), v, e, n)
        return stored(c, a, patterns(t))


class PatternsOfMerged:
    """the patterns are searched in all traces put together when asked for"""
    props = ('C23', 'C28')
    target = 'DiscoverActivitiesFromPatterns.execute'
    opaque = ('create_repeat_sets', 'build_repeat_set_tree', 'merge_all_traces_in_one_log')
    compare = 'ret'

    @staticmethod
    def code(p: PipelinePart, e: Callable, v: int, n: Callable, c: PipelinePartResult):
        return DiscoverActivitiesFromPatterns(p, ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace, e, v, n).execute(c)

    @staticmethod
    def spec(p, e, v, n, c):
        t = copy.copy(c).with_log(merge_all_traces_in_one_log(log(c)))
        t = t if p is None else p.execute(t)
        a = trees(t, log(t), patterns(t), v, e, n)
        return stored(c, a, patterns(t))


def adjusted(c, x, v, e, k, f, w):
    """activities made of the repeats of the log x are added; their instances in what is uncovered are added"""
    ps = find_maximal_repeats(x, known(e))
    a = trees(c, x, ps, v, e, default_activity_name_creator)
    old = list(activities(c)) if c.has_value('activities') else []
    old.extend(a)
    c = c.with_activities(old)
    return c.with_trace_activities(add_unattached_activities(log(c), old, traces_activities(c), class_extractor=e,
                                                             min_number_of_events=k, activities_in_trace_filter=f,
                                                             should_narrow_activity=w))


def begun(c):
    if not c.has_value('traces_activities'):
        c.with_trace_activities([[] for _ in log(c)])


class AdjustAll:
    """activities made of the repeats of the log are added to those known, and their instances in what is uncovered"""
    props = ('C23', 'C22')
    target = 'AdjustWithActivitiesFromUnattachedEvents.execute'
    opaque = ('find_maximal_repeats', 'create_repeat_sets', 'build_repeat_set_tree', 'add_unattached_activities', 'default_activity_name_creator')
    compare = 'noraise'

    @staticmethod
    def code(e: Callable, v: int, k: int, f: Callable, w: bool, c: PipelinePartResult):
        return AdjustWithActivitiesFromUnattachedEvents(e, v, ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, k, AdjustingMode.FromAllLog, f, w).execute(c)

    @staticmethod
    def spec(e, v, k, f, w, c):
        begun(c)
        return adjusted(c, log(c), v, e, k, f, w)


class AdjustUnattached:
    """activities made of the repeats of what is uncovered are added, and their instances in what is uncovered"""
    props = ('C23', 'C22')
    target = 'AdjustWithActivitiesFromUnattachedEvents.execute'
    opaque = ('find_maximal_repeats', 'create_repeat_sets', 'build_repeat_set_tree', 'add_unattached_activities', 'create_unattached_events_log', 'default_activity_name_creator')
    compare = 'noraise'

    @staticmethod
    def code(e: Callable, v: int, k: int, f: Callable, w: bool, c: PipelinePartResult):
        return AdjustWithActivitiesFromUnattachedEvents(e, v, ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, k, AdjustingMode.FromUnattachedSubTraces, f, w).execute(c)

    @staticmethod
    def spec(e, v, k, f, w, c):
        begun(c)
        return adjusted(c, create_unattached_events_log(log(c), traces_activities(c)), v, e, k, f, w)


class AdjustMerged:
    """the strategy decides what the repeats are searched in, not where instances are"""
    props = ('C23', 'C28')
    target = 'AdjustWithActivitiesFromUnattachedEvents.execute'
    opaque = ('find_maximal_repeats', 'create_repeat_sets', 'build_repeat_set_tree', 'add_unattached_activities', 'merge_all_traces_in_one_log', 'default_activity_name_creator')
    compare = 'noraise'

    @staticmethod
    def code(e: Callable, v: int, k: int, f: Callable, w: bool, c: PipelinePartResult):
        return AdjustWithActivitiesFromUnattachedEvents(e, v, ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace, k, AdjustingMode.FromAllLog, f, w).execute(c)

    @staticmethod
    def spec(e, v, k, f, w, c):
        begun(c)
        return adjusted(c, merge_all_traces_in_one_log(log(c)), v, e, k, f, w)


class SeveralLevels:
    """each class extractor gets a level of its own, in order, with the options given"""
    props = ('C23', 'C24')
    target = 'DiscoverActivitiesForSeveralLevels.execute'
    opaque = ('AdjustWithActivitiesFromUnattachedEvents.execute',)
    compare = 'noraise'

    @staticmethod
    def code(e: list[Callable], s: int, v: int, k: int, m: AdjustingMode, f: Callable, w: bool, c: PipelinePartResult):
        return DiscoverActivitiesForSeveralLevels(e, s, v, k, m, f, w).execute(c)

    @staticmethod
    def spec(e, s, v, k, m, f, w, c):
        for i in range(len(e)):
            c = AdjustWithActivitiesFromUnattachedEvents(class_extractor=e[i], activity_level=v + i, activities_discovery_strategy=s, min_events_in_trace=k,
                                                         adjusting_mode=m, activities_in_trace_filter=f, should_narrow_activity=w).execute(c)
        return c


class EveryPattern:
    """the patterns of the context are extended over the classes given"""
    props = ('C23', 'C30')
    target = 'AddAllPatterns.execute'
    opaque = ('add_all_patterns', '_do_create_hashes_traces')
    compare = 'noraise'

    @staticmethod
    def code(e: Callable, c: PipelinePartResult):
        return AddAllPatterns(e).execute(c)

    @staticmethod
    def spec(e, c):
        from ficus.legacy.analysis.patterns.util import _do_create_hashes_traces
        return c.with_patterns(add_all_patterns(_do_create_hashes_traces(log(c), e), patterns(c)))


class NameOfActivity:
    """an activity is by default named after the events it was found in"""
    props = ('C24',)
    target = 'default_activity_name_creator'
    opaque = ('create_activity_name_from_log',)

    @staticmethod
    def code(s: SubArrayWithTraceIndex, g: MyEventLog, e: Callable):
        return default_activity_name_creator(s, g, e)

    @staticmethod
    def spec(s, g, e):
        return create_activity_name_from_log(g, s, e)


class LevelPath:
    """graphs of different levels are saved to different files next to each other"""
    props = ('C26',)
    target = 'default_activities_level_save_path_mutator'

    @staticmethod
    def code(p: str, n: int):
        return default_activities_level_save_path_mutator(p, n)

    @staticmethod
    def spec(p, n):
        import os
        return os.path.splitext(p)[0] + '_' + str(n) + os.path.splitext(p)[1]


class DrawOne:
    """the graph of the context is drawn to the path given"""
    props = ('C23', 'C26')
    target = 'DrawGraph.execute'
    mutates = ('_do_draw_graph',)
    compare = 'noraise'

    @staticmethod
    def code(p: str, c: PipelinePartResult):
        return DrawGraph(p).execute(c)

    @staticmethod
    def spec(p, c):
        from ficus.legacy.analysis.patterns.patterns_graphs import _do_draw_graph
        _do_draw_graph(graph(c), p)
        return c


class LevelGraphs:
    """for every level the graph of its activities is drawn to a path of its own; the context stays as it is"""
    props = ('C23', 'C26', 'C29')
    target = 'DrawActivitiesGraphByEventClassLevels.execute'
    mutates = ('_do_draw_graph',)
    opaque = ('split_activities_by_level', 'split_activities_by_levels_dict', 'build_graph')
    compare = 'noraise'

    @staticmethod
    def code(p: str, r: bool, f: Callable, n: Callable, m: Callable, c: PipelinePartResult):
        return DrawActivitiesGraphByEventClassLevels(p, True, r, f, n, m).execute(c)

    @staticmethod
    def spec(p, r, f, n, m, c):
        from ficus.legacy.analysis.patterns.patterns_graphs import _do_draw_graph
        for x, _ in split_activities_by_level(activities(c)):
            q = None if p is None else m(p, x)
            _do_draw_graph(build_graph(nodes=split_activities_by_levels_dict(activities(c))[x], graph_name='Activities Graph', add_root_node=r,
                                       set_attributes_to_func=f, node_name_creator=n), q)
        return c


class ClassTreeGraph:
    """the graph of the class tree is drawn to the path given; the context stays as it is"""
    props = ('C23', 'C26', 'C29')
    target = 'DrawEventClassTree.execute'
    mutates = ('_do_draw_graph',)
    opaque = ('build_graph', 'default_node_name_creator')
    compare = 'noraise'

    @staticmethod
    def code(r: bool, p: str, f: Callable, c: PipelinePartResult):
        return DrawEventClassTree(r, p, f).execute(c)

    @staticmethod
    def spec(r, p, f, c):
        from ficus.legacy.analysis.patterns.patterns_graphs import _do_draw_graph
        _do_draw_graph(build_graph(event_class_tree(c), graph_name='Event Class Graph', add_root_node=r,
                                   set_attributes_to_func=f, node_name_creator=default_node_name_creator), p)
        return c


class GraphText:
    """the text of a graph is its lines but the first and last, sorted"""
    props = ('C29',)
    target = 'serialize_graphviz_graph'

    @staticmethod
    def code(g: graphviz.Digraph):
        return serialize_graphviz_graph(g)

    @staticmethod
    def spec(g):
        x = str(g).split('\n')
        return '\n'.join(sorted(x[1:-1]))


class GraphStored:
    """the text of the graph is put in the context"""
    props = ('C23',)
    target = 'SerializeGraph.execute'
    opaque = ('serialize_graphviz_graph',)
    compare = 'noraise'

    @staticmethod
    def code(c: PipelinePartResult):
        return SerializeGraph().execute(c)

    @staticmethod
    def spec(c):
        return c.with_serialized_graph(serialize_graphviz_graph(graph(c)))


class UntilNoMore:
    """repeats are replaced by activities in the log as long as there are any and the log changes its size"""
    props = ('C23', 'C22')
    target = 'DiscoverActivitiesInstancesFromRepeatsUntilNoMore.execute'
    opaque = ('DiscoverActivitiesInstancesFromRepeats.execute', 'CreateLogFromActivities.execute', 'ClearActivities.execute', 'calculate_events_count')
    compare = 'ret'

    @staticmethod
    def code(e: Callable, h: bool, k: int, f: Callable, w: bool, v: int, b: bool, s: object, c: PipelinePartResult):
        return DiscoverActivitiesInstancesFromRepeatsUntilNoMore(e, h, s, k, f, w, v, b).execute(c)

    @staticmethod
    def spec(e, h, k, f, w, v, b, s, c):
        n = calculate_events_count(log(c))
        while True:
            p = c
            c = DiscoverActivitiesInstancesFromRepeats(RepeatActivitiesSource.MaximalRepeats, activity_level=v, class_extractor=e, activity_in_trace_filter=f,
                                                       activities_discovery_strategy=s, should_narrow_activity=w).execute(ClearActivities().execute(c))
            if sum(len(x) for x in traces_activities(c)) == 0:
                return p
            c = CreateLogFromActivities(use_hashes_as_names=h).execute(c)
            if b:
                v = v + 1
            m = calculate_events_count(log(c))
            if m == n:
                return c
            n = m
