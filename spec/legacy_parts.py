"""What legacy pipeline parts hand to the algorithms they stand for."""
import copy
import pm4py
from typing import Any, Callable, Union
import matplotlib.pyplot as plt
from ficus.legacy.util import *
from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
from ficus.legacy.log.pm4py_converters import to_pm4py_log
from ficus.legacy.pipelines.pipelines import *
from ficus.legacy.pipelines.contexts.part_results import *
from ficus.legacy.pipelines.contexts.accessors import *
from ficus.legacy.pipelines.mutations.mutations_parts import *
from ficus.legacy.pipelines.filtering.filter_parts import *
from ficus.legacy.pipelines.discovery.discovery_parts import *
from ficus.legacy.pipelines.analysis.analysis_parts import *
from ficus.legacy.pipelines.analysis.high_level import *
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import *
from ficus.legacy.pipelines.analysis.patterns.patterns_graph_parts import *
from ficus.legacy.pipelines.analysis.patterns.models import *
from ficus.legacy.analysis.event_log_analysis import *
from ficus.legacy.analysis.event_log_analysis_entropy import draw_position_entropies_histogram
from ficus.legacy.analysis.event_log_info import *
from ficus.legacy.analysis.event_log_split import *
from ficus.legacy.analysis.patterns.event_log_patterns import *
from ficus.legacy.analysis.patterns.patterns_graphs import *
from ficus.legacy.analysis.patterns.util import *
from ficus.legacy.filtering.event_log_filters import *
from ficus.legacy.mutations.event_log_mutations import *

class RemoveByName:
    """the named events are removed from the log"""
    props = ('C23',)
    target = 'RemoveEventFromLogByName.execute'
    opaque = ('remove_event_from_log',)
    compare = 'noraise'

    @staticmethod
    def code(n: str, c: PipelinePartResult):
        return log(RemoveEventFromLogByName(n).execute(c))

    @staticmethod
    def spec(n, c):
        return remove_event_from_log(log(c), n)


class RemoveByNames:
    """events with any of the names are removed from the log"""
    props = ('C23',)
    target = 'RemoveEventsFromLogByNames.execute'
    opaque = ('remove_events_from_log',)
    compare = 'noraise'

    @staticmethod
    def code(n: list[str], c: PipelinePartResult):
        return log(RemoveEventsFromLogByNames(n).execute(c))

    @staticmethod
    def spec(n, c):
        return remove_events_from_log(log(c), set(n))


class RemoveByPredicate:
    """events satisfying the predicate are removed; the rest of the context stays"""
    props = ('C23',)
    target = 'RemoveEventsFromLogPredicate.execute'
    opaque = ('filter_log',)
    compare = 'noraise'

    @staticmethod
    def code(f: Callable, c: PipelinePartResult):
        return RemoveEventsFromLogPredicate(f).execute(c)

    @staticmethod
    def spec(f, c):
        return c.with_log(filter_log(log(c), f))


class PreprocessNames:
    """names of events are rewritten by the function"""
    props = ('C23',)
    target = 'PreprocessEventsNames.execute'
    calls = ('preprocess_event_names_inplace',)
    compare = 'noraise'

    @staticmethod
    def code(f: Callable, c: PipelinePartResult):
        return log(PreprocessEventsNames(f).execute(c))

    @staticmethod
    def spec(f, c):
        preprocess_event_names_inplace(log(c), f)
        return log(c)


class PreprocessAll:
    """every event is preprocessed"""
    props = ('C23',)
    target = 'PreprocessEvents.execute'
    calls = ('preprocess_events',)
    compare = 'noraise'

    @staticmethod
    def code(f: Callable, c: PipelinePartResult):
        return PreprocessEvents(f).execute(c)

    @staticmethod
    def spec(f, c):
        preprocess_events(log(c), f)
        return c


class Substitute:
    """activities are replaced by their underlying events in every trace"""
    props = ('C23',)
    target = 'SubstituteUnderlyingEvents.execute'
    opaque = ('substitute_original_events',)
    compare = 'noraise'

    @staticmethod
    def code(c: PipelinePartResult):
        return SubstituteUnderlyingEvents().execute(c)

    @staticmethod
    def spec(c):
        r = MyEventLog()
        for t in log(c):
            r.append(substitute_original_events(t))
        return c.with_log(r)


class ApplyClasses:
    """selected events are renamed to their class"""
    props = ('C23',)
    target = 'ApplyClassExtractor.execute'
    compare = 'noraise'

    @staticmethod
    def code(f: Callable, s: Callable, c: PipelinePartResult):
        return ApplyClassExtractor(f, s).execute(c)

    @staticmethod
    def spec(f, s, c):
        for t in log(c):
            for e in t:
                if s(e):
                    e["concept:name"] = f(e)
        return c


class ApplyClassesToAll:
    """without a selector every event is renamed"""
    props = ('C23',)
    target = 'ApplyClassExtractor.execute'
    compare = 'noraise'

    @staticmethod
    def code(f: Callable, c: PipelinePartResult):
        return ApplyClassExtractor(f).execute(c)

    @staticmethod
    def spec(f, c):
        for t in log(c):
            for e in t:
                e["concept:name"] = f(e)
        return c


class NoLifecycle:
    """lifecycle attributes are removed from the log"""
    props = ('C23',)
    target = 'RemoveLifecycleTransitionsAttributes.execute'
    calls = ('remove_lifecycle_attribute',)
    compare = 'noraise'

    @staticmethod
    def code(c: PipelinePartResult):
        return RemoveLifecycleTransitionsAttributes().execute(c)

    @staticmethod
    def spec(c):
        remove_lifecycle_attribute(log(c))
        return c


class StartEnd:
    """every trace gets one artificial start in front and one artificial end behind"""
    props = ('C23',)
    target = 'AddArtificialStartEndEvents.execute'
    compare = 'noraise'

    @staticmethod
    def code(c: PipelinePartResult):
        return AddArtificialStartEndEvents().execute(c)

    @staticmethod
    def spec(c):
        for t in log(c):
            t.append(MyEvent({"concept:name": "ARTIFICIAL_END"}))
            t.insert(MyEvent({"concept:name": "ARTIFICIAL_START"}), 0)
        return c


class UsePosEntropyDirectFilter:
    """the filter runs with threshold, limit and protected events as given"""
    props = ('C23', 'C17')
    target = 'PosEntropyDirectFilter.execute'
    opaque = ('filter_events_pos_entropy_direct',)
    compare = 'noraise'

    @staticmethod
    def code(t: float, m: int, f: Callable, c: PipelinePartResult):
        return log(PosEntropyDirectFilter(t, max_events_to_remove=m, untouchable_event_func=f).execute(c))

    @staticmethod
    def spec(t, m, f, c):
        return filter_events_pos_entropy_direct(log(c), threshold=t, max_events_to_remove=m, untouchable_event_func=f)


class UsePosEntropyIndirectFilter:
    """the filter runs with threshold, limit and protected events as given"""
    props = ('C23', 'C17')
    target = 'PosEntropyIndirectFilter.execute'
    opaque = ('filter_events_pos_entropy_indirect',)
    compare = 'noraise'

    @staticmethod
    def code(t: float, m: int, f: Callable, c: PipelinePartResult):
        return log(PosEntropyIndirectFilter(t, max_events_to_remove=m, untouchable_event_func=f).execute(c))

    @staticmethod
    def spec(t, m, f, c):
        return filter_events_pos_entropy_indirect(log(c), threshold=t, max_events_to_remove=m, untouchable_event_func=f)


class UseDfgDirect:
    """the filter runs with threshold, smoothing and limit as given"""
    props = ('C23', 'C17')
    target = 'DfgEntropyDirectFilter.execute'
    opaque = ('filter_events_default_entropy_direct',)
    compare = 'noraise'

    @staticmethod
    def code(t: float, l: bool, m: int, c: PipelinePartResult):
        return log(DfgEntropyDirectFilter(t, l, m).execute(c))

    @staticmethod
    def spec(t, l, m, c):
        return filter_events_default_entropy_direct(log(c), laplace=l, threshold=t, max_events_to_remove=m, untouchable_event_func=default_untouchable_func)


class UseDfgIndirect:
    """the filter runs with threshold, smoothing, limit and top share as given"""
    props = ('C23', 'C17')
    target = 'DfgEntropyIndirectFilter.execute'
    opaque = ('filter_events_default_entropy_indirect',)
    compare = 'noraise'

    @staticmethod
    def code(t: float, l: bool, m: int, p: float, c: PipelinePartResult):
        return log(DfgEntropyIndirectFilter(t, l, m, p).execute(c))

    @staticmethod
    def spec(t, l, m, p, c):
        return filter_events_default_entropy_indirect(log(c), laplace=l, threshold=t, top_percent=p, max_events_to_remove=m, untouchable_event_func=default_untouchable_func)


class ShowDrawPosEntropyDirectTillEndFilteringDiagram:
    """the metric of every removal is plotted in order"""
    props = ('C23',)
    target = 'DrawPosEntropyDirectTillEndFilteringDiagram.execute'
    opaque = ('filter_events_pos_entropy_direct_till_end',)
    focus = ('plot', 'setitem', 'delitem', 'mutate', 'setattr')
    compare = 'noraise'

    @staticmethod
    def code(k: TillEndFilteringMetricKind, c: PipelinePartResult):
        return DrawPosEntropyDirectTillEndFilteringDiagram(k).execute(c)

    @staticmethod
    def spec(k, c):
        plt.plot([m for _, m in filter_events_pos_entropy_direct_till_end(log(c), metric_kind=k, untouchable_event_func=default_untouchable_func)])
        return c


class ShowDrawPosEntropyIndirectTillEndFilteringDiagram:
    """the metric of every removal is plotted in order"""
    props = ('C23',)
    target = 'DrawPosEntropyIndirectTillEndFilteringDiagram.execute'
    opaque = ('filter_events_pos_entropy_indirect_till_end',)
    focus = ('plot', 'setitem', 'delitem', 'mutate', 'setattr')
    compare = 'noraise'

    @staticmethod
    def code(k: TillEndFilteringMetricKind, c: PipelinePartResult):
        return DrawPosEntropyIndirectTillEndFilteringDiagram(k).execute(c)

    @staticmethod
    def spec(k, c):
        plt.plot([m for _, m in filter_events_pos_entropy_indirect_till_end(log(c), metric_kind=k, untouchable_event_func=default_untouchable_func)])
        return c


class TracesByCount:
    """traces with at most the given number of events are dropped"""
    props = ('C23', 'C16')
    target = 'FilterTracesByCount.execute'
    opaque = ('remove_empty_traces',)
    compare = 'noraise'

    @staticmethod
    def code(n: int, c: PipelinePartResult):
        return FilterTracesByCount(n).execute(c)

    @staticmethod
    def spec(n, c):
        return c.with_log(remove_empty_traces(log(c), min_event_count=n))


class TracesByVariants:
    """the first trace of every variant is kept"""
    props = ('C23', 'C16')
    target = 'FilterTracesByVariants.execute'
    opaque = ('split_log_by_traces',)
    compare = 'noraise'

    @staticmethod
    def code(c: PipelinePartResult):
        return FilterTracesByVariants().execute(c)

    @staticmethod
    def spec(c):
        r = MyEventLog()
        for v in split_log_by_traces(log(c)):
            r.append(v[0])
        return c.with_log(r)


class Inductive:
    """the net and its markings are those discovered from the log with the noise threshold"""
    props = ('C23',)
    target = 'DiscoverPetriNetInductive.execute'
    opaque = ('to_pm4py_log',)
    compare = 'noraise'

    @staticmethod
    def code(t: float, c: PipelinePartResult):
        return petri_net(DiscoverPetriNetInductive(t).execute(c))

    @staticmethod
    def spec(t, c):
        n, a, b = pm4py.discover_petri_net_inductive(to_pm4py_log(log(c)), noise_threshold=t)
        return petri_net(c.with_petri_net(PetriNetWrapper(n, a, b)))


class Alpha:
    """the net and its markings are those discovered from the log"""
    props = ('C23',)
    target = 'DiscoverPetriNetAlpha.execute'
    opaque = ('to_pm4py_log',)
    compare = 'noraise'

    @staticmethod
    def code(c: PipelinePartResult):
        return petri_net(DiscoverPetriNetAlpha().execute(c))

    @staticmethod
    def spec(c):
        n, a, b = pm4py.discover_petri_net_alpha(to_pm4py_log(log(c)))
        return petri_net(c.with_petri_net(PetriNetWrapper(n, a, b)))


class AlphaPlus:
    """the net and its markings are those discovered from the log"""
    props = ('C23',)
    target = 'DiscoverPetriNetAlphaPlus.execute'
    opaque = ('to_pm4py_log',)
    compare = 'noraise'

    @staticmethod
    def code(c: PipelinePartResult):
        return petri_net(DiscoverPetriNetAlphaPlus().execute(c))

    @staticmethod
    def spec(c):
        n, a, b = pm4py.discover_petri_net_alpha_plus(to_pm4py_log(log(c)))
        return petri_net(c.with_petri_net(PetriNetWrapper(n, a, b)))


class Heuristic:
    """the thresholds given are those of the discovery"""
    props = ('C23',)
    target = 'DiscoverPetriNetHeuristic.execute'
    opaque = ('to_pm4py_log',)
    compare = 'noraise'

    @staticmethod
    def code(d: float, a: float, l: float, c: PipelinePartResult):
        return petri_net(DiscoverPetriNetHeuristic(d, a, l).execute(c))

    @staticmethod
    def spec(d, a, l, c):
        n, x, y = pm4py.discover_petri_net_heuristics(to_pm4py_log(log(c)), dependency_threshold=d, and_threshold=a, loop_two_threshold=l)
        return petri_net(c.with_petri_net(PetriNetWrapper(n, x, y)))


class ShowNet:
    """the net is saved to the path given, or shown"""
    props = ('C23', 'C26')
    target = 'DrawPetriNet.execute'
    compare = 'noraise'

    @staticmethod
    def code(p: str, c: PipelinePartResult):
        return DrawPetriNet(p).execute(c)

    @staticmethod
    def spec(p, c):
        n = petri_net(c)
        if p is not None:
            pm4py.save_vis_petri_net(n.petri_net, n.start_marking, n.end_marking, p)
        else:
            pm4py.view_petri_net(n.petri_net, n.start_marking, n.end_marking)
        return c


class Diversity:
    """the diagram is drawn with every option as given"""
    props = ('C23', 'C26')
    target = 'TracesDiversityDiagram.execute'
    calls = ('draw_traces_diversity_diagram',)
    compare = 'noraise'

    @staticmethod
    def code(l: bool, h: int, w: int, p: str, t: str, c: PipelinePartResult):
        TracesDiversityDiagram(l, height_scale=h, width_scale=w, save_path=p, title=t).execute(c)

    @staticmethod
    def spec(l, h, w, p, t, c):
        draw_traces_diversity_diagram(log(c), cached_colors(c), title=t, save_path=p if p is not None else None, plot_legend=l, height_scale=h, width_scale=w)


class DiversityCreatedPath:
    """a path creator is asked for the path"""
    props = ('C23', 'C26')
    target = 'TracesDiversityDiagram.execute'
    calls = ('draw_traces_diversity_diagram',)
    compare = 'noraise'

    @staticmethod
    def code(l: bool, h: int, w: int, p: Callable, t: str, c: PipelinePartResult, k: dict[str, str]):
        TracesDiversityDiagram(l, height_scale=h, width_scale=w, save_path=lambda r: p(r), title=t).execute(c.with_cached_colors(k))

    @staticmethod
    def spec(l, h, w, p, t, c, k):
        c.with_cached_colors(k)
        draw_traces_diversity_diagram(log(c), k, title=t, save_path=p(c), plot_legend=l, height_scale=h, width_scale=w)


class Histogram:
    """the histogram is drawn with every option as given"""
    props = ('C23', 'C26')
    target = 'TracesHistogram.execute'
    calls = ('draw_traces_histogram',)
    compare = 'noraise'

    @staticmethod
    def code(p: str, t: str, c: PipelinePartResult):
        return TracesHistogram(p, t).execute(c)

    @staticmethod
    def spec(p, t, c):
        draw_traces_histogram(log(c), save_path=p, title=t)
        return c


class Placement:
    """the placement of the events is drawn with every option as given"""
    props = ('C23', 'C26')
    target = 'EventsPlacement.execute'
    calls = ('draw_placements_of_concrete_events',)
    compare = 'noraise'

    @staticmethod
    def code(e: set[str], l: bool, h: int, p: str, t: str, c: PipelinePartResult):
        EventsPlacement(e, l, h, p, t).execute(c)

    @staticmethod
    def spec(e, l, h, p, t, c):
        draw_placements_of_concrete_events(log(c), cached_colors(c), e, save_path=p, title=t, height_scale=h, plot_legend=l)


class EntropyHistogram:
    """the histogram is drawn with every option as given"""
    props = ('C23', 'C26')
    target = 'DrawDefaultEntropyHistogram.execute'
    calls = ('draw_events_entropy_histogram',)
    compare = 'noraise'

    @staticmethod
    def code(p: str, t: str, c: PipelinePartResult):
        return DrawDefaultEntropyHistogram(p, t).execute(c)

    @staticmethod
    def spec(p, t, c):
        draw_events_entropy_histogram(log(c), save_path=p, title=t)
        return c


class PosEntropyHistogram:
    """the histogram of the log is drawn"""
    props = ('C23',)
    target = 'DrawPosEntropyHistogram.execute'
    calls = ('draw_position_entropies_histogram',)
    compare = 'noraise'

    @staticmethod
    def code(c: PipelinePartResult):
        return DrawPosEntropyHistogram().execute(c)

    @staticmethod
    def spec(c):
        draw_position_entropies_histogram(log(c))
        return c


class PlacementOfEvents:
    """the placement of the selected events is drawn with every option as given"""
    props = ('C23', 'C26')
    target = 'DrawPlacementOfEvents.execute'
    calls = ('draw_placements_of_events',)
    compare = 'noraise'

    @staticmethod
    def code(f: Callable, t: str, l: bool, h: int, w: int, p: str, c: PipelinePartResult):
        DrawPlacementOfEvents(f, t, l, h, w, p).execute(c)

    @staticmethod
    def spec(f, t, l, h, w, p, c):
        draw_placements_of_events(log(c), cached_colors(c), f, title=t, save_path=p if p is not None else None, height_scale=h, width_scale=w, plot_legend=l)


class EventNames:
    """all event names are written to the file"""
    props = ('C23', 'C26')
    target = 'SaveAllEventNames.execute'
    opaque = ('create_log_information',)
    compare = 'noraise'

    @staticmethod
    def code(p: str, c: PipelinePartResult):
        return SaveAllEventNames(p).execute(c)

    @staticmethod
    def spec(p, c):
        with open(p, 'w') as f:
            f.write('\n\n'.join(create_log_information(log(c)).events_count.keys()))
        return c


class Info:
    """traces, events and classes of the log are printed"""
    props = ('C23', 'C27')
    target = 'PrintEventLogInfo.execute'
    opaque = ('create_log_information',)
    prints = True
    compare = 'noraise'

    @staticmethod
    def code(c: PipelinePartResult):
        return PrintEventLogInfo().execute(c)

    @staticmethod
    def spec(c):
        i = create_log_information(log(c))
        print('============================================')
        print(f'Number of traces in log: {len(log(c))}')
        print(f'Number of events in log: {sum(map(len, log(c)))}')
        print(f'Number of low-level event classes in log: {len(i.events_count)}')
        print('============================================')
        return c


class InfoBeforeAfter:
    """the inner pipeline runs once on the input; information is printed before and after"""
    props = ('C23', 'C12')
    target = 'PrintEventLogInfoBeforeAndAfter.execute'
    calls = ('PrintEventLogInfo.execute',)
    mutates = ('Pipeline.execute',)
    compare = 'noraise'

    @staticmethod
    def code(n: str, p: Pipeline, c: PipelinePartResult):
        return PrintEventLogInfoBeforeAndAfter(n, p).execute(c)

    @staticmethod
    def spec(n, p, c):
        PrintEventLogInfo().execute(c)
        r = p.execute(c)
        PrintEventLogInfo().execute(r)
        return r


class Followers:
    """the followers of the selected events are printed with their counts"""
    props = ('C23', 'C27')
    target = 'PrintDFG.execute'
    opaque = ('create_log_information',)
    prints = True
    compare = 'noraise'

    @staticmethod
    def code(s: Callable, c: PipelinePartResult):
        return PrintDFG(s).execute(c)

    @staticmethod
    def spec(s, c):
        i = create_log_information(log(c))
        for n in i.dfg.followed_events:
            if s(n):
                print(f'Followers of {n}:')
                for m in i.dfg.followed_events[n]:
                    print(f'{m}: {i.dfg.followed_events[n][m]}')
                print()
        return c


class ArraysPrimitiveArray:
    """the arrays of the chosen kind are found with the length limit and classes given"""
    props = ('C23', 'C24')
    target = 'DiscoverTandemArrays.execute'
    opaque = ('find_primitive_tandem_arrays', 'find_maximal_tandem_arrays', 'default_class_extractor')
    compare = 'noraise'

    @staticmethod
    def code(m: int, e: Callable, c: PipelinePartResult):
        return DiscoverTandemArrays(TandemArrayKind.PrimitiveArray, m, e).execute(c)

    @staticmethod
    def spec(m, e, c):
        return c.with_patterns(find_primitive_tandem_arrays(log(c), max_tandem_array_length=m, event_class_extractor=default_class_extractor if e is None else e))


class ArraysMaximalArray:
    """the arrays of the chosen kind are found with the length limit and classes given"""
    props = ('C23', 'C24')
    target = 'DiscoverTandemArrays.execute'
    opaque = ('find_primitive_tandem_arrays', 'find_maximal_tandem_arrays', 'default_class_extractor')
    compare = 'noraise'

    @staticmethod
    def code(m: int, e: Callable, c: PipelinePartResult):
        return DiscoverTandemArrays(TandemArrayKind.MaximalArray, m, e).execute(c)

    @staticmethod
    def spec(m, e, c):
        return c.with_patterns(find_maximal_tandem_arrays(log(c), max_tandem_array_length=m, event_class_extractor=default_class_extractor if e is None else e))


class RepeatsMaximalRepeats:
    """the repeats of the chosen kind are found with the classes given"""
    props = ('C23', 'C24')
    target = 'DiscoverRepeats.execute'
    opaque = ('find_maximal_repeats', 'find_super_maximal_repeats', 'find_near_super_maximal_repeats', 'default_class_extractor')
    compare = 'noraise'

    @staticmethod
    def code(e: Callable, c: PipelinePartResult):
        return DiscoverRepeats(RepeatActivitiesSource.MaximalRepeats, e).execute(c)

    @staticmethod
    def spec(e, c):
        return c.with_patterns(find_maximal_repeats(log(c), default_class_extractor if e is None else e))


class RepeatsSuperMaximalRepeats:
    """the repeats of the chosen kind are found with the classes given"""
    props = ('C23', 'C24')
    target = 'DiscoverRepeats.execute'
    opaque = ('find_maximal_repeats', 'find_super_maximal_repeats', 'find_near_super_maximal_repeats', 'default_class_extractor')
    compare = 'noraise'

    @staticmethod
    def code(e: Callable, c: PipelinePartResult):
        return DiscoverRepeats(RepeatActivitiesSource.SuperMaximalRepeats, e).execute(c)

    @staticmethod
    def spec(e, c):
        return c.with_patterns(find_super_maximal_repeats(log(c), default_class_extractor if e is None else e))


class RepeatsNearSuperMaximalRepeats:
    """the repeats of the chosen kind are found with the classes given"""
    props = ('C23', 'C24')
    target = 'DiscoverRepeats.execute'
    opaque = ('find_maximal_repeats', 'find_super_maximal_repeats', 'find_near_super_maximal_repeats', 'default_class_extractor')
    compare = 'noraise'

    @staticmethod
    def code(e: Callable, c: PipelinePartResult):
        return DiscoverRepeats(RepeatActivitiesSource.NearSuperMaximalRepeats, e).execute(c)

    @staticmethod
    def spec(e, c):
        return c.with_patterns(find_near_super_maximal_repeats(log(c), default_class_extractor if e is None else e))


class RepeatSets:
    """repeat sets are made of the patterns with the classes given"""
    props = ('C23', 'C24')
    target = 'DiscoverRepeatsSets.execute'
    opaque = ('create_repeat_sets', 'default_class_extractor')
    compare = 'noraise'

    @staticmethod
    def code(e: Callable, c: PipelinePartResult):
        return DiscoverRepeatsSets(e).execute(c)

    @staticmethod
    def spec(e, c):
        return c.with_repeat_sets(create_repeat_sets(log(c), patterns(c), event_class_extractor=default_class_extractor if e is None else e))


class Tree:
    """activities are built of the repeat sets with level, classes and names as given"""
    props = ('C23', 'C24')
    target = 'DiscoverActivities.execute'
    opaque = ('build_repeat_set_tree', 'default_class_extractor')
    compare = 'noraise'

    @staticmethod
    def code(v: int, e: Callable, n: Callable, c: PipelinePartResult):
        return DiscoverActivities(v, e, n).execute(c)

    @staticmethod
    def spec(v, e, n, c):
        x = default_class_extractor if e is None else e
        g = log(c)
        return c.with_activities(build_repeat_set_tree(g, repeat_sets(c), activity_level=v, activity_names_creator=lambda s: n(s, g, x), event_class_extractor=x))


class Instances:
    """instances of the activities are found with classes, filter and narrowing as given"""
    props = ('C23', 'C24')
    target = 'DiscoverActivitiesInTraces.execute'
    opaque = ('extract_activities_from_log',)
    compare = 'noraise'

    @staticmethod
    def code(e: Callable, f: Callable, n: bool, c: PipelinePartResult):
        return DiscoverActivitiesInTraces(e, f, n).execute(c)

    @staticmethod
    def spec(e, f, n, c):
        return c.with_trace_activities(extract_activities_from_log(log(c), activities(c), event_class_extractor=e, activity_filter=f, should_narrow_activity=n))


class ToLog:
    """the log is made of the instances with strategy and naming as given"""
    props = ('C23', 'C22')
    target = 'CreateLogFromActivities.execute'
    opaque = ('create_new_log_from_activities',)
    compare = 'noraise'

    @staticmethod
    def code(s: UndefinedActivityHandlingStrategy, h: bool, c: PipelinePartResult):
        return CreateLogFromActivities(s, h).execute(c)

    @staticmethod
    def spec(s, h, c):
        return c.with_log(create_new_log_from_activities(log(c), traces_activities(c), use_hashes_as_names=h, strategy=s))


class PrintNames:
    """the names of the activities are printed exactly if asked for"""
    props = ('C23',)
    target = 'PrintActivities.execute'
    prints = True
    compare = 'noraise'

    @staticmethod
    def code(d: bool, c: PipelinePartResult):
        return PrintActivities(d).execute(c)

    @staticmethod
    def spec(d, c):
        if d:
            print('Found activities:')
            for a in activities(c):
                print(a.name)
                print()
        return c


class Unattached:
    """instances among unattached events are added with every option as given"""
    props = ('C23', 'C24')
    target = 'DiscoverActivitiesInUnattachedSubTraces.execute'
    opaque = ('add_unattached_activities',)
    compare = 'noraise'

    @staticmethod
    def code(e: Callable, m: int, f: Callable, n: bool, c: PipelinePartResult):
        return DiscoverActivitiesInUnattachedSubTraces(e, m, f, n).execute(c)

    @staticmethod
    def spec(e, m, f, n, c):
        return c.with_trace_activities(add_unattached_activities(log(c), activities(c), traces_activities(c), class_extractor=e, min_number_of_events=m, activities_in_trace_filter=f, should_narrow_activity=n))


class LogsForActivities:
    """logs are made per activity of the level with the classes given"""
    props = ('C23', 'C24')
    target = 'CreateLogsForActivities.execute'
    opaque = ('create_logs_for_activities',)
    compare = 'noraise'

    @staticmethod
    def code(v: int, e: Callable, c: PipelinePartResult):
        return CreateLogsForActivities(v, e).execute(c)

    @staticmethod
    def spec(v, e, c):
        return c.with_activities_logs(create_logs_for_activities(log=log(c), activities=traces_activities(c), activity_level=v, class_extractor=e))


class LogsWithPromote:
    """logs are made per activity with level, classes and adjusting as given"""
    props = ('C23', 'C24')
    target = 'CreateLogsForActivitiesWithPromote.execute'
    opaque = ('create_logs_for_activities_with_promote',)
    compare = 'noraise'

    @staticmethod
    def code(v: int, e: list[Callable], a: bool, c: PipelinePartResult):
        return CreateLogsForActivitiesWithPromote(v, e, a).execute(c)

    @staticmethod
    def spec(v, e, a, c):
        return c.with_activities_logs(create_logs_for_activities_with_promote(log=log(c), activities=traces_activities(c), desired_activity_level=v, class_extractors=e, adjust_events_to_max_level=a))


class Cleared:
    """nothing discovered before is left; every trace has an empty list"""
    props = ('C23',)
    target = 'ClearActivities.execute'
    compare = 'ret'

    @staticmethod
    def code(c: PipelinePartResult):
        r = ClearActivities().execute(c)
        return activities(r), traces_activities(r), repeat_sets(r), patterns(r)

    @staticmethod
    def spec(c):
        log(c)
        return [], [[] for _ in log(c)], [], [[] for _ in log(c)]


class DrawShortActivities:
    """the diagram is drawn with every option as given"""
    props = ('C23', 'C26')
    target = 'DrawShortActivitiesDiagram.execute'
    calls = ('draw_short_activity_diagram', 'draw_full_activity_diagram')
    compare = 'noraise'

    @staticmethod
    def code(t: str, l: bool, h: int, w: int, p: str, c: PipelinePartResult):
        DrawShortActivitiesDiagram(t, l, h, w, p).execute(c)

    @staticmethod
    def spec(t, l, h, w, p, c):
        draw_short_activity_diagram(log(c), traces_activities(c), cached_colors(c), title=t, plot_legend=l, save_path=p if p is not None else None, height_scale=h, width_scale=w)


class DrawFullActivities:
    """the diagram is drawn with every option as given"""
    props = ('C23', 'C26')
    target = 'DrawFullActivitiesDiagram.execute'
    calls = ('draw_short_activity_diagram', 'draw_full_activity_diagram')
    compare = 'noraise'

    @staticmethod
    def code(t: str, l: bool, h: int, w: int, p: str, c: PipelinePartResult):
        DrawFullActivitiesDiagram(t, l, h, w, p).execute(c)

    @staticmethod
    def spec(t, l, h, w, p, c):
        draw_full_activity_diagram(log(c), traces_activities(c), cached_colors(c), title=t, plot_legend=l, save_path=p if p is not None else None, height_scale=h, width_scale=w)


class PatternsDiagram:
    """the diagram is drawn with every option as given"""
    props = ('C23', 'C26')
    target = 'DrawPatterns.execute'
    calls = ('draw_patterns',)
    compare = 'noraise'

    @staticmethod
    def code(s: bool, t: str, l: bool, h: int, w: int, p: str, c: PipelinePartResult):
        DrawPatterns(s, t, l, h, w, p).execute(c)

    @staticmethod
    def spec(s, t, l, h, w, p, c):
        draw_patterns(log(c), patterns(c), cached_colors(c), title=t, plot_legend=l, save_path=p if p is not None else None, height_scale=h, width_scale=w, short_diagram=s)


class ActivitiesGraph:
    """the graph is drawn with every option as given"""
    props = ('C23', 'C26')
    target = 'DrawActivitiesGraph.execute'
    calls = ('draw_activity_graph',)
    compare = 'noraise'

    @staticmethod
    def code(p: str, h: bool, r: bool, f: Callable, c: PipelinePartResult):
        DrawActivitiesGraph(p, h, r, f).execute(c)

    @staticmethod
    def spec(p, h, r, f, c):
        draw_activity_graph(activities(c), save_path=p, use_hashes_as_name=h, add_root_node=r, set_attributes_to_func=f)


class SinglePlacement:
    """the placement of the selected activity is drawn with every option as given"""
    props = ('C23', 'C26')
    target = 'DrawSingleActivityPlacement.execute'
    calls = ('draw_activity_placement_diagram',)
    compare = 'noraise'

    @staticmethod
    def code(f: Callable, d: bool, t: str, l: bool, h: int, w: int, p: str, c: PipelinePartResult):
        DrawSingleActivityPlacement(f, d, t, l, h, w, p).execute(c)

    @staticmethod
    def spec(f, d, t, l, h, w, p, c):
        draw_activity_placement_diagram(log(c), f(activities(c)), traces_activities(c), use_different_colors=d, plot_legend=l, height_scale=h, width_scale=w, title=t, save_path=p if p is not None else None)


class LevelGraph:
    """the graph of the chosen level is built with every option as given"""
    props = ('C23',)
    target = 'BuildActivityGraph.execute'
    opaque = ('build_graph', 'split_activities_by_levels_dict')
    compare = 'noraise'

    @staticmethod
    def code(v: int, n: str, r: bool, f: Callable, g: Callable, c: PipelinePartResult):
        return BuildActivityGraph(v, n, r, f, g).execute(c)

    @staticmethod
    def spec(v, n, r, f, g, c):
        return c.with_graph(build_graph(nodes=split_activities_by_levels_dict(activities(c))[v], graph_name=n, add_root_node=r, set_attributes_to_func=f, node_name_creator=g))


class ClassGraph:
    """the graph of the class tree is built with every option as given"""
    props = ('C23',)
    target = 'BuildEventClassGraph.execute'
    opaque = ('build_graph',)
    compare = 'noraise'

    @staticmethod
    def code(n: str, r: bool, f: Callable, g: Callable, c: PipelinePartResult):
        return BuildEventClassGraph(n, r, f, g).execute(c)

    @staticmethod
    def spec(n, r, f, g, c):
        return c.with_graph(build_graph(event_class_tree(c), graph_name=n, add_root_node=r, set_attributes_to_func=f, node_name_creator=g))


class ClassTree:
    """the class tree of the log is built with the classes given"""
    props = ('C23', 'C24')
    target = 'BuildEventClassTree.execute'
    opaque = ('build_class_tree',)
    compare = 'noraise'

    @staticmethod
    def code(e: list[Callable], c: PipelinePartResult):
        return BuildEventClassTree(e).execute(c)

    @staticmethod
    def spec(e, c):
        return c.with_event_class_tree(build_class_tree(log(c), e))


class UnderlyingCount:
    """the number of underlying events is printed"""
    props = ('C23',)
    target = 'PrintNumberOfUnderlyingEvents.execute'
    opaque = ('calculate_underlying_events_count',)
    prints = True
    compare = 'noraise'

    @staticmethod
    def code(c: PipelinePartResult):
        return PrintNumberOfUnderlyingEvents().execute(c)

    @staticmethod
    def spec(c):
        print(f'Underlying events count: {calculate_underlying_events_count(log(c))}')
        return c


class InstancesIndices:
    """every instance of every trace is written in order"""
    props = ('C23',)
    target = 'WriteActivitiesInstancesIndices.execute'
    compare = 'noraise'

    @staticmethod
    def code(p: str, c: PipelinePartResult):
        return WriteActivitiesInstancesIndices(p).execute(c)

    @staticmethod
    def spec(p, c):
        with open(p, 'w') as f:
            for i, t in enumerate(traces_activities(c)):
                f.write(f'Trace {i}\n')
                for a in t:
                    f.write(f'({a.node.unique_name()}, {a.start_pos}, {a.length})\n')
                f.write('\n')
        return c


class InstanceNames:
    """every distinct activity is written once"""
    props = ('C23',)
    target = 'SaveAllActivitiesInstancesNames.execute'
    compare = 'noraise'

    @staticmethod
    def code(p: str, c: PipelinePartResult):
        return SaveAllActivitiesInstancesNames(p).execute(c)

    @staticmethod
    def spec(p, c):
        with open(p if type(p) == str else p(), 'w') as f:
            seen = set()
            for t in traces_activities(c):
                for a in t:
                    if a.node not in seen:
                        f.write(f'{a.node.unique_name()}={a.node.name}\n')
                        seen.add(a.node)
        return c


class MarkEvents:
    """exactly the events of each instance are marked with its activity"""
    props = ('C23',)
    target = 'AddActivityNameToAllEvents.execute'
    compare = 'noraise'

    @staticmethod
    def code(c: PipelinePartResult):
        return AddActivityNameToAllEvents().execute(c)

    @staticmethod
    def spec(c):
        for ts, t in zip(traces_activities(c), log(c).traces):
            for a in ts:
                for i in range(a.start_pos, a.start_pos + a.length):
                    t[i]['activity'] = a.node.unique_name()
        return c


class ShareUnattached:
    """the share of unattached events among all events is printed"""
    props = ('C23',)
    target = 'CalculatePercentageOfUnattachedEvents.execute'
    opaque = ('create_unattached_events_log', 'calculate_events_count')
    prints = True
    compare = 'noraise'

    @staticmethod
    def code(c: PipelinePartResult):
        return CalculatePercentageOfUnattachedEvents().execute(c)

    @staticmethod
    def spec(c):
        u = create_unattached_events_log(log(c), traces_activities(c))
        n = calculate_events_count(log(c))
        if n == 0:
            print('Log is empty, can not calculate unattached events percentage')
        else:
            print(f'Percentage of unattached events: {sum(map(len, u)) / n}')
        return c


class NamesOfUnattached:
    """the names of the unattached events are printed"""
    props = ('C23',)
    target = 'PrintUnattachedEvents.execute'
    opaque = ('create_unattached_events_log',)
    prints = True
    compare = 'noraise'

    @staticmethod
    def code(c: PipelinePartResult):
        return PrintUnattachedEvents().execute(c)

    @staticmethod
    def spec(c):
        print(list({e['concept:name'] for t in create_unattached_events_log(log(c), traces_activities(c)) for e in t}))
        return c


