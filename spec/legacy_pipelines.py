"""Composition of legacy pipelines and the context they pass on."""
import copy
from typing import Any, Callable
from ficus.legacy.util import random_unique_color_provider_instance
from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
from ficus.legacy.log.functions import read_log_from_xes, save_event_log_to_xes
from ficus.legacy.pipelines.pipelines import *
from ficus.legacy.pipelines.contexts.part_results import *
from ficus.legacy.pipelines.contexts.accessors import *
from ficus.legacy.pipelines.start.start_parts import *
from ficus.legacy.pipelines.serialization.pipeline_parts import SaveEventLogToXes
from ficus.legacy.pipelines.analysis.high_level import ExecuteWithEachActivityLog


class NewLegacyPipeline:
    """a pipeline consists of the given parts in order; missing ones are left out, other things rejected"""
    props = ('C12',)
    target = 'Pipeline'

    @staticmethod
    def code(a: object, b: object, c: object):
        return Pipeline(a, b, c).parts

    @staticmethod
    def spec(a, b, c):
        r = []
        for x in (a, b, c):
            if x is not None:
                if not isinstance(x, PipelinePart):
                    raise TypeError()
                r.append(x)
        return r


class Reset:
    """each run starts with fresh colours"""
    props = ('C12', 'C25')
    target = 'Pipeline.execute'
    calls = ('reset',)
    focus = ('reset',)
    compare = 'trace'

    @staticmethod
    def code(p: Pipeline, x: object):
        return p.execute(x)

    @staticmethod
    def spec(p, x):
        random_unique_color_provider_instance.reset()
        r = x
        for part in p.parts:
            r = part.execute(r)
        return r


class Run:
    """each part gets what the part before it returned"""
    identity = True
    props = ('C12',)
    target = 'Pipeline.execute'

    @staticmethod
    def code(p: Pipeline, x: object):
        return p.execute(x)

    @staticmethod
    def spec(p, x):
        r = x
        for part in p.parts:
            r = part.execute(r)
        return r


class Call:
    """calling a pipeline runs it on the argument, or on nothing"""
    props = ('C12',)
    calls = ('Pipeline.execute',)
    target = 'Pipeline.__call__'

    @staticmethod
    def code(p: Pipeline, q: Pipeline, x: object):
        return p(x), q()

    @staticmethod
    def spec(p, q, x):
        return p.execute(x), q.execute(None)


class CallPart:
    """calling a part executes it"""
    props = ('C12',)
    target = 'PipelinePart.__call__'

    @staticmethod
    def code(p: PipelinePart, x: object):
        return p(x)

    @staticmethod
    def spec(p, x):
        return p.execute(x)


class Edit:
    """parts can be appended, inserted and removed at their place"""
    props = ('C12',)
    target = 'Pipeline'

    @staticmethod
    def code(p: Pipeline, a: PipelinePart, b: PipelinePart, i: int, j: int):
        p.append(a)
        p.insert(i, b)
        p.remove(j)

    @staticmethod
    def spec(p, a, b, i, j):
        p.parts.append(a)
        p.parts.insert(i, b)
        del p.parts[j]


class Parallel:
    """every branch gets a copy of its own of the incoming context; the last branch gives the result"""
    identity = True
    props = ('C13',)
    mutates = ('Pipeline.execute',)
    fresh = True
    target = 'ParallelPipeline.execute'

    @staticmethod
    def code(p: Pipeline, q: Pipeline, c: PipelinePartResult):
        return ParallelPipeline(p, q).execute(c)

    @staticmethod
    def spec(p, q, c):
        a = PipelinePartResult()
        a.values = dict(c.values)
        p.execute(a)
        b = PipelinePartResult()
        b.values = dict(c.values)
        return q.execute(b)


class NoBranches:
    """no branches, no result"""
    props = ('C13',)
    target = 'ParallelPipeline.execute'

    @staticmethod
    def code(c: PipelinePartResult):
        return ParallelPipeline().execute(c)

    @staticmethod
    def spec(c):
        return None


class InputCopy:
    """the inner pipeline works on a copy; the incoming context itself is passed on"""
    identity = True
    props = ('C13',)
    mutates = ('Pipeline.execute',)
    fresh = True
    target = 'WithInputCopy.execute'

    @staticmethod
    def code(p: Pipeline, c: PipelinePartResult):
        return WithInputCopy(p).execute(c)

    @staticmethod
    def spec(p, c):
        a = PipelinePartResult()
        a.values = dict(c.values)
        p.execute(a)
        return c


class TempInput:
    """the inner pipeline runs on the transformed input; its result is merged with the original input"""
    identity = True
    props = ('C13',)
    mutates = ('Pipeline.execute',)
    target = 'WithTempInput.execute'

    @staticmethod
    def code(t: Callable, m: Callable, p: Pipeline, c: PipelinePartResult):
        return WithTempInput(t, m, p).execute(c)

    @staticmethod
    def spec(t, m, p, c):
        x = t(c)
        y = p.execute(x)
        return m(c, y)


class If:
    """the inner pipeline runs exactly if the condition holds; otherwise the context passes unchanged"""
    identity = True
    props = ('C13',)
    mutates = ('Pipeline.execute',)
    target = 'IfPipeline.execute'

    @staticmethod
    def code(cond: Callable, p: Pipeline, c: PipelinePartResult):
        return IfPipeline(cond, p).execute(c)

    @staticmethod
    def spec(cond, p, c):
        if cond(c):
            return p.execute(c)
        else:
            return c


class CopyContext:
    """a copied context has the same values and a container of its own"""
    props = ('C13', 'C14')
    fresh = True
    target = 'PipelinePartResult.__copy__'

    @staticmethod
    def code(c: PipelinePartResult):
        return copy.copy(c)

    @staticmethod
    def spec(c):
        r = PipelinePartResult()
        r.values = dict(c.values)
        return r


class Slots:
    """every value is read back from its own slot, whatever else is stored; storing returns the context"""
    identity = True
    props = ('C14',)
    target = 'PipelinePartResult'

    @staticmethod
    def code(a: MyEventLog, b: list, c: list, d: list, e: list, f: PetriNetWrapper, g: list, h: dict, i: str,
             j: graphviz.Digraph, k: str, m: dict):
        r = PipelinePartResult().with_log(a).with_activities(b).with_repeat_sets(c).with_trace_activities(d)
        r = r.with_patterns(e).with_petri_net(f).with_event_class_tree(g).with_activities_logs(h)
        r = r.with_serialized_graph(i).with_graph(j).with_activity_name(k).with_cached_colors(m)
        return (log(r), activities(r), repeat_sets(r), traces_activities(r), patterns(r), petri_net(r), event_class_tree(r),
                activities_to_logs(r), serialized_graph(r), graph(r), activity_name(r), cached_colors(r))

    @staticmethod
    def spec(a, b, c, d, e, f, g, h, i, j, k, m):
        return a, b, c, d, e, f, g, h, i, j, k, m


class Chained:
    """storing a value returns the very context it was stored in"""
    identity = True
    props = ('C14',)
    target = 'PipelinePartResult'

    @staticmethod
    def code(r: PipelinePartResult, a: object):
        return (r.with_log(a) is r, r.with_activities(a) is r, r.with_repeat_sets(a) is r, r.with_trace_activities(a) is r,
                r.with_patterns(a) is r, r.with_petri_net(a) is r, r.with_event_class_tree(a) is r,
                r.with_activities_logs(a) is r, r.with_serialized_graph(a) is r, r.with_graph(a) is r,
                r.with_activity_name(a) is r, r.with_cached_colors(a) is r, r.with_custom_data('x', a) is r)

    @staticmethod
    def spec(r, a):
        return True, True, True, True, True, True, True, True, True, True, True, True, True

    compare = 'ret'


class Custom:
    """custom data is kept under its key and can be asked for and removed"""
    identity = True
    props = ('C14',)
    target = 'PipelinePartResult'

    @staticmethod
    def code(r: PipelinePartResult, k: str, v: object, k2: str, k3: str):
        r.with_custom_data(k, v)
        x = r.has_value(k2), r.get_value_or_throw(k2)
        r.remove(k3)
        return x

    @staticmethod
    def spec(r, k, v, k2, k3):
        r.values[k] = v
        if k2 not in r.values:
            raise ValueError()
        x = True, r.values[k2]
        del r.values[k3]
        return x


class MissingLog:
    """asking for a log that was never stored is an error"""
    props = ('C14',)
    target = 'log'

    @staticmethod
    def code():
        return log(PipelinePartResult())

    @staticmethod
    def spec():
        raise ValueError()


class MissingActivities:
    """asking for activities that were never stored is an error"""
    props = ('C14',)
    target = 'activities'

    @staticmethod
    def code():
        return activities(PipelinePartResult())

    @staticmethod
    def spec():
        raise ValueError()


class MissingRepeatSets:
    """asking for repeat sets that were never stored is an error"""
    props = ('C14',)
    target = 'repeat_sets'

    @staticmethod
    def code():
        return repeat_sets(PipelinePartResult())

    @staticmethod
    def spec():
        raise ValueError()


class MissingTracesActivities:
    """asking for activities instances that were never stored is an error"""
    props = ('C14',)
    target = 'traces_activities'

    @staticmethod
    def code():
        return traces_activities(PipelinePartResult())

    @staticmethod
    def spec():
        raise ValueError()


class MissingPatterns:
    """asking for patterns that were never stored is an error"""
    props = ('C14',)
    target = 'patterns'

    @staticmethod
    def code():
        return patterns(PipelinePartResult())

    @staticmethod
    def spec():
        raise ValueError()


class MissingNet:
    """asking for a net that was never stored is an error"""
    props = ('C14',)
    target = 'petri_net'

    @staticmethod
    def code():
        return petri_net(PipelinePartResult())

    @staticmethod
    def spec():
        raise ValueError()


class ColoursCreated:
    """the colour cache is created on first use and kept in the context"""
    identity = True
    props = ('C14', 'C25')
    target = 'cached_colors'

    @staticmethod
    def code():
        r = PipelinePartResult()
        a = cached_colors(r)
        return cached_colors(r) is a, a

    @staticmethod
    def spec():
        return True, {}


class Start:
    """a pipeline starts from the log of the file, or the log given, and rejects other input"""
    props = ('C12',)
    target = 'UseExistingLog.execute'

    @staticmethod
    def code(x: object):
        return log(UseExistingLog().execute(x))

    @staticmethod
    def spec(x):
        if not isinstance(x, MyEventLog):
            raise ValueError()
        return x


class StartFile:
    """a pipeline started from a path works on the log read from that path"""
    props = ('C12',)
    target = 'ReadLogFromXes.execute'
    opaque = ('read_log_from_xes',)

    @staticmethod
    def code(x: object):
        return log(ReadLogFromXes().execute(x))

    @staticmethod
    def spec(x):
        if not isinstance(x, str):
            raise TypeError()
        return read_log_from_xes(x)


class Save:
    """saving writes the log of the context to the created path and passes the context on"""
    props = ('C26', 'C12')
    target = 'SaveEventLogToXes.execute'
    calls = ('save_event_log_to_xes',)

    @staticmethod
    def code(f: Callable, c: PipelinePartResult):
        return SaveEventLogToXes(f).execute(c)

    @staticmethod
    def spec(f, c):
        save_event_log_to_xes(log(c), f(c))
        return c


class EachActivityLog:
    """the inner pipeline runs once per activity log, on that log and the activity's name"""
    props = ('C12', 'C13')
    mutates = ('Pipeline.execute',)
    target = 'ExecuteWithEachActivityLog.execute'

    @staticmethod
    def code(p: Pipeline, c: PipelinePartResult):
        return ExecuteWithEachActivityLog(p).execute(c)

    @staticmethod
    def spec(p, c):
        logs = activities_to_logs(c)
        for name in logs:
            p.execute(PipelinePartResult().with_log(logs[name]).with_activity_name(name))
        return c


class RunThree:
    """three parts run one after the other"""
    identity = True
    props = ('C12',)
    compare = 'noraise'
    target = 'Pipeline.execute'

    @staticmethod
    def code(a: PipelinePart, b: PipelinePart, c: PipelinePart, x: object):
        p = Pipeline()
        p.append(a)
        p.append(b)
        p.append(c)
        return p.execute(x)

    @staticmethod
    def spec(a, b, c, x):
        return c.execute(b.execute(a.execute(x)))
