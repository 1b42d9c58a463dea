"""Event and trace filters of the legacy library."""
from typing import Callable
from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
from ficus.legacy.mutations.event_log_mutations import remove_event_from_log, remove_events_from_log, filter_log, \
    remove_empty_traces, preprocess_event_names_inplace, preprocess_events, remove_lifecycle_attribute


def keep_events(log, keep):
    kept = [[e for e in t if keep(e)] for t in log]
    return MyEventLog([MyTrace(es) for es in kept if len(es) > 0])


class RemoveEvent:
    """exactly the events with the given name disappear, then traces left without events"""
    props = ('C16', 'C15')
    target = 'remove_event_from_log'

    @staticmethod
    def code(log: MyEventLog, name: str):
        return remove_event_from_log(log, name)

    @staticmethod
    def spec(log, name):
        return keep_events(log, lambda e: e['concept:name'] != name)


class RemoveEvents:
    """exactly the events whose name is listed disappear, then traces left without events"""
    props = ('C16', 'C15')
    target = 'remove_events_from_log'

    @staticmethod
    def code(log: MyEventLog, names: set[str]):
        return remove_events_from_log(log, names)

    @staticmethod
    def spec(log, names):
        return keep_events(log, lambda e: e['concept:name'] not in names)


class FilterLog:
    """exactly the events matching the predicate disappear, then traces left without events"""
    props = ('C16', 'C15')
    target = 'filter_log'

    @staticmethod
    def code(log: MyEventLog, predicate: Callable[[MyEvent], bool]):
        return filter_log(log, predicate)

    @staticmethod
    def spec(log, predicate):
        return keep_events(log, lambda e: not predicate(e))


class RemoveEmptyTraces:
    """exactly the traces with more events than the bound stay"""
    props = ('C16', 'C15')
    target = 'remove_empty_traces'

    @staticmethod
    def code(log: MyEventLog, bound: int):
        return remove_empty_traces(log, bound)

    @staticmethod
    def spec(log, bound):
        return MyEventLog([t for t in log if len(t) > bound])


class RemoveEmptyTracesDefault:
    """without a bound exactly the traces without events are dropped"""
    props = ('C16', 'C15')
    target = 'remove_empty_traces'

    @staticmethod
    def code(log: MyEventLog):
        return remove_empty_traces(log)

    @staticmethod
    def spec(log):
        return MyEventLog([t for t in log if len(t) > 0])


class RenameEvents:
    """every event, and nothing else, gets the mutated name"""
    props = ('C16',)
    target = 'preprocess_event_names_inplace'

    @staticmethod
    def code(log: MyEventLog, f: Callable[[str], str]):
        preprocess_event_names_inplace(log, f)

    @staticmethod
    def spec(log, f):
        for t in log:
            for e in t:
                e.payload['concept:name'] = f(e.payload['concept:name'])


class PreprocessEvents:
    """the mutator is applied to every event once"""
    props = ('C16',)
    target = 'preprocess_events'

    @staticmethod
    def code(log: MyEventLog, f: Callable[[MyEvent], None]):
        preprocess_events(log, f)

    @staticmethod
    def spec(log, f):
        for t in log:
            for e in t:
                f(e)


class RemoveLifecycle:
    """only the lifecycle attribute is removed, from every event having it"""
    props = ('C16',)
    target = 'remove_lifecycle_attribute'

    @staticmethod
    def code(log: MyEventLog):
        remove_lifecycle_attribute(log)

    @staticmethod
    def spec(log):
        for t in log:
            for e in t:
                if 'lifecycle:transition' in e.payload:
                    del e.payload['lifecycle:transition']
