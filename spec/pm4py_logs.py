"""Conversion of logs from and to pm4py."""
import copy
from pm4py.objects.log.obj import EventLog, Event, Trace
from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
from ficus.legacy.log.pm4py_converters import from_pm4py_log, to_pm4py_log, pm4py_event_to_my_event, \
    my_event_to_pm4py_event


class FromPm4py:
    """every trace and event in order, with copies of their attributes, and all log level data"""
    props = ('C21',)
    fresh = True
    target = 'from_pm4py_log'

    @staticmethod
    def code(log: EventLog):
        return from_pm4py_log(log)

    @staticmethod
    def spec(log):
        traces = [MyTrace([MyEvent(copy.deepcopy(e._dict)) for e in t], copy.deepcopy(t.attributes)) for t in log]
        return MyEventLog(traces=traces, attributes=copy.deepcopy(log.attributes),
                          properties=copy.deepcopy(log.properties), classifiers=copy.deepcopy(log.classifiers),
                          extensions=copy.deepcopy(log.extensions), global_values=copy.deepcopy(log.omni_present))


class ToPm4py:
    """every trace and event in order, with copies of the attributes of the events"""
    props = ('C21',)
    fresh = True
    target = 'to_pm4py_log'

    @staticmethod
    def code(log: MyEventLog):
        return to_pm4py_log(log)

    @staticmethod
    def spec(log):
        r = EventLog()
        for t in log.traces:
            pt = Trace()
            for e in t.raw_events:
                pe = Event()
                for k in e.payload:
                    pe._dict[copy.deepcopy(k)] = copy.deepcopy(e.payload[k])
                pt.append(pe)
            r.append(pt)
        return r


class EventFrom:
    """an event with copies of all attributes"""
    props = ('C21',)
    fresh = True
    target = 'pm4py_event_to_my_event'

    @staticmethod
    def code(e: Event):
        return pm4py_event_to_my_event(e)

    @staticmethod
    def spec(e):
        return MyEvent(copy.deepcopy(e._dict))


class EventTo:
    """an event with copies of all attributes"""
    props = ('C21',)
    fresh = True
    target = 'my_event_to_pm4py_event'

    @staticmethod
    def code(e: MyEvent):
        return my_event_to_pm4py_event(e)

    @staticmethod
    def spec(e):
        r = Event()
        for k in e.payload:
            r._dict[copy.deepcopy(k)] = copy.deepcopy(e.payload[k])
        return r
