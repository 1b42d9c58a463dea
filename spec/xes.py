"""Reading and writing XES files."""
import os
import xml.etree.ElementTree as ET
from datetime import datetime
from dateutil import parser
from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
from ficus.legacy.log.functions import read_log_from_xes, serialize_log_to_xes, save_event_log_to_xes, \
    parse_log_from_strings, parse_log_from_string, parse_trace_from_string, serialize_log, serialize_logs, \
    serialize_log_to_xes_beautiful, get_tag_wo_xmlns


def bare(tag):
    return get_tag_wo_xmlns(tag)


def is_value(e):
    return bare(e.tag) in ('string', 'date', 'int', 'float', 'boolean')


def value(e):
    t = bare(e.tag)
    v = e.attrib['value']
    if t == 'string':
        return str(v)
    if t == 'date':
        return parser.parse(v)
    if t == 'int':
        return int(v)
    if t == 'float':
        return float(v)
    return v.strip().lower() in ('true', '1')


def read_event(e, log):
    ev = MyEvent()
    if 'event' in log.global_values:
        for k, v in log.global_values['event'].items():
            ev[k] = v
    for c in e:
        if is_value(c):
            ev[c.attrib['key']] = value(c)
    return ev


class Read:
    """every trace, event, attribute, extension, classifier and default is read, in order"""
    props = ('C18',)
    target = 'read_log_from_xes'
    budget = 3000000
    opaque = ('get_tag_wo_xmlns',)

    @staticmethod
    def code(path: str):
        return read_log_from_xes(path)

    @staticmethod
    def spec(path):
        if not os.path.exists(path):
            raise FileNotFoundError(path)
        root = ET.parse(path).getroot()
        log = MyEventLog()
        for k, v in root.attrib.items():
            log.attributes[k] = v
        traces = []
        for c in root:
            tag = bare(c.tag)
            if tag == 'trace':
                traces.append(c)
            elif tag == 'extension':
                log.extensions[c.attrib['name']] = {'prefix': c.attrib['prefix'], 'uri': c.attrib['uri']}
            elif tag == 'classifier':
                log.classifiers[c.attrib['name']] = c.attrib['keys'].split(' ')
            elif is_value(c):
                log.properties[c.attrib['key']] = value(c)
            elif tag == 'global':
                scope = c.attrib['scope']
                if scope not in log.global_values:
                    log.global_values[scope] = {}
                for g in c:
                    log.global_values[scope][g.attrib['key']] = value(g) if is_value(g) else g.attrib['value']
        for t in traces:
            events, props = [], {}
            if 'trace' in log.global_values:
                for k, v in log.global_values['trace'].items():
                    props[k] = v
            for c in t:
                if is_value(c):
                    props[c.attrib['key']] = value(c)
                elif bare(c.tag) == 'event':
                    events.append(read_event(c, log))
            log.append(MyTrace(events, props))
        return log


class BareTag:
    """the namespace of a tag, and nothing else, is dropped"""
    props = ('C18',)
    target = 'get_tag_wo_xmlns'

    @staticmethod
    def code(tag: str):
        return get_tag_wo_xmlns(tag)

    @staticmethod
    def spec(tag):
        return tag[tag.index('}') + 1:] if '}' in tag else tag


class TraceFromString:
    """one event per piece of the string, named by it"""
    props = ('C18',)
    target = 'parse_trace_from_string'

    @staticmethod
    def code(s: str, sep: str):
        return parse_trace_from_string(s, sep)

    @staticmethod
    def spec(s, sep):
        return MyTrace([MyEvent({'concept:name': x}) for x in s.split(sep)])


class LogFromString:
    """a log of the one trace written in the string"""
    props = ('C18',)
    target = 'parse_log_from_string'

    @staticmethod
    def code(s: str, sep: str):
        return parse_log_from_string(s, sep)

    @staticmethod
    def spec(s, sep):
        return MyEventLog([MyTrace([MyEvent({'concept:name': x}) for x in s.split(sep)])])


class LogFromStrings:
    """one trace per string, in order"""
    props = ('C18',)
    target = 'parse_log_from_strings'

    @staticmethod
    def code(strings: list[str], sep: str):
        return parse_log_from_strings(strings, sep)

    @staticmethod
    def spec(strings, sep):
        return MyEventLog([MyTrace([MyEvent({'concept:name': x}) for x in s.split(sep)]) for s in strings])


TAGS = {str: 'string', datetime: 'date', int: 'int', float: 'float', bool: 'boolean'}


def element(tag, **attrs):
    e = ET.Element(tag)
    for k, v in attrs.items():
        e.attrib[k] = v
    return e


def value_tag(k, v):
    e = ET.Element(TAGS[type(v)])
    e.attrib['key'] = k
    e.attrib['value'] = str(v)
    return e


def is_default(log, scope, k, v):
    return scope in log.global_values and k in log.global_values[scope] and log.global_values[scope][k] == v


def write(log):
    root = ET.Element('log')
    for k, v in log.attributes.items():
        root.attrib[k] = v
    for name, content in log.extensions.items():
        e = ET.Element('extension')
        e.attrib['name'] = name
        for k, v in content.items():
            e.attrib[k] = v
        root.append(e)
    for name, keys in log.classifiers.items():
        e = ET.Element('classifier')
        e.attrib['name'] = name
        e.attrib['keys'] = ' '.join(keys)
        root.append(e)
    for k, v in log.properties.items():
        if type(v) in TAGS:
            root.append(value_tag(k, v))
    for scope, content in log.global_values.items():
        g = ET.Element('global')
        g.attrib['scope'] = scope
        for k, v in content.items():
            g.append(value_tag(k, v))
        root.append(g)
    for t in log.traces:
        te = ET.Element('trace')
        for k, v in t.attributes.items():
            if type(v) in TAGS and not is_default(log, 'trace', k, v):
                te.append(value_tag(k, v))
        for ev in t.raw_events:
            ee = ET.Element('event')
            for k, v in ev.payload.items():
                if type(v) in TAGS and not is_default(log, 'event', k, v):
                    ee.append(value_tag(k, v))
            te.append(ee)
        root.append(te)
    return ET.tostring(root, encoding='unicode')


class Write:
    """every part of a log is written, in order, values that equal the declared default being left out"""
    props = ('C19',)
    target = 'serialize_log_to_xes'

    @staticmethod
    def code(log: MyEventLog):
        return serialize_log_to_xes(log)

    @staticmethod
    def spec(log):
        return write(log)


class Save:
    """the file at the path holds the serialised log; its directory is created"""
    props = ('C19', 'C26')
    target = 'save_event_log_to_xes'
    opaque = ('serialize_log_to_xes',)

    @staticmethod
    def code(log: MyEventLog, path: str):
        save_event_log_to_xes(log, path)

    @staticmethod
    def spec(log, path):
        d = os.path.dirname(path)
        if d != '':
            os.makedirs(d, exist_ok=True)
        text = serialize_log_to_xes(log)
        with open(path, 'w') as f:
            f.write(text)


class Names:
    """the names of the events, with one separator between events and one between traces"""
    props = ('C19',)
    target = 'serialize_log'

    @staticmethod
    def code(log: MyEventLog, ts: str, es: str):
        return serialize_log(log, ts, es)

    @staticmethod
    def spec(log, ts, es):
        r = ''
        for i, t in enumerate(log.traces):
            for j, e in enumerate(t.raw_events):
                if j > 0:
                    r += es
                r += e.payload['concept:name']
            if i < len(log.traces) - 1:
                r += ts
        return r


class Logs:
    """the logs one after the other with one separator between two logs"""
    props = ('C19',)
    target = 'serialize_logs'
    opaque = ('serialize_log',)

    @staticmethod
    def code(logs: list[MyEventLog], ls: str, ts: str, es: str):
        return serialize_logs(logs, ls, ts, es)

    @staticmethod
    def spec(logs, ls, ts, es):
        r = ''
        for i, log in enumerate(logs):
            if i > 0:
                r += ls
            r += serialize_log(log, ts, es)
        return r
