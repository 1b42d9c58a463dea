"""Hashes and equality of names, events, traces and logs."""
from typing import Any
from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent, MyEventsSequence
from ficus.legacy.util import calculate_string_poly_hash, calculate_poly_hash_for_collection, calculate_dict_hash, \
    combine_hash_values, combine_two_hashes, combine_list_of_hashes

M = 10 ** 9 + 7


class StringHash:
    """every character enters with the weight of its position"""
    props = ('C24',)
    target = 'calculate_string_poly_hash'

    @staticmethod
    def code(s: str):
        return calculate_string_poly_hash(s)

    @staticmethod
    def spec(s):
        h, w = 0, 1
        for c in s:
            h = (h + (1 + ord(c)) * w) % M
            w = (w * 31) % M
        return h


class CollectionHash:
    """every element of the range enters with the weight of its position"""
    props = ('C24',)
    target = 'calculate_poly_hash_for_collection'

    @staticmethod
    def code(xs: list[int], a: int, b: int):
        return calculate_poly_hash_for_collection(xs, a, b)

    @staticmethod
    def spec(xs, a, b):
        if len(xs) == 0:
            return 0
        h, w = 1, 1
        for i in range(a, len(xs) if b is None else b):
            h = (h + (1 + hash(xs[i])) * w) % M
            w = (w * 31) % M
        return h


class DictHash:
    """every key and value enters, in any order of insertion"""
    props = ('C24', 'C20')
    target = 'calculate_dict_hash'
    opaque = ('calculate_string_poly_hash', 'calculate_poly_hash_for_collection')

    @staticmethod
    def code(d: dict[str, str]):
        return calculate_dict_hash(d)

    @staticmethod
    def spec(d):
        return calculate_poly_hash_for_collection([calculate_string_poly_hash(s) for s in sorted([str(k) + str(v) for k, v in d.items()])])


class TwoHashes:
    """both values enter, in order"""
    props = ('C24',)
    target = 'combine_two_hashes'

    @staticmethod
    def code(a: int, b: int):
        return combine_two_hashes(a, b)

    @staticmethod
    def spec(a, b):
        return hash((a, b))


class HashValues:
    """all values enter, in order"""
    props = ('C24',)
    target = 'combine_hash_values'
    opaque = ('combine_two_hashes',)

    @staticmethod
    def code(a: int, b: int, c: int):
        return combine_hash_values(), combine_hash_values(a), combine_hash_values(a, b, c)

    @staticmethod
    def spec(a, b, c):
        return 0, a, combine_two_hashes(combine_two_hashes(a, b), c)


class ListOfHashes:
    """all values enter, in order"""
    props = ('C24',)
    target = 'combine_list_of_hashes'
    opaque = ('combine_two_hashes',)

    @staticmethod
    def code(xs: list[int]):
        return combine_list_of_hashes(xs)

    @staticmethod
    def spec(xs):
        if len(xs) == 0:
            return 0
        h = xs[0]
        for x in xs[1:]:
            h = combine_two_hashes(h, x)
        return h


class EventEqual:
    """events are equal when their attributes are"""
    props = ('C20',)
    dispatch = True
    target = 'MyEvent.__eq__'

    @staticmethod
    def code(a: MyEvent, b: MyEvent):
        return a == b

    @staticmethod
    def spec(a, b):
        return isinstance(b, MyEvent) and a.payload == b.payload


class TraceEqual:
    """traces are equal when their events are, in order"""
    props = ('C20',)
    dispatch = True
    target = 'MyEventsSequence.__eq__'

    @staticmethod
    def code(a: MyTrace, b: MyTrace):
        return a == b

    @staticmethod
    def spec(a, b):
        return isinstance(b, MyEventsSequence) and a.raw_events == b.raw_events


class LogEqual:
    """logs are equal when their traces and log level data are"""
    props = ('C20',)
    dispatch = True
    target = 'MyEventLog.__eq__'

    @staticmethod
    def code(a: MyEventLog, b: MyEventLog):
        return a == b

    @staticmethod
    def spec(a, b):
        return isinstance(b, MyEventLog) and a.traces == b.traces and a.attributes == b.attributes and a.extensions == b.extensions and \
            a.classifiers == b.classifiers and a.properties == b.properties


class Unlike:
    """events, traces and logs differ from anything else"""
    props = ('C20',)
    dispatch = True
    target = 'MyEventLog.__eq__'

    @staticmethod
    def code(a: MyEventLog, t: MyTrace, e: MyEvent, o: str, d: dict):
        return a == o, t == o, e == o, e == d

    @staticmethod
    def spec(a, t, e, o, d):
        return False, False, False, False


class EventHash:
    """an event's hash is that of its attributes"""
    props = ('C20', 'C24')
    dispatch = True
    target = 'MyEvent.__hash__'
    opaque = ('calculate_dict_hash',)

    @staticmethod
    def code(e: MyEvent):
        return hash(e)

    @staticmethod
    def spec(e):
        return calculate_dict_hash(e.payload)


class TraceHash:
    """a trace's hash is that of its events in order"""
    props = ('C20', 'C24')
    dispatch = True
    target = 'MyEventsSequence.__hash__'
    opaque = ('calculate_poly_hash_for_collection',)

    @staticmethod
    def code(t: MyTrace):
        return hash(t)

    @staticmethod
    def spec(t):
        return calculate_poly_hash_for_collection(t.raw_events)


class LogHash:
    """a log's hash is that of its traces and of its attributes, extensions, classifiers and properties"""
    props = ('C20', 'C24')
    dispatch = True
    target = 'MyEventLog.__hash__'
    opaque = ('calculate_dict_hash', 'combine_list_of_hashes', 'combine_two_hashes')

    @staticmethod
    def code(a: MyEventLog):
        return hash(a)

    @staticmethod
    def spec(a):
        h = combine_list_of_hashes([hash(t) for t in a.traces])
        for d in (a.attributes, a.extensions, a.classifiers, a.properties):
            h = combine_two_hashes(h, calculate_dict_hash(d))
        return h
