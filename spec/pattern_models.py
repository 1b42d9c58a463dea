"""Nodes of activity and class trees."""
from ficus.legacy.analysis.patterns.patterns_models import ActivityNode, EventClassNode, ActivityInTraceInfo, \
    TandemArrayInfo, MaximalRepeatInfo, SubArrayWithTraceIndex, NewUnattachedActivities
from ficus.legacy.analysis.patterns import patterns_models
from ficus.legacy.analysis.common.common_models import GraphNode, SubArrayInEventLog
from ficus.legacy.util import calculate_string_poly_hash


class Node:
    """a node keeps what it was made of, its length is the number of its classes"""
    props = ('C30',)
    target = 'ActivityNode'
    compare = 'ret'

    @staticmethod
    def code(name: str, rs: SubArrayWithTraceIndex, s: set[int], f: object, level: int):
        n = ActivityNode(name, rs, s, f, level)
        return n.name, n.repeat_set, n.set_of_events, n.class_extractor, n.activity_level, n.length, n.child_nodes

    @staticmethod
    def spec(name, rs, s, f, level):
        return name, rs, s, f, level, len(s), []


class NodeNames:
    """nodes have different unique names"""
    props = ('C30', 'C22')
    target = 'ActivityNode.unique_name'
    compare = 'ret'

    @staticmethod
    def code(name: str, rs: SubArrayWithTraceIndex, s: set[int], f: object, level: int):
        a = ActivityNode(name, rs, s, f, level)
        b = ActivityNode(name, rs, s, f, level)
        return a.unique_name() == b.unique_name(), a.unique_name() == a.unique_name()

    @staticmethod
    def spec(name, rs, s, f, level):
        return False, True


class Contains:
    """a node has another when it has all of its classes"""
    props = ('C30',)
    target = 'ActivityNode.contains_other'

    @staticmethod
    def code(a: ActivityNode, b: ActivityNode):
        return a.contains_other(b)

    @staticmethod
    def spec(a, b):
        return a.set_of_events.issuperset(b.set_of_events)


class NodeHash:
    """nodes of equal name hash equally"""
    props = ('C30', 'C24')
    target = 'ActivityNode.__hash__'
    opaque = ('calculate_string_poly_hash',)

    @staticmethod
    def code(a: ActivityNode):
        return a.__hash__()

    @staticmethod
    def spec(a):
        return calculate_string_poly_hash(a.name)


class NodeText:
    """the classes of a node in order, then its children in brackets"""
    props = ('C30',)
    target = 'ActivityNode'

    @staticmethod
    def code(n: ActivityNode, c: EventClassNode):
        return n._serialize(), c._serialize()

    @staticmethod
    def spec(n, c):
        return str(sorted(n.set_of_events)), c.name
