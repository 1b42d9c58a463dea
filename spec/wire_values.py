"""Conversions between wire messages and the values of the client."""
import pandas as pd
from ficus.grpc_pipelines.context_values import HashesLogContextValue, NamesLogContextValue, EventLogInfo, \
    StringContextValue, FloatContextValue, Uint32ContextValue, BoolContextValue, EnumContextValue, \
    StringsContextValue, from_grpc_names_log, from_grpc_colors_log, from_grpc_colored_rectangle, from_grpc_color, \
    from_grpc_event_log_info, from_grpc_petri_net, from_grpc_petri_net_place, from_grpc_transition, from_grpc_arc, \
    try_from_grpc_marking, from_grpc_count_annotation, from_grpc_frequency_annotation, from_grpc_ficus_dataset, \
    from_grpc_labeled_dataset, from_grpc_graph
from ficus.grpc_pipelines.grpc_pipelines import PipelineContextValue, Pipeline2
from ficus.grpc_pipelines.models.pipelines_and_context_pb2 import *
from ficus.grpc_pipelines.models.pm_models_pb2 import *
from ficus.grpc_pipelines.models.util_pb2 import GrpcColor
from ficus.legacy.analysis.event_log_analysis import ColoredRectangle, Color
from ficus.legacy.discovery.petri_net import Arc, Transition, Place, PetriNet, Marking, SinglePlaceMarking
from ficus.legacy.discovery.graph import Graph, GraphNode, GraphEdge


class Scalars:
    """scalar values are sent in the alternative of their own type"""
    props = ('C09',)
    target = 'StringContextValue'

    @staticmethod
    def code(s: str, f: float, u: int, b: bool, en: str, v: str, xs: list[str]):
        return [StringContextValue(s).to_grpc_context_value(), FloatContextValue(f).to_grpc_context_value(),
                Uint32ContextValue(u).to_grpc_context_value(), BoolContextValue(b).to_grpc_context_value(),
                EnumContextValue(en, v).to_grpc_context_value(), StringsContextValue(xs).to_grpc_context_value()]

    @staticmethod
    def spec(s, f, u, b, en, v, xs):
        return [GrpcContextValue(string=s), GrpcContextValue(float=f), GrpcContextValue(uint32=u),
                GrpcContextValue(bool=b), GrpcContextValue(enum=GrpcEnum(enumType=en, value=v)),
                GrpcContextValue(strings=GrpcStrings(strings=xs))]


class HashesLog:
    """a log of hashes is sent trace by trace, event by event"""
    props = ('C09',)
    target = 'HashesLogContextValue.to_grpc_context_value'

    @staticmethod
    def code(log: list[list[int]]):
        return HashesLogContextValue(log).to_grpc_context_value()

    @staticmethod
    def spec(log):
        return GrpcContextValue(hashes_log=GrpcHashesEventLogContextValue(log=GrpcHashesEventLog(
            traces=[GrpcHashesLogTrace(events=[e for e in t]) for t in log])))


class NamesLog:
    """a log of names is sent trace by trace, event by event"""
    props = ('C09',)
    target = 'NamesLogContextValue.to_grpc_context_value'

    @staticmethod
    def code(log: list[list[str]]):
        return NamesLogContextValue(log).to_grpc_context_value()

    @staticmethod
    def spec(log):
        return GrpcContextValue(names_log=GrpcNamesEventLogContextValue(log=GrpcNamesEventLog(
            traces=[GrpcNamesTrace(events=[e for e in t]) for t in log])))


class LogInfoOut:
    """each count of the log information is sent as the count of the same meaning"""
    props = ('C09',)
    target = 'EventLogInfo.to_grpc_context_value'

    @staticmethod
    def code(a: int, b: int, c: int):
        return EventLogInfo(events_count=a, event_classes_count=b, traces_count=c).to_grpc_context_value()

    @staticmethod
    def spec(a, b, c):
        return GrpcContextValue(event_log_info=GrpcEventLogInfo(events_count=a, event_classes_count=b,
                                                                traces_count=c))


class PipelineOut:
    """a nested pipeline is sent as its own message"""
    props = ('C09', 'C05')
    target = 'PipelineContextValue.to_grpc_context_value'
    opaque = ('Pipeline2.to_grpc_pipeline',)

    @staticmethod
    def code(p: Pipeline2):
        return PipelineContextValue(p).to_grpc_context_value()

    @staticmethod
    def spec(p):
        return GrpcContextValue(pipeline=p.to_grpc_pipeline())


class NamesIn:
    """names come back trace by trace, event by event"""
    props = ('C08',)
    target = 'from_grpc_names_log'

    @staticmethod
    def code(m: GrpcNamesEventLogContextValue):
        return from_grpc_names_log(m)

    @staticmethod
    def spec(m):
        return [[e for e in t.events] for t in m.log.traces]


class ColorIn:
    """a colour keeps its components"""
    props = ('C08',)
    target = 'from_grpc_color'

    @staticmethod
    def code(m: GrpcColor):
        c = from_grpc_color(m)
        return c.red, c.green, c.blue

    @staticmethod
    def spec(m):
        return m.red, m.green, m.blue


class RectIn:
    """a rectangle keeps its colour, start, length and name"""
    props = ('C08',)
    target = 'from_grpc_colored_rectangle'

    @staticmethod
    def code(m: GrpcColoredRectangle):
        r = from_grpc_colored_rectangle(m)
        return r.color.red, r.color.green, r.color.blue, r.start_pos, r.length, r.name

    @staticmethod
    def spec(m):
        return m.color.red, m.color.green, m.color.blue, m.start_index, m.length, m.name


class ColorsIn:
    """rectangles come back trace by trace in order"""
    props = ('C08',)
    target = 'from_grpc_colors_log'

    @staticmethod
    def code(m: GrpcColorsEventLog):
        return from_grpc_colors_log(m)

    @staticmethod
    def spec(m):
        return [[from_grpc_colored_rectangle(r) for r in t.event_colors] for t in m.traces]


class LogInfoIn:
    """each count of the log information keeps its meaning"""
    props = ('C08',)
    target = 'from_grpc_event_log_info'

    @staticmethod
    def code(m: GrpcEventLogInfo):
        r = from_grpc_event_log_info(m)
        return r.events_count, r.event_classes_count, r.traces_count

    @staticmethod
    def spec(m):
        return m.events_count, m.event_classes_count, m.traces_count


class ArcIn:
    """an arc keeps its id, place and weight"""
    props = ('C08',)
    target = 'from_grpc_arc'

    @staticmethod
    def code(m: GrpcPetriNetArc):
        a = from_grpc_arc(m)
        return a.id, a.place_id, a.tokens_count

    @staticmethod
    def spec(m):
        return m.id, m.placeId, m.tokens_count


class PlaceIn:
    """a place keeps its id and name"""
    props = ('C08',)
    target = 'from_grpc_petri_net_place'

    @staticmethod
    def code(m: GrpcPetriNetPlace):
        p = from_grpc_petri_net_place(m)
        return p.id, p.name

    @staticmethod
    def spec(m):
        return m.id, m.name


class TransitionIn:
    """a transition keeps its id, data and both kinds of arcs in order"""
    props = ('C08',)
    target = 'from_grpc_transition'

    @staticmethod
    def code(m: GrpcPetriNetTransition):
        t = from_grpc_transition(m)
        return t.id, t.data, t.incoming_arcs, t.outgoing_arcs

    @staticmethod
    def spec(m):
        return m.id, m.data, [from_grpc_arc(a) for a in m.incomingArcs], [from_grpc_arc(a) for a in m.outgoingArcs]


class MarkingIn:
    """a marking keeps every place with its number of tokens"""
    props = ('C08',)
    target = 'try_from_grpc_marking'

    @staticmethod
    def code(m: GrpcPetriNetMarking):
        r = try_from_grpc_marking(m)
        return None if r is None else [(x.place_id, x.tokens_count) for x in r.markings]

    @staticmethod
    def spec(m):
        return None if m is None else [(x.placeId, x.tokensCount) for x in m.markings]


class NetIn:
    """a net keeps every place and transition under its id and both markings"""
    props = ('C08',)
    target = 'from_grpc_petri_net'

    @staticmethod
    def code(m: GrpcPetriNet):
        n = from_grpc_petri_net(m)
        return n.places, n.transitions, n.initial_marking, n.final_marking

    @staticmethod
    def spec(m):
        places, transitions = dict(), dict()
        for p in m.places:
            q = from_grpc_petri_net_place(p)
            places[q.id] = q
        for p in m.transitions:
            q = from_grpc_transition(p)
            transitions[q.id] = q
        return places, transitions, try_from_grpc_marking(m.initial_marking), try_from_grpc_marking(m.final_marking)


class CountsIn:
    """each annotated entity gets the text of its count"""
    props = ('C08',)
    target = 'from_grpc_count_annotation'

    @staticmethod
    def code(m: GrpcCountAnnotation):
        return from_grpc_count_annotation(m)

    @staticmethod
    def spec(m):
        return {a.entityId: str(a.count) for a in m.annotations}


class FrequenciesIn:
    """each annotated entity gets the text of its frequency"""
    props = ('C08',)
    target = 'from_grpc_frequency_annotation'

    @staticmethod
    def code(m: GrpcFrequenciesAnnotation):
        return from_grpc_frequency_annotation(m)

    @staticmethod
    def spec(m):
        return {a.entityId: str(a.frequency) for a in m.annotations}


class DatasetIn:
    """a dataset keeps its values by row and column and its row and column names"""
    props = ('C08',)
    target = 'from_grpc_ficus_dataset'

    @staticmethod
    def code(m: GrpcDataset):
        return from_grpc_ficus_dataset(m)

    @staticmethod
    def spec(m):
        return pd.DataFrame([[v for v in r.values] for r in m.matrix.rows], columns=[c for c in m.columnsNames],
                            index=[r for r in m.rowNames])


class LabeledIn:
    """a labelled dataset is the dataset with the labels in order as one more column"""
    props = ('C08',)
    target = 'from_grpc_labeled_dataset'

    @staticmethod
    def code(m: GrpcLabeledDataset):
        return from_grpc_labeled_dataset(m)

    @staticmethod
    def spec(m):
        df = from_grpc_ficus_dataset(m.dataset)
        df['cluster_labels'] = [x for x in m.labels]
        return df


class GraphIn:
    """a graph keeps every node and edge in order with its ends and data"""
    props = ('C08',)
    target = 'from_grpc_graph'

    @staticmethod
    def code(m: GrpcGraph):
        g = from_grpc_graph(m)
        return [(n.id, n.data) for n in g.nodes], [(e.from_node, e.to_node, e.data) for e in g.edges]

    @staticmethod
    def spec(m):
        return [(n.id, n.data) for n in m.nodes], [(e.from_node, e.to_node, e.data) for e in m.edges]
