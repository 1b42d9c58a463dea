"""Drawing of nets and graphs."""
import os
import shutil
import graphviz
from IPython.core.display_functions import display
from ficus.legacy.discovery.petri_net import Arc, Transition, Place, PetriNet, Marking, SinglePlaceMarking, draw_petri_net
from ficus.legacy.discovery.graph import Graph, GraphNode, GraphEdge, draw_graph


class GraphNodes:
    """every node is drawn once with its data"""
    props = ('C29',)
    target = 'draw_graph'
    focus = ('node',)

    @staticmethod
    def code(graph: Graph, name: str, color: str, engine: str, path: str, rankdir: str):
        draw_graph(graph, name, color, engine, path, rankdir)

    @staticmethod
    def spec(graph, name, color, engine, path, rankdir):
        g = graphviz.Digraph(name, engine=engine, graph_attr={'bgcolor': color, 'rankdir': rankdir})
        for n in graph.nodes:
            g.node(str(n.id), label=n.data, style='filled', border='1', shape='circle')


class GraphEdges:
    """every edge is drawn once from its source to its target with its data"""
    props = ('C29',)
    target = 'draw_graph'
    focus = ('edge',)

    @staticmethod
    def code(graph: Graph, name: str, color: str, engine: str, path: str, rankdir: str):
        draw_graph(graph, name, color, engine, path, rankdir)

    @staticmethod
    def spec(graph, name, color, engine, path, rankdir):
        g = graphviz.Digraph(name, engine=engine, graph_attr={'bgcolor': color, 'rankdir': rankdir})
        for e in graph.edges:
            g.edge(str(e.from_node), str(e.to_node), label=e.data)


class NetTransitions:
    """every place is drawn once, marked when the initial or final marking holds it, then every transition"""
    props = ('C29',)
    target = 'draw_petri_net'
    focus = ('node',)

    @staticmethod
    def code(net: PetriNet, names: bool, name: str, color: str, engine: str, path: str, rankdir: str,
             annotation: dict[int, str]):
        draw_petri_net(net, names, name, color, engine, path, rankdir, annotation)

    @staticmethod
    def spec(net, names, name, color, engine, path, rankdir, annotation):
        g = graphviz.Digraph(name, engine=engine, graph_attr={'bgcolor': color, 'rankdir': rankdir})
        first = set() if net.initial_marking is None else {x.place_id for x in net.initial_marking.markings}
        last = set() if net.final_marking is None else {x.place_id for x in net.final_marking.markings}
        for p in net.places.values():
            if p.id in first:
                g.node(str(p.id), label='<&#9679;>', style='filled', border='1', shape='circle')
            elif p.id in last:
                g.node(str(p.id), label='<&#9679;>', style='filled', border='1', shape='doublecircle')
            else:
                g.node(str(p.id), label=p.name if names else '', style='filled', border='1', shape='circle')
        for t in net.transitions.values():
            g.node(str(t.id), label=t.data, shape='box')


class NetArcs:
    """every arc is drawn once in its direction, labelled with its annotation if it has one"""
    props = ('C29',)
    target = 'draw_petri_net'
    focus = ('edge',)

    @staticmethod
    def code(net: PetriNet, names: bool, name: str, color: str, engine: str, path: str, rankdir: str,
             annotation: dict[int, str]):
        draw_petri_net(net, names, name, color, engine, path, rankdir, annotation)

    @staticmethod
    def spec(net, names, name, color, engine, path, rankdir, annotation):
        g = graphviz.Digraph(name, engine=engine, graph_attr={'bgcolor': color, 'rankdir': rankdir})

        def label(a):
            return annotation[a.id] if annotation is not None and a.id in annotation else ''
        for t in net.transitions.values():
            for a in t.incoming_arcs:
                g.edge(str(a.place_id), str(t.id), label=label(a))
            for a in t.outgoing_arcs:
                g.edge(str(t.id), str(a.place_id), label=label(a))


class NetShown:
    """the picture is displayed without an export path, else rendered by the chosen engine and moved to the path"""
    props = ('C26', 'C29')
    target = 'draw_petri_net'
    focus = ('save', 'makedirs', 'display', 'render', 'move')

    @staticmethod
    def code(net: PetriNet, names: bool, name: str, color: str, engine: str, path: str, rankdir: str,
             annotation: dict[int, str], tmp: str):
        draw_petri_net(net, names, name, color, engine, path, rankdir, annotation)

    @staticmethod
    def spec(net, names, name, color, engine, path, rankdir, annotation, tmp):
        show_or_save(name, color, engine, path, rankdir)


class GraphShown:
    """the picture is displayed without an export path, else rendered by the chosen engine and moved to the path"""
    props = ('C26', 'C29')
    target = 'draw_graph'
    focus = ('save', 'makedirs', 'display', 'render', 'move')

    @staticmethod
    def code(graph: Graph, name: str, color: str, engine: str, path: str, rankdir: str):
        draw_graph(graph, name, color, engine, path, rankdir)

    @staticmethod
    def spec(graph, name, color, engine, path, rankdir):
        show_or_save(name, color, engine, path, rankdir)


def show_or_save(name, color, engine, path, rankdir):
    import tempfile
    g = graphviz.Digraph(name, engine=engine, graph_attr={'bgcolor': color, 'rankdir': rankdir})
    tmp = tempfile.NamedTemporaryFile(suffix='.gv').name
    g.save(tmp)
    if path is None:
        display(g)
    else:
        d = os.path.dirname(path)
        if d != '':
            os.makedirs(d, exist_ok=True)
        ext = os.path.splitext(path)[1]
        graphviz.render(engine, ext[1:], tmp)
        shutil.move(tmp + ext, path)
