"""Diagrams of logs: rectangles, colours, legends and axes."""
import os
from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
from ficus.legacy.analysis.event_log_analysis import *
from ficus.legacy.analysis.event_log_analysis import _draw_traces_diversity_like_diagram, \
    _draw_traces_diversity_like_diagram_internal, _create_array_for_hist, _do_paint_hist
from ficus.legacy.analysis.event_log_analysis_canvas import draw_colors_event_log_canvas, _calculate_canvas_width, \
    _draw_actual_traces_diversity_diagram, _draw_legend
from ipycanvas import Canvas, hold_canvas
from IPython.core.display_functions import display
from ficus.legacy.analysis.patterns.patterns_graphs import *
from ficus.legacy.analysis.patterns.patterns_graphs import _sub_traces_draw_func, _do_draw_activity_diagram, \
    _draw_graph, _do_draw_graph
from ficus.legacy.analysis.patterns.patterns_models import ActivityNode, ActivityInTraceInfo, EventClassNode
from ficus.legacy.analysis.common.common_models import GraphNode
from ficus.legacy.util import to_hex, random_unique_color_provider_instance, calculate_poly_hash_for_collection


class HistArray:
    """one entry per trace with the number of its group, and one more than the number of groups"""
    props = ('C27',)
    target = '_create_array_for_hist'
    opaque = ('split_log_by_traces',)

    @staticmethod
    def code(log: MyEventLog):
        return _create_array_for_hist(log)

    @staticmethod
    def spec(log):
        r = []
        n = 1
        for g in split_log_by_traces(log):
            for _ in range(len(g)):
                r.append(n)
            n += 1
        return r, n


class Hist:
    """one bin per group, shown or saved"""
    props = ('C27', 'C26')
    target = 'draw_traces_histogram'
    opaque = ('_create_array_for_hist',)

    @staticmethod
    def code(log: MyEventLog, path: str, title: str):
        draw_traces_histogram(log, path, title)

    @staticmethod
    def spec(log, path, title):
        h, n = _create_array_for_hist(log)
        plt.gca().hist(h, histtype='stepfilled', bins=[i for i in range(1, n + 1)])
        plt.suptitle(title)
        if path is None:
            plt.show()
        else:
            plt.savefig(path)


class HistsOfPaths:
    """the logs of the paths, named by them"""
    props = ('C27',)
    target = 'plot_logs_traces_histograms_for_paths'
    calls = ('read_log_from_xes', 'plot_logs_traces_histograms')

    @staticmethod
    def code(paths: list[str], save: str, title: str):
        plot_logs_traces_histograms_for_paths(paths, save, title)

    @staticmethod
    def spec(paths, save, title):
        plot_logs_traces_histograms([read_log_from_xes(p) for p in paths], paths, save, title)


class Frame:
    """axes, legend and labels of a diagram, shown or saved"""
    props = ('C25', 'C26')
    target = '_draw_traces_diversity_like_diagram_internal'

    @staticmethod
    def code(log: MyEventLog, draw: Callable[[TraceDiversityLikeDiagramContext], None], title: str, path: str,
             legend: bool, hs: int, ws: int):
        _draw_traces_diversity_like_diagram_internal(log, draw, title, path, legend, hs, ws)

    @staticmethod
    def spec(log, draw, title, path, legend, hs, ws):
        figure, ax = plt.subplots(figsize=(20, 20))
        c = TraceDiversityLikeDiagramContext(log, ax, ws, hs, 0, hs)
        draw(c)
        if legend:
            ax.legend(c.names_to_rects.values(), c.names_to_rects.keys(), loc='upper center',
                      bbox_to_anchor=(0.5, -0.15), fontsize=20)
        n = len(log) * hs + 1
        ticks = ['' for _ in range(n)]
        ticks[0] = '0'
        ticks[-1] = f'{int((len(ticks) - 1) / hs)}'
        ax.set_yticklabels(ticks)
        ax.set_yticks(range(n))
        if isinstance(log, MyEventLog):
            n = max([len(t) for t in log]) * ws + 1
        elif isinstance(log, list):
            n = 0
            for t in log:
                m = ws
                for r in t:
                    m += r.length * ws
                n = max(n, m)
        else:
            n = 0
        ticks = ['' for _ in range(n)]
        ticks[0] = '0'
        ticks[-1] = f'{int((len(ticks) - 1) / ws)}'
        ax.set_xticklabels(ticks)
        ax.set_xticks(range(n))
        ax.tick_params(axis='y', length=0)
        ax.tick_params(axis='x', length=0)
        ax.axis('scaled')
        if title is not None:
            ax.set_xlabel(title)
        if path is None:
            figure.show()
        else:
            d = os.path.dirname(path)
            if d != '':
                os.makedirs(d, exist_ok=True)
            figure.savefig(path, bbox_inches='tight', dpi=150)
            plt.close(figure)


class FrameOfRects:
    """axes as wide as the longest row of rectangles"""
    props = ('C25',)
    target = '_draw_traces_diversity_like_diagram_internal'

    @staticmethod
    def code(log: list[list[ColoredRectangle]], draw: Callable[[TraceDiversityLikeDiagramContext], None], title: str,
             path: str, legend: bool, hs: int, ws: int):
        _draw_traces_diversity_like_diagram_internal(log, draw, title, path, legend, hs, ws)

    @staticmethod
    def spec(log, draw, title, path, legend, hs, ws):
        Frame.spec(log, draw, title, path, legend, hs, ws)


class Context:
    """the drawing context holds what it was made of and no names yet"""
    props = ('C25',)
    target = 'TraceDiversityLikeDiagramContext'

    @staticmethod
    def code(log: MyEventLog, d: object, w: float, h: float, y: float, hs: int):
        c = TraceDiversityLikeDiagramContext(log, d, w, h, y, hs)
        return c.log, c.drawer, c.rect_width, c.rect_height, c.y_delta_between_traces, c.height_scale, c.names_to_rects

    @staticmethod
    def spec(log, d, w, h, y, hs):
        return log, d, w, h, y, hs, {}


class Diversity:
    """a rectangle per event in order, one row per trace; the colour of a name is kept and shared"""
    props = ('C25',)
    target = '_draw_traces_diversity_like_diagram'
    stream = ('RandomUniqueColorsProvider.next',)

    @staticmethod
    def code(log: MyEventLog, colours: dict[str, str], title: str, path: str, legend: bool, hs: int, ws: int,
             provider: Callable[[str], str]):
        _draw_traces_diversity_like_diagram(log, colours, title, path, legend, hs, ws, provider)

    @staticmethod
    def spec(log, colours, title, path, legend, hs, ws, provider):
        if provider is None:
            provider = lambda name: random_unique_color_provider_instance.next()

        def draw(c):
            y = 0
            mine = {}
            for t in log.traces:
                x = 0
                rects = []
                for e in t.raw_events:
                    name = e.payload['concept:name']
                    if name in mine:
                        colour = mine[name]
                    else:
                        colour = colours[name] if name in colours else provider(name)
                        colours[name] = colour
                        mine[name] = colour
                    r = plt.Rectangle((x, y), c.rect_width, c.rect_height, fc=colour)
                    c.names_to_rects[name] = r
                    rects.append(r)
                    x += c.rect_width
                c.drawer.add_collection(PatchCollection(rects, match_original=True))
                y += c.rect_height + c.y_delta_between_traces
        _draw_traces_diversity_like_diagram_internal(log, draw, title, path, legend, hs, ws)


class Coloured:
    """the rectangles of every trace next to each other in their colours"""
    props = ('C25',)
    target = 'draw_colors_event_log'

    @staticmethod
    def code(log: list[list[ColoredRectangle]], title: str, path: str, legend: bool, hs: int, ws: int):
        draw_colors_event_log(log, title, path, legend, hs, ws)

    @staticmethod
    def spec(log, title, path, legend, hs, ws):
        def draw(c):
            y = 0
            for t in log:
                x = 0
                rects = []
                for q in t:
                    w = c.rect_width * q.length
                    r = plt.Rectangle((x, y), w, c.rect_height, fc=to_hex((q.color.red, q.color.green, q.color.blue)))
                    c.names_to_rects[q.name[:50] if len(q.name) > 50 else q.name] = r
                    rects.append(r)
                    x += w
                c.drawer.add_collection(PatchCollection(rects, match_original=True))
                y += c.rect_height + c.y_delta_between_traces
        _draw_traces_diversity_like_diagram_internal(log, draw, title, path, legend, hs, ws)


class DiversityDiagram:
    """the diagram with the colours of the context"""
    props = ('C25',)
    target = 'draw_traces_diversity_diagram'
    calls = ('_draw_traces_diversity_like_diagram',)

    @staticmethod
    def code(log: MyEventLog, colours: dict[str, str], title: str, path: str, legend: bool, hs: int, ws: int):
        draw_traces_diversity_diagram(log, colours, title, path, legend, hs, ws)

    @staticmethod
    def spec(log, colours, title, path, legend, hs, ws):
        _draw_traces_diversity_like_diagram(log, colours, title, path, legend, hs, ws)


class ConcreteEvents:
    """the events of the set are shown"""
    props = ('C25',)
    target = 'draw_placements_of_concrete_events'
    stream = ('RandomUniqueColorsProvider.next',)

    @staticmethod
    def code(log: MyEventLog, colours: dict[str, str], names: set[str], title: str, path: str, hs: int, legend: bool):
        draw_placements_of_concrete_events(log, colours, names, title, path, hs, legend)

    @staticmethod
    def spec(log, colours, names, title, path, hs, legend):
        draw_placements_of_events(log, colours, lambda n: n in names, title, path, hs, legend)


class Placements:
    """events of the predicate in the colour of their name, others black"""
    props = ('C25',)
    target = 'draw_placements_of_events'
    stream = ('RandomUniqueColorsProvider.next',)

    @staticmethod
    def code(log: MyEventLog, colours: dict[str, str], keep: Callable[[str], bool], title: str, path: str, hs: int,
             legend: bool, ws: int):
        draw_placements_of_events(log, colours, keep, title, path, hs, legend, ws)

    @staticmethod
    def spec(log, colours, keep, title, path, hs, legend, ws):
        random_unique_color_provider_instance.used_colors.add('#000000')

        def colour(name):
            if not keep(name):
                return '#000000'
            if name not in colours:
                colours[name] = random_unique_color_provider_instance.next()
            return colours[name]
        _draw_traces_diversity_like_diagram(log, {}, title, path, legend, hs, ws, colour)


class EntropyHist:
    """a bar per event class of the height of its entropy, the legend from the highest to the lowest"""
    props = ('C25', 'C26')
    target = 'draw_events_entropy_histogram'
    stream = ('RandomUniqueColorsProvider.next',)
    opaque = ('calculate_default_entropies',)

    @staticmethod
    def code(log: MyEventLog, title: str, path: str):
        draw_events_entropy_histogram(log, title, path)

    @staticmethod
    def spec(log, title, path):
        entropies = calculate_default_entropies(log)
        bars = {}
        x = 0
        figure, ax = plt.subplots(1, 1, figsize=(20, 20))
        rects = []
        for name, e in entropies.items():
            r = plt.Rectangle((x, 0), 1, e, fc=random_unique_color_provider_instance.next())
            x += 1
            bars[name] = r
            rects.append(r)
        ax.add_collection(PatchCollection(rects, match_original=True))
        names = bars.keys()
        order = sorted([(n, r, entropies[n]) for n, r in zip(names, bars.values())], key=lambda z: z[2], reverse=True)
        ax.legend([r for _, r, _ in order], [f'{n} {entropies[n]}' for n, _, _ in order], loc='upper center',
                  bbox_to_anchor=(0.5, -0.05))
        ax.axis('scaled')
        if title is not None:
            ax.set_xlabel(title)
        if path is None:
            figure.show()
        else:
            figure.savefig(path, bbox_inches='tight', dpi=150)
            plt.close(figure)


class Dataset:
    """the plot has as many dimensions as components, and is shown or saved"""
    props = ('C26',)
    target = 'visualize_dataset'

    @staticmethod
    def code(n: NComponents, size: tuple, path: str, draw: Callable[[object], None]):
        visualize_dataset(n, size, path, draw)

    @staticmethod
    def spec(n, size, path, draw):
        fig = plt.figure(figsize=size)
        if n == NComponents.Three:
            ax = fig.add_subplot(projection='3d')
        else:
            ax = fig.add_subplot()
        draw(ax)
        if path is None:
            fig.show()
        else:
            fig.savefig(path, bbox_inches='tight', dpi=150)
            plt.close(fig)


class ActivityDiagrams:
    """full and short diagrams with the given options"""
    props = ('C25',)
    target = 'draw_full_activity_diagram'
    calls = ('_do_draw_activity_diagram',)

    @staticmethod
    def code(log: MyEventLog, acts: list[list[ActivityInTraceInfo]], colours: dict[str, str], title: str, legend: bool,
             path: str, hs: int, ws: int):
        draw_full_activity_diagram(log, acts, colours, title, legend, path, hs, ws)
        draw_short_activity_diagram(log, acts, colours, title, legend, path, hs, ws)

    @staticmethod
    def spec(log, acts, colours, title, legend, path, hs, ws):
        _do_draw_activity_diagram(log, acts, colours, title, False, legend, path, hs, ws)
        _do_draw_activity_diagram(log, acts, colours, title, True, legend, path, hs, ws)


class ActivityDiagram:
    """every activity at its place, coloured by its classes, under its name"""
    props = ('C25',)
    target = '_do_draw_activity_diagram'
    opaque = ('calculate_poly_hash_for_collection',)
    calls = ('_sub_traces_draw_func',)

    @staticmethod
    def code(log: MyEventLog, acts: list[list[ActivityInTraceInfo]], colours: dict[str, str], title: str, short: bool,
             legend: bool, path: str, hs: int, ws: int):
        _do_draw_activity_diagram(log, acts, colours, title, short, legend, path, hs, ws)

    @staticmethod
    def spec(log, acts, colours, title, short, legend, path, hs, ws):
        def draw(c):
            parts = [[SubTraceDrawingDto(a.start_pos, a.length,
                                         calculate_poly_hash_for_collection(sorted(a.node.set_of_events)), a.node.name)
                      for a in t] for t in acts]
            _sub_traces_draw_func(c, log, colours, parts, short)
        _draw_traces_diversity_like_diagram_internal(log, draw, title, path, legend, hs, ws)


class PatternDiagram:
    """every pattern at its place, coloured and named by its events"""
    props = ('C25',)
    target = 'draw_patterns'
    opaque = ('calculate_poly_hash_for_collection',)
    calls = ('_sub_traces_draw_func',)

    @staticmethod
    def code(log: MyEventLog, found: list[list[SubArrayInEventLog]], colours: dict[str, str], title: str, legend: bool,
             path: str, hs: int, ws: int, short: bool):
        draw_patterns(log, found, colours, title, legend, path, hs, ws, short)

    @staticmethod
    def spec(log, found, colours, title, legend, path, hs, ws, short):
        def draw(c):
            parts = []
            for t, ps in zip(log.traces, found):
                row = []
                for p in ps:
                    h = calculate_poly_hash_for_collection(t.raw_events[p.first_pos:p.first_pos + p.length])
                    row.append(SubTraceDrawingDto(p.first_pos, p.length, h, str(h)))
                parts.append(row)
            _sub_traces_draw_func(c, log, colours, parts, short)
        _draw_traces_diversity_like_diagram_internal(log, draw, title, path, legend, hs, ws)


class SubTraces:
    """parts in order, the rest of the trace as undefined; the colour of a part is kept and shared"""
    props = ('C25',)
    target = '_sub_traces_draw_func'
    stream = ('RandomUniqueColorsProvider.next',)
    budget = 600000

    @staticmethod
    def code(c: TraceDiversityLikeDiagramContext, log: MyEventLog, colours: dict[str, str],
             parts: list[list[SubTraceDrawingDto]], short: bool):
        _sub_traces_draw_func(c, log, colours, parts, short)

    @staticmethod
    def spec(c, log, colours, parts, short):
        def colour(name):
            if name in colours:
                return colours[name]
            if name == 'UndefinedActivity':
                return to_hex((0, 0, 0))
            r = random_unique_color_provider_instance.next()
            colours[name] = r
            return r

        y = 0
        mine = {}
        for ps, t in zip(parts, log.traces):
            if len(ps) == 0:
                w = c.rect_width
                if not short:
                    w *= len(t.raw_events)
                r = plt.Rectangle((0, y), w, c.rect_height, fc=colour('UndefinedActivity'))
                c.names_to_rects['UndefinedActivity'] = r
                c.drawer.add_patch(r)
            else:
                x = 0
                last = 0
                rects = []
                for p in ps:
                    if last < p.start_pos:
                        w = c.rect_width
                        if not short:
                            w *= (p.start_pos - last)
                        r = plt.Rectangle((x, y), w, c.rect_height, fc=colour('UndefinedActivity'))
                        c.names_to_rects['UndefinedActivity'] = r
                        rects.append(r)
                        x += w
                    if p.hash not in mine:
                        mine[p.hash] = colour(p.name)
                    w = c.rect_width
                    if not short:
                        w *= p.length
                    r = plt.Rectangle((x, y), w, c.rect_height, fc=mine[p.hash])
                    c.names_to_rects[p.name] = r
                    rects.append(r)
                    x += w
                    last = p.start_pos + p.length
                if last < len(t.raw_events):
                    w = c.rect_width
                    if not short:
                        w *= (len(t.raw_events) - last)
                    rects.append(plt.Rectangle((x, y), w, c.rect_height, fc=colour('UndefinedActivity')))
                c.drawer.add_collection(PatchCollection(rects, match_original=True))
            y += c.rect_height + c.y_delta_between_traces


class Placement:
    """the instances of the activity at their places, everything else as undefined"""
    props = ('C25',)
    target = 'draw_activity_placement_diagram'
    stream = ('RandomUniqueColorsProvider.next',)

    @staticmethod
    def code(log: MyEventLog, node: ActivityNode, acts: list[list[ActivityInTraceInfo]], many: bool, legend: bool,
             title: str, hs: int, path: str, ws: int):
        draw_activity_placement_diagram(log, node, acts, many, legend, title, hs, path, ws)

    @staticmethod
    def spec(log, node, acts, many, legend, title, hs, path, ws):
        def draw(c):
            colours = random_unique_color_provider_instance if many else SingleColorProvider()
            black = to_hex((0, 0, 0))
            y = 0
            for xs, t in zip(acts, log.traces):
                last = 0
                x = 0
                rects = []
                for a in xs:
                    if a.node.name == node.name:
                        if last < a.start_pos:
                            w = (a.start_pos - last) * c.rect_width
                            r = plt.Rectangle((x, y), w, c.rect_height, fc=black)
                            c.names_to_rects['UndefinedActivity'] = r
                            rects.append(r)
                            last = a.start_pos
                            x += w
                        w = a.length * c.rect_width
                        r = plt.Rectangle((x, y), w, c.rect_height, fc=colours.next())
                        c.names_to_rects[a.node.name] = r
                        rects.append(r)
                        last += a.length
                        x += w
                if last < len(t.raw_events):
                    r = plt.Rectangle((x, y), (len(t.raw_events) - last) * c.rect_width, c.rect_height, fc=black)
                    c.names_to_rects['UndefinedActivity'] = r
                    rects.append(r)
                c.drawer.add_collection(PatchCollection(rects, match_original=True))
                y += c.rect_height
                colours.reset()
        _draw_traces_diversity_like_diagram_internal(log, draw, title, path, legend, hs, ws)


class ActivityGraph:
    """the graph of the activities, nodes named by hash or by the lines of their name"""
    props = ('C29',)
    target = 'draw_activity_graph'
    calls = ('build_graph', '_do_draw_graph')

    @staticmethod
    def code(acts: list[ActivityNode], path: str, hashes: bool, root: bool, f: Callable[[graphviz.Digraph], None]):
        draw_activity_graph(acts, path, hashes, root, f)

    @staticmethod
    def spec(acts, path, hashes, root, f):
        def name(n):
            return str(hash(n)) if hashes else '\n'.join(n.name.split('::'))
        _do_draw_graph(build_graph(acts, 'Activities Graph', root, name, f), path)


class ClassGraph:
    """the graph of the classes, nodes named by class"""
    props = ('C29',)
    target = 'draw_event_class_tree'
    calls = ('build_graph', '_do_draw_graph')

    @staticmethod
    def code(nodes: list[EventClassNode], path: str, root: bool, f: Callable[[graphviz.Digraph], None]):
        draw_event_class_tree(nodes, path, root, f)

    @staticmethod
    def spec(nodes, path, root, f):
        _do_draw_graph(build_graph(nodes, 'Event Classes Graph', root, lambda n: n.name, f), path)


class ShowGraph:
    """the graph is rendered to the path, or displayed"""
    props = ('C26', 'C29')
    target = '_do_draw_graph'

    @staticmethod
    def code(g: graphviz.Digraph, path: str):
        _do_draw_graph(g, path)

    @staticmethod
    def spec(g, path):
        if path is None:
            g.format = 'png'
            display(Image(g.render()))
        else:
            g.render(filename=path, format='png')


class Hists:
    """every log has its histogram in a cell of its own under its name, whatever the number of logs"""
    props = ('C27', 'C26')
    target = 'plot_logs_traces_histograms'
    opaque = ('_create_array_for_hist',)

    @staticmethod
    def code(logs: list[MyEventLog], names: list[str], path: str, title: str):
        plot_logs_traces_histograms(logs, names, path, title)

    @staticmethod
    def spec(logs, names, path, title):
        side = int(math.ceil(math.sqrt(len(logs))))
        i = 0
        figure, ax = plt.subplots(side, side, figsize=(12, 12), squeeze=False)
        for row in range(side):
            for col in range(side):
                if i >= len(logs):
                    break
                ax[row, col].set_title(os.path.splitext(os.path.basename(names[i]))[0], fontsize=10)
                h, n = _create_array_for_hist(logs[i])
                ax[row, col].hist(h, histtype='stepfilled', bins=[k for k in range(1, n + 1)])
                i += 1
        figure.suptitle(title)
        if path is None:
            figure.show()
        else:
            figure.savefig(path)
            plt.close(figure)


class Pca:
    """the principal components of the values without the label"""
    props = ('C26',)
    target = 'visualize_dataset_pca'
    calls = ('draw_pca_results',)

    @staticmethod
    def code(df: pd.DataFrame, n: NComponents, colours: dict[str, Color], size: tuple, view: tuple, font: int,
             cols: int, path: str, label: str):
        visualize_dataset_pca(df, n, colours, size, view, font, cols, path, label)

    @staticmethod
    def spec(df, n, colours, size, view, font, cols, path, label):
        values = df.values if label is None else df.loc[:, df.columns != label].values
        r = PCA(n_components=n.value).fit_transform(values)
        draw_pca_results(df, r, n, colours, size, view, font, path, label, cols)


class PcaPlot:
    """the components against each other"""
    props = ('C26',)
    target = 'draw_pca_results'
    calls = ('draw_scatter_plot_for_dataset_visualization',)

    @staticmethod
    def code(df: pd.DataFrame, r: object, n: NComponents, colours: dict[str, Color], size: tuple, view: tuple,
             font: int, path: str, label: str, cols: int):
        draw_pca_results(df, r, n, colours, size, view, font, path, label, cols)

    @staticmethod
    def spec(df, r, n, colours, size, view, font, path, label, cols):
        def draw(ax):
            draw_scatter_plot_for_dataset_visualization(ax, df, [r[:, i] for i in range(n.value)], label, font, colours,
                                                        view, cols)
        visualize_dataset(n, size, path, draw)


class Embeddings:
    """each method shows its own embedding with the given options"""
    props = ('C26',)
    target = 'visualize_dataset_isomap'
    calls = ('visualize_dataset_internal',)

    @staticmethod
    def code(df: pd.DataFrame, n: NComponents, colours: dict[str, Color], size: tuple, view: tuple, font: int,
             cols: int, path: str, label: str):
        visualize_dataset_isomap(df, n, colours, size, view, font, cols, path, label)
        visualize_dataset_tsne(df, n, colours, size, view, font, cols, path, label)
        visualize_dataset_mds(df, n, colours, size, view, font, cols, path, label)

    @staticmethod
    def spec(df, n, colours, size, view, font, cols, path, label):
        for m in (Isomap, TSNE, MDS):
            visualize_dataset_internal(df, n, colours, m(n_components=n.value), size, view, font, cols, path, label)


class Embedding:
    """the components of the embedding of the values without the label against each other"""
    props = ('C26',)
    target = 'visualize_dataset_internal'
    calls = ('draw_scatter_plot_for_dataset_visualization',)

    @staticmethod
    def code(df: pd.DataFrame, n: NComponents, colours: dict[str, Color], m: object, size: tuple, view: tuple, font: int,
             cols: int, path: str, label: str):
        visualize_dataset_internal(df, n, colours, m, size, view, font, cols, path, label)

    @staticmethod
    def spec(df, n, colours, m, size, view, font, cols, path, label):
        def draw(ax):
            values = df.values if label is None else df.loc[:, df.columns != label].values
            r = m.fit_transform(values)
            draw_scatter_plot_for_dataset_visualization(ax, df, [r[:, i] for i in range(n.value)], label, font, colours,
                                                        view, cols)
        visualize_dataset(n, size, path, draw)


class Scatter:
    """the points of every label in its colour, one axis per component"""
    props = ('C25',)
    target = 'draw_scatter_plot_for_dataset_visualization'

    @staticmethod
    def code(ax: object, df: pd.DataFrame, xs: list[object], label: str, font: int, colours: dict[str, Color],
             view: tuple, cols: int):
        draw_scatter_plot_for_dataset_visualization(ax, df, xs, label, font, colours, view, cols)

    @staticmethod
    def spec(ax, df, xs, label, font, colours, view, cols):
        if len(xs) == 1:
            xs.append(np.array([0 for _ in range(len(xs[0]))]))
        if label is None:
            ax.scatter(*xs)
        else:
            y = df[label].to_numpy()
            for v in np.unique(y):
                ix = np.where(y == v)
                c = colours[v].to_hex() if v in colours else '#FFFFFF'
                ax.scatter(*[xs[i][ix] for i in range(len(xs))], c=c, label=f'CLUSTER_{v}')
            ax.legend(loc='upper center', bbox_to_anchor=(0.5, -0.05), fancybox=True, shadow=True, ncol=cols)
        for i in range(len(xs)):
            if i == 0:
                ax.set_xlabel('Component 1', fontsize=font)
            elif i == 1:
                ax.set_ylabel('Component 2', fontsize=font)
            elif i == 2:
                ax.set_zlabel('Component 3', fontsize=font)
        if len(xs) == 3:
            ax.view_init(view[0], view[1])


class CanvasWidth:
    """the length of the longest row"""
    props = ('C25',)
    target = '_calculate_canvas_width'

    @staticmethod
    def code(log: list[list[ColoredRectangle]]):
        return _calculate_canvas_width(log)

    @staticmethod
    def spec(log):
        return max([sum([r.length for r in t]) for t in log])


class CanvasRows:
    """the rectangles of every row next to each other in their colours, rows below each other"""
    props = ('C25',)
    target = '_draw_actual_traces_diversity_diagram'

    @staticmethod
    def code(log: list[list[ColoredRectangle]], c: Canvas, title: str, th: float, bh: float, mw: int, ws: float,
             hs: float):
        _draw_actual_traces_diversity_diagram(log, c, title, th, bh, mw, ws, hs)

    @staticmethod
    def spec(log, c, title, th, bh, mw, ws, hs):
        with hold_canvas():
            c.fill_style = 'white'
            c.fill_rect(0, 0, c.width, c.height)
            c.fill_style = 'black'
            if title is not None:
                c.font = '10px'
                c.fill_text(title, c.width / 2, th / 2)
            c.stroke_style = 'black'
            c.stroke_line(15, th, 15, bh - 15)
            c.stroke_line(15, bh - 15, c.width, bh - 15)
            c.font = 'f10px'
            c.fill_text(str(len(log)), 0, 10 + th)
            n = str(mw)
            c.fill_text(n, c.width - 5.5 * len(n), bh)
            y = th
            for t in log:
                x = 21
                for r in t:
                    c.fill_style = to_hex((r.color.red, r.color.green, r.color.blue))
                    c.fill_rect(x, y, r.length * ws, hs)
                    x += r.length * ws
                y += hs


class CanvasLegend:
    """every name next to a rectangle of its colour, below each other"""
    props = ('C25',)
    target = '_draw_legend'

    @staticmethod
    def code(c: Canvas, names: dict[str, str], bh: float):
        _draw_legend(c, names, bh)

    @staticmethod
    def spec(c, names, bh):
        with hold_canvas():
            x = c.width / 3
            for i, (name, colour) in enumerate(names.items()):
                c.fill_style = colour
                c.fill_rect(x, bh + 20 * i, 40, 20)
                c.fill_style = 'black'
                c.fill_text(name, x + 50, bh + 20 * i + 20 / 1.4)


class CanvasDiagram:
    """the canvas holds all rows and the legend; it is shown, or saved to the path when its image is there"""
    props = ('C25', 'C26')
    target = 'draw_colors_event_log_canvas'
    opaque = ('_calculate_canvas_width',)
    calls = ('_draw_actual_traces_diversity_diagram', '_draw_legend')

    @staticmethod
    def code(log: list[list[ColoredRectangle]], title: str, legend: bool, ws: float, hs: float, path: str):
        draw_colors_event_log_canvas(log, title, legend, ws, hs, path)

    @staticmethod
    def spec(log, title, legend, ws, hs, path):
        w = _calculate_canvas_width(log)
        th = 20 if title is not None else 10
        bh = len(log) * hs + 21 + th
        h = bh
        names = None
        if legend:
            names = {}
            for t in log:
                for r in t:
                    names[r.name] = r.color.to_hex()
            h += len(names) * 20
        c = Canvas(width=w * ws + 21 + 15, height=h, sync_image_data=path is not None)

        def save(change):
            if path is not None:
                c.to_file(path)
        if path is not None:
            c.observe(save, 'image_data')
        _draw_actual_traces_diversity_diagram(log, c, title, th, bh, w, ws, hs)
        if names is not None:
            _draw_legend(c, names, bh)
        if path is None:
            display(c)


class BuiltGraph:
    """every node once, an edge from every node to each of the nodes above it"""
    props = ('C29',)
    target = 'build_graph'
    opaque = ()

    @staticmethod
    def code(nodes: list[GraphNode], name: str, root: bool, names: Callable[[GraphNode], str],
             f: Callable[[graphviz.Digraph], None]):
        return build_graph(nodes, name, root, names, f)

    @staticmethod
    def spec(nodes, name, root, names, f):
        g = graphviz.Digraph(name)
        seen = set()

        def add_node(current_graph, parent_node, node):
            n = names(node)
            if n in seen:
                if parent_node is not None:
                    current_graph.edge(n, parent_node)
                return
            seen.add(n)
            if parent_node is not None:
                current_graph.edge(n, parent_node)
            current_graph.node(n)
            for c in node.child_nodes:
                add_node(current_graph, n, c)
        for n in nodes:
            add_node(g, 'root' if root else None, n)
        f(g)
        return g
