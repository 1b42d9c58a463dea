"""What the callbacks of client parts do with the values they get."""
from ficus.grpc_pipelines.grpc_pipelines import PrintEventLogInfo2
from ficus.grpc_pipelines.drawing_parts import *
from ficus.grpc_pipelines.discovery_parts import *
from ficus.grpc_pipelines.activities_parts import *
from ficus.grpc_pipelines.util_parts import PrintEventLog2
from ficus.grpc_pipelines.context_values import *
from ficus.grpc_pipelines.models.pipelines_and_context_pb2 import *
from ficus.legacy.analysis.event_log_analysis import draw_colors_event_log, visualize_dataset_pca, \
    visualize_dataset_isomap, visualize_dataset_mds, visualize_dataset_tsne, NComponents, DatasetVisualizationMethod
from ficus.legacy.analysis.event_log_analysis_canvas import draw_colors_event_log_canvas
from ficus.legacy.discovery.petri_net import draw_petri_net
from ficus.legacy.discovery.graph import draw_graph


def mpl(values, title, path, legend, height, width):
    draw_colors_event_log(from_grpc_colors_log(values['colors_event_log'].colors_log), title=title, save_path=path,
                          plot_legend=legend, height_scale=height, width_scale=width)


def canvas(values, title, path, legend, height, width):
    draw_colors_event_log_canvas(from_grpc_colors_log(values['colors_event_log'].colors_log), title=title,
                                 save_path=path, plot_legend=legend, height_scale=height, width_scale=width)


class ShowTracesDiversityDiagram2:
    """the diagram is drawn from the returned colours with every drawing option as given"""
    props = ('C10',)
    target = 'TracesDiversityDiagram2.execute_callback'
    calls = ('draw_colors_event_log', 'draw_colors_event_log_canvas')

    @staticmethod
    def code(what: str, title: str, path: str, legend: bool, height: float, width: float,
             values: dict[str, GrpcContextValue]):
        part = TracesDiversityDiagram2(title=title, save_path=path, plot_legend=legend, height_scale=height,
                     width_scale=width)
        part.execute_callback(values)

    @staticmethod
    def spec(what, title, path, legend, height, width, values):
        mpl(values, title, path, legend, height, width)


class ShowDrawPlacementsOfEventByName2:
    """the diagram is drawn from the returned colours with every drawing option as given"""
    props = ('C10',)
    target = 'DrawPlacementsOfEventByName2.execute_callback'
    calls = ('draw_colors_event_log', 'draw_colors_event_log_canvas')

    @staticmethod
    def code(what: str, title: str, path: str, legend: bool, height: float, width: float,
             values: dict[str, GrpcContextValue]):
        part = DrawPlacementsOfEventByName2(event_name=what, title=title, save_path=path, plot_legend=legend, height_scale=height,
                     width_scale=width)
        part.execute_callback(values)

    @staticmethod
    def spec(what, title, path, legend, height, width, values):
        mpl(values, title, path, legend, height, width)


class ShowDrawPlacementOfEventsByRegex2:
    """the diagram is drawn from the returned colours with every drawing option as given"""
    props = ('C10',)
    target = 'DrawPlacementOfEventsByRegex2.execute_callback'
    calls = ('draw_colors_event_log', 'draw_colors_event_log_canvas')

    @staticmethod
    def code(what: str, title: str, path: str, legend: bool, height: float, width: float,
             values: dict[str, GrpcContextValue]):
        part = DrawPlacementOfEventsByRegex2(regex=what, title=title, save_path=path, plot_legend=legend, height_scale=height,
                     width_scale=width)
        part.execute_callback(values)

    @staticmethod
    def spec(what, title, path, legend, height, width, values):
        mpl(values, title, path, legend, height, width)


class ShowDrawFullActivitiesDiagram2:
    """the diagram is drawn from the returned colours with every drawing option as given"""
    props = ('C10',)
    target = 'DrawFullActivitiesDiagram2.execute_callback'
    calls = ('draw_colors_event_log', 'draw_colors_event_log_canvas')

    @staticmethod
    def code(what: str, title: str, path: str, legend: bool, height: float, width: float,
             values: dict[str, GrpcContextValue]):
        part = DrawFullActivitiesDiagram2(title=title, save_path=path, plot_legend=legend, height_scale=height,
                     width_scale=width)
        part.execute_callback(values)

    @staticmethod
    def spec(what, title, path, legend, height, width, values):
        mpl(values, title, path, legend, height, width)


class ShowDrawShortActivitiesDiagram2:
    """the diagram is drawn from the returned colours with every drawing option as given"""
    props = ('C10',)
    target = 'DrawShortActivitiesDiagram2.execute_callback'
    calls = ('draw_colors_event_log', 'draw_colors_event_log_canvas')

    @staticmethod
    def code(what: str, title: str, path: str, legend: bool, height: float, width: float,
             values: dict[str, GrpcContextValue]):
        part = DrawShortActivitiesDiagram2(title=title, save_path=path, plot_legend=legend, height_scale=height,
                     width_scale=width)
        part.execute_callback(values)

    @staticmethod
    def spec(what, title, path, legend, height, width, values):
        mpl(values, title, path, legend, height, width)


class ShowTracesDiversityDiagram2Canvas:
    """the diagram is drawn from the returned colours with every drawing option as given"""
    props = ('C10',)
    target = 'TracesDiversityDiagram2Canvas.execute_callback'
    calls = ('draw_colors_event_log', 'draw_colors_event_log_canvas')

    @staticmethod
    def code(what: str, title: str, path: str, legend: bool, height: float, width: float,
             values: dict[str, GrpcContextValue]):
        part = TracesDiversityDiagram2Canvas(title=title, save_path=path, plot_legend=legend, height_scale=height,
                     width_scale=width)
        part.execute_callback(values)

    @staticmethod
    def spec(what, title, path, legend, height, width, values):
        canvas(values, title, path, legend, height, width)


class ShowDrawPlacementsOfEventByName2Canvas:
    """the diagram is drawn from the returned colours with every drawing option as given"""
    props = ('C10',)
    target = 'DrawPlacementsOfEventByName2Canvas.execute_callback'
    calls = ('draw_colors_event_log', 'draw_colors_event_log_canvas')

    @staticmethod
    def code(what: str, title: str, path: str, legend: bool, height: float, width: float,
             values: dict[str, GrpcContextValue]):
        part = DrawPlacementsOfEventByName2Canvas(event_name=what, title=title, save_path=path, plot_legend=legend, height_scale=height,
                     width_scale=width)
        part.execute_callback(values)

    @staticmethod
    def spec(what, title, path, legend, height, width, values):
        canvas(values, title, path, legend, height, width)


class ShowDrawPlacementOfEventsByRegex2Canvas:
    """the diagram is drawn from the returned colours with every drawing option as given"""
    props = ('C10',)
    target = 'DrawPlacementOfEventsByRegex2Canvas.execute_callback'
    calls = ('draw_colors_event_log', 'draw_colors_event_log_canvas')

    @staticmethod
    def code(what: str, title: str, path: str, legend: bool, height: float, width: float,
             values: dict[str, GrpcContextValue]):
        part = DrawPlacementOfEventsByRegex2Canvas(regex=what, title=title, save_path=path, plot_legend=legend, height_scale=height,
                     width_scale=width)
        part.execute_callback(values)

    @staticmethod
    def spec(what, title, path, legend, height, width, values):
        canvas(values, title, path, legend, height, width)


class ShowDrawFullActivitiesDiagram2Canvas:
    """the diagram is drawn from the returned colours with every drawing option as given"""
    props = ('C10',)
    target = 'DrawFullActivitiesDiagram2Canvas.execute_callback'
    calls = ('draw_colors_event_log', 'draw_colors_event_log_canvas')

    @staticmethod
    def code(what: str, title: str, path: str, legend: bool, height: float, width: float,
             values: dict[str, GrpcContextValue]):
        part = DrawFullActivitiesDiagram2Canvas(title=title, save_path=path, plot_legend=legend, height_scale=height,
                     width_scale=width)
        part.execute_callback(values)

    @staticmethod
    def spec(what, title, path, legend, height, width, values):
        canvas(values, title, path, legend, height, width)


class ShowDrawShortActivitiesDiagram2Canvas:
    """the diagram is drawn from the returned colours with every drawing option as given"""
    props = ('C10',)
    target = 'DrawShortActivitiesDiagram2Canvas.execute_callback'
    calls = ('draw_colors_event_log', 'draw_colors_event_log_canvas')

    @staticmethod
    def code(what: str, title: str, path: str, legend: bool, height: float, width: float,
             values: dict[str, GrpcContextValue]):
        part = DrawShortActivitiesDiagram2Canvas(title=title, save_path=path, plot_legend=legend, height_scale=height,
                     width_scale=width)
        part.execute_callback(values)

    @staticmethod
    def spec(what, title, path, legend, height, width, values):
        canvas(values, title, path, legend, height, width)


class ShowAnnotatePetriNetWithCount2:
    """the net is drawn with its annotation and every drawing option as given"""
    props = ('C10',)
    target = 'AnnotatePetriNetWithCount2.execute_callback'
    calls = ('draw_petri_net',)

    @staticmethod
    def code(term: bool, names: bool, name: str, color: str, engine: str, path: str, rankdir: str,
             values: dict[str, GrpcContextValue]):
        part = AnnotatePetriNetWithCount2(terminate_on_unreplayable_trace=term, show_places_names=names, name=name,
                     background_color=color, engine=engine, export_path=path, rankdir=rankdir)
        part.execute_callback(values)

    @staticmethod
    def spec(term, names, name, color, engine, path, rankdir, values):
        draw_petri_net(from_grpc_petri_net(values['petri_net'].petriNet), show_places_names=names, name=name,
                       background_color=color, engine=engine, export_path=path, rankdir=rankdir,
                       annotation=from_grpc_count_annotation(values['petri_net_count_annotation'].count_annotation))


class ShowAnnotatePetriNetWithFrequency2:
    """the net is drawn with its annotation and every drawing option as given"""
    props = ('C10',)
    target = 'AnnotatePetriNetWithFrequency2.execute_callback'
    calls = ('draw_petri_net',)

    @staticmethod
    def code(term: bool, names: bool, name: str, color: str, engine: str, path: str, rankdir: str,
             values: dict[str, GrpcContextValue]):
        part = AnnotatePetriNetWithFrequency2(terminate_on_unreplayable_trace=term, show_places_names=names, name=name,
                     background_color=color, engine=engine, export_path=path, rankdir=rankdir)
        part.execute_callback(values)

    @staticmethod
    def spec(term, names, name, color, engine, path, rankdir, values):
        draw_petri_net(from_grpc_petri_net(values['petri_net'].petriNet), show_places_names=names, name=name,
                       background_color=color, engine=engine, export_path=path, rankdir=rankdir,
                       annotation=from_grpc_frequency_annotation(values['petri_net_frequency_annotation'].frequency_annotation))


class ShowAnnotatePetriNetWithTraceFrequency2:
    """the net is drawn with its annotation and every drawing option as given"""
    props = ('C10',)
    target = 'AnnotatePetriNetWithTraceFrequency2.execute_callback'
    calls = ('draw_petri_net',)

    @staticmethod
    def code(term: bool, names: bool, name: str, color: str, engine: str, path: str, rankdir: str,
             values: dict[str, GrpcContextValue]):
        part = AnnotatePetriNetWithTraceFrequency2(terminate_on_unreplayable_trace=term, show_places_names=names, name=name,
                     background_color=color, engine=engine, export_path=path, rankdir=rankdir)
        part.execute_callback(values)

    @staticmethod
    def spec(term, names, name, color, engine, path, rankdir, values):
        draw_petri_net(from_grpc_petri_net(values['petri_net'].petriNet), show_places_names=names, name=name,
                       background_color=color, engine=engine, export_path=path, rankdir=rankdir,
                       annotation=from_grpc_frequency_annotation(values['petri_net_trace_frequency_annotation'].frequency_annotation))


class ShowNet:
    """the net is drawn with every drawing option as given"""
    props = ('C10',)
    target = 'ViewPetriNet2.execute_callback'
    calls = ('draw_petri_net',)

    @staticmethod
    def code(names: bool, name: str, color: str, engine: str, path: str, rankdir: str, annotation: dict[int, str],
             values: dict[str, GrpcContextValue]):
        part = ViewPetriNet2(show_places_names=names, name=name, background_color=color, engine=engine,
                             export_path=path, rankdir=rankdir, annotation=annotation)
        part.execute_callback(values)

    @staticmethod
    def spec(names, name, color, engine, path, rankdir, annotation, values):
        draw_petri_net(from_grpc_petri_net(values['petri_net'].petriNet), show_places_names=names, name=name,
                       background_color=color, engine=engine, export_path=path, rankdir=rankdir,
                       annotation=annotation)


class ShowDfg:
    """the graph is drawn with every drawing option as given"""
    props = ('C10',)
    target = 'ViewDirectlyFollowsGraph2.execute_callback'
    calls = ('draw_graph',)

    @staticmethod
    def code(name: str, color: str, engine: str, path: str, rankdir: str, values: dict[str, GrpcContextValue]):
        part = ViewDirectlyFollowsGraph2(name=name, background_color=color, engine=engine, export_path=path,
                                         rankdir=rankdir)
        part.execute_callback(values)

    @staticmethod
    def spec(name, color, engine, path, rankdir, values):
        draw_graph(from_grpc_graph(values['graph'].graph), name=name, background_color=color, engine=engine,
                   export_path=path, rankdir=rankdir)


class ShowGraph:
    """the graph is drawn with every drawing option as given"""
    props = ('C10',)
    target = 'ViewGraph2.execute_callback'
    calls = ('draw_graph',)

    @staticmethod
    def code(name: str, color: str, engine: str, path: str, rankdir: str, values: dict[str, GrpcContextValue]):
        part = ViewGraph2(name=name, background_color=color, engine=engine, export_path=path,
                                         rankdir=rankdir)
        part.execute_callback(values)

    @staticmethod
    def spec(name, color, engine, path, rankdir, values):
        draw_graph(from_grpc_graph(values['graph'].graph), name=name, background_color=color, engine=engine,
                   export_path=path, rankdir=rankdir)


def picture(method, df, n, colors, size, view, font, cols, path, label):
    if method == DatasetVisualizationMethod.Pca:
        visualize_dataset_pca(df, n, colors, size, view, font, cols, path, label)
    elif method == DatasetVisualizationMethod.Isomap:
        visualize_dataset_isomap(df, n, colors, size, view, font, cols, path, label)
    elif method == DatasetVisualizationMethod.MDS:
        visualize_dataset_mds(df, n, colors, size, view, font, cols, path, label)
    elif method == DatasetVisualizationMethod.TSNE:
        visualize_dataset_tsne(df, n, colors, size, view, font, cols, path, label)
    else:
        raise KeyError()


def clusters(show, key, values, method, n, size, view, font, cols, path):
    if show:
        d = values[key].labeled_dataset
        colors = {}
        for label, c in zip(d.labels, d.labelsColors):
            colors[label] = from_grpc_color(c)
        picture(method, from_grpc_labeled_dataset(d), n, colors, size, view, font, cols, path, 'cluster_labels')


class ShowTracesActivities:
    """the dataset is drawn by the chosen method with every drawing option as given"""
    props = ('C10',)
    target = 'VisualizeTracesActivities2.execute_callback'
    calls = ('visualize_dataset_pca', 'visualize_dataset_isomap', 'visualize_dataset_mds', 'visualize_dataset_tsne')

    @staticmethod
    def code(size: tuple[int, int], view: tuple[int, int], font: int, path: str, n: NComponents,
             method: DatasetVisualizationMethod, cols: int, values: dict[str, GrpcContextValue]):
        part = VisualizeTracesActivities2(fig_size=size, view_params=view, font_size=font, save_path=path,
                                          n_components=n, visualization_method=method, legend_cols=cols)
        part.execute_callback(values)

    @staticmethod
    def spec(size, view, font, path, n, method, cols, values):
        df = from_grpc_ficus_dataset(values['traces_activities_dataset'].dataset)
        picture(method, df, n, dict(), size, view, font, cols, path, None)


class ShowClusterizeActivitiesFromTracesKMeans:
    """the clusters are drawn by the chosen method with every drawing option as given, or not at all"""
    props = ('C10',)
    target = 'ClusterizeActivitiesFromTracesKMeans.execute_callback'
    calls = ('visualize_dataset_pca', 'visualize_dataset_isomap', 'visualize_dataset_mds', 'visualize_dataset_tsne')

    @staticmethod
    def code(show: bool, size: tuple[int, int], view: tuple[int, int], font: int, path: str, n: NComponents,
             method: DatasetVisualizationMethod, cols: int, nested: Pipeline2, values: dict[str, GrpcContextValue]):
        part = ClusterizeActivitiesFromTracesKMeans(show_visualization=show, fig_size=size, view_params=view, font_size=font,
                     save_path=path, n_components=n, visualization_method=method, legend_cols=cols)
        part.execute_callback(values)

    @staticmethod
    def spec(show, size, view, font, path, n, method, cols, nested, values):
        clusters(show, 'labeled_traces_activities_dataset', values, method, n, size, view, font, cols, path)


class ShowClusterizeActivitiesFromTracesKMeansGridSearch:
    """the clusters are drawn by the chosen method with every drawing option as given, or not at all"""
    props = ('C10',)
    target = 'ClusterizeActivitiesFromTracesKMeansGridSearch.execute_callback'
    calls = ('visualize_dataset_pca', 'visualize_dataset_isomap', 'visualize_dataset_mds', 'visualize_dataset_tsne')

    @staticmethod
    def code(show: bool, size: tuple[int, int], view: tuple[int, int], font: int, path: str, n: NComponents,
             method: DatasetVisualizationMethod, cols: int, nested: Pipeline2, values: dict[str, GrpcContextValue]):
        part = ClusterizeActivitiesFromTracesKMeansGridSearch(show_visualization=show, fig_size=size, view_params=view, font_size=font,
                     save_path=path, n_components=n, visualization_method=method, legend_cols=cols)
        part.execute_callback(values)

    @staticmethod
    def spec(show, size, view, font, path, n, method, cols, nested, values):
        clusters(show, 'labeled_traces_activities_dataset', values, method, n, size, view, font, cols, path)


class ShowClusterizeActivitiesFromTracesDbscan:
    """the clusters are drawn by the chosen method with every drawing option as given, or not at all"""
    props = ('C10',)
    target = 'ClusterizeActivitiesFromTracesDbscan.execute_callback'
    calls = ('visualize_dataset_pca', 'visualize_dataset_isomap', 'visualize_dataset_mds', 'visualize_dataset_tsne')

    @staticmethod
    def code(show: bool, size: tuple[int, int], view: tuple[int, int], font: int, path: str, n: NComponents,
             method: DatasetVisualizationMethod, cols: int, nested: Pipeline2, values: dict[str, GrpcContextValue]):
        part = ClusterizeActivitiesFromTracesDbscan(show_visualization=show, fig_size=size, view_params=view, font_size=font,
                     save_path=path, n_components=n, visualization_method=method, legend_cols=cols)
        part.execute_callback(values)

    @staticmethod
    def spec(show, size, view, font, path, n, method, cols, nested, values):
        clusters(show, 'labeled_traces_activities_dataset', values, method, n, size, view, font, cols, path)


class ShowClusterizeLogTracesDbscan:
    """the clusters are drawn by the chosen method with every drawing option as given, or not at all"""
    props = ('C10',)
    target = 'ClusterizeLogTracesDbscan.execute_callback'
    calls = ('visualize_dataset_pca', 'visualize_dataset_isomap', 'visualize_dataset_mds', 'visualize_dataset_tsne')

    @staticmethod
    def code(show: bool, size: tuple[int, int], view: tuple[int, int], font: int, path: str, n: NComponents,
             method: DatasetVisualizationMethod, cols: int, nested: Pipeline2, values: dict[str, GrpcContextValue]):
        part = ClusterizeLogTracesDbscan(nested, show_visualization=show, fig_size=size, view_params=view, font_size=font,
                     save_path=path, n_components=n, visualization_method=method, legend_cols=cols)
        part.execute_callback(values)

    @staticmethod
    def spec(show, size, view, font, path, n, method, cols, nested, values):
        clusters(show, 'labeled_log_traces_dataset', values, method, n, size, view, font, cols, path)


class PrintNames:
    """the names of every trace are printed, trace by trace"""
    props = ('C10',)
    target = 'PrintEventLog2.execute_callback'
    prints = True

    @staticmethod
    def code(values: dict[str, GrpcContextValue]):
        PrintEventLog2().execute_callback(values)

    @staticmethod
    def spec(values):
        for t in values['names_event_log'].names_log.log.traces:
            print([e for e in t.events])


class PrintCount:
    """the received number is printed"""
    props = ('C10',)
    target = 'PrintNumberOfUnderlyingEvents2.execute_callback'
    prints = True

    @staticmethod
    def code(values: dict[str, GrpcContextValue]):
        PrintNumberOfUnderlyingEvents2().execute_callback(values)

    @staticmethod
    def spec(values):
        print('Underlying events count: ' + str(values['underlying_events_count'].uint32))


class PrintInfo:
    """the log information is printed"""
    props = ('C10',)
    target = 'PrintEventLogInfo2.execute_callback'
    prints = True

    @staticmethod
    def code(values: dict[str, GrpcContextValue]):
        PrintEventLogInfo2().execute_callback(values)

    @staticmethod
    def spec(values):
        print(from_grpc_event_log_info(values['event_log_info'].event_log_info))
