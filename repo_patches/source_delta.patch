From 9dd0971568e8478585062806daf88e9fd609c169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:02 +0000
Subject: [PATCH 01/19] fix: PrintEventlogInfoBeforeAfter sends its pipeline
 and registers nested callbacks

---
 src/python/ficus/grpc_pipelines/util_parts.py | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/util_parts.py b/src/python/ficus/grpc_pipelines/util_parts.py
index f90addb..036ebd5 100644
--- a/src/python/ficus/grpc_pipelines/util_parts.py
+++ b/src/python/ficus/grpc_pipelines/util_parts.py
@@ -1,5 +1,5 @@
 from .constants import const_use_names_event_log, const_names_event_log, const_get_names_event_log, \
-    const_pipeline
+    const_pipeline, const_execute_frontend_part
 from .grpc_pipelines import PipelinePart2, _create_default_pipeline_part, PipelinePart2WithCallback, \
     _create_complex_get_context_part, Pipeline2, append_pipeline_value, PrintEventLogInfo2
 from .models.pipelines_and_context_pb2 import GrpcPipelinePartBase, GrpcPipelinePartConfiguration, \
@@ -26,19 +26,18 @@ class PrintEventlogInfoBeforeAfter(PipelinePart2):
     def __init__(self, inner_pipeline: Pipeline2):
         super().__init__()
         self.inner_pipeline = inner_pipeline
+        self.info_before = PrintEventLogInfo2()
+        self.info_after = PrintEventLogInfo2()
+
+    def _create_pipeline(self) -> Pipeline2:
+        return Pipeline2(self.info_before, *self.inner_pipeline.parts, self.info_after)
 
     def to_grpc_part(self) -> GrpcPipelinePartBase:
         config = GrpcPipelinePartConfiguration()
+        append_pipeline_value(config, const_pipeline, self._create_pipeline())
 
-        pipeline = Pipeline2(
-            PrintEventLogInfo2(),
-        )
-
-        for part in self.inner_pipeline.parts:
-            pipeline.parts.append(part)
-
-        pipeline.parts.append(PrintEventLogInfo2())
-
-        append_pipeline_value(config, const_pipeline, pipeline)
+        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part(const_execute_frontend_part, config))
 
-        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part())
+    def append_parts_with_callbacks(self, parts: list['PipelinePart2WithCallback']):
+        super().append_parts_with_callbacks(parts)
+        self._create_pipeline().append_parts_with_callbacks(parts)
-- 
2.43.0


From dc97a023a0d5a2ec62868100d00bf47a7aa98642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:02 +0000
Subject: [PATCH 02/19] fix: Pipeline2.execute leaves the caller's initial
 context unchanged

---
 src/python/ficus/grpc_pipelines/grpc_pipelines.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/grpc_pipelines.py b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
index 1b267ca..2b1ab1f 100644
--- a/src/python/ficus/grpc_pipelines/grpc_pipelines.py
+++ b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
@@ -29,8 +29,7 @@ class Pipeline2:
                    ('grpc.max_receive_message_length', 512 * 1024 * 1024)]
 
         addr = initial_context[ficus_backend_addr_key] if ficus_backend_addr_key in initial_context else 'localhost:8080'
-        if ficus_backend_addr_key in initial_context:
-            del initial_context[ficus_backend_addr_key]
+        initial_context = {key: value for key, value in initial_context.items() if key != ficus_backend_addr_key}
 
         with grpc.insecure_channel(addr, options=options) as channel:
             stub = GrpcBackendServiceStub(channel)
-- 
2.43.0


From fbc57db2dff011a528af969544b4eeca91ec00d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:02 +0000
Subject: [PATCH 03/19] fix: EventLogInfo is wrapped into a context value

---
 src/python/ficus/grpc_pipelines/context_values.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/context_values.py b/src/python/ficus/grpc_pipelines/context_values.py
index 7961876..f9dbca8 100644
--- a/src/python/ficus/grpc_pipelines/context_values.py
+++ b/src/python/ficus/grpc_pipelines/context_values.py
@@ -120,9 +120,9 @@ class EventLogInfo(ContextValue):
     traces_count: int
 
     def to_grpc_context_value(self) -> GrpcContextValue:
-        return GrpcEventLogInfo(events_count=self.events_count,
-                                traces_count=self.traces_count,
-                                event_classes_count=self.event_classes_count)
+        return GrpcContextValue(event_log_info=GrpcEventLogInfo(events_count=self.events_count,
+                                                                traces_count=self.traces_count,
+                                                                event_classes_count=self.event_classes_count))
 
 
 def from_grpc_colors_log(grpc_colors_log: GrpcColorsEventLog) -> list[list[ColoredRectangle]]:
-- 
2.43.0


From 2aea9adab1e50e891638146d44395d32be5279a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:54 +0000
Subject: [PATCH 04/19] fix: XES reader parses boolean attributes by value

---
 src/python/ficus/legacy/log/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 9b7ba89..3f3fc00 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -124,12 +124,16 @@ def _parse_datetime(value: str):
     return parser.parse(value)
 
 
+def _parse_bool(value: str) -> bool:
+    return value.strip().lower() in ('true', '1')
+
+
 parse_functions = {
     const_tag_string: str,
     const_tag_date: _parse_datetime,
     const_tag_int: int,
     const_tag_float: float,
-    const_tag_bool: bool
+    const_tag_bool: _parse_bool
 }
 
 
-- 
2.43.0


From 290351d2e214b6df07bc47545b73802267985cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:54 +0000
Subject: [PATCH 05/19] fix: XES reader keeps the type of global default values

---
 src/python/ficus/legacy/log/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 3f3fc00..c4506a5 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -81,7 +81,8 @@ def read_log_from_xes(path: str) -> MyEventLog:
 
             for global_child in child:
                 attrs = global_child.attrib
-                log.global_values[scope][attrs[const_attr_key]] = attrs[const_attr_value]
+                value = _parse_value_tag(global_child) if _is_value_tag(global_child) else attrs[const_attr_value]
+                log.global_values[scope][attrs[const_attr_key]] = value
 
             continue
 
-- 
2.43.0


From ba6706817c36cd62c93fc301b2fe61db3da85116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:54 +0000
Subject: [PATCH 06/19] fix: XES writer serializes log properties as typed
 key-value tags

---
 src/python/ficus/legacy/log/functions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index c4506a5..625ffd9 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -238,9 +238,8 @@ def serialize_log_to_xes(log: MyEventLog) -> str:
         log_element.append(classifier_element)
 
     for key, value in log.properties.items():
-        property_element = ET.Element(const_tag_string)
-        property_element.attrib[key] = value
-        log_element.append(property_element)
+        if _should_serialize_payload_key_value(key, value):
+            log_element.append(_create_value_tag(key, value))
 
     for scope_name, scope_default_values in log.global_values.items():
         global_scope_element = ET.Element(const_tag_global)
-- 
2.43.0


From 164b1a1689aa173b5511c7c6cadd9baaf1cc33cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:54 +0000
Subject: [PATCH 07/19] fix: save_event_log_to_xes accepts a path without a
 directory

---
 src/python/ficus/legacy/log/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 625ffd9..d587570 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -298,7 +298,10 @@ def _check_if_default_value(log: MyEventLog,
 
 def save_event_log_to_xes(log: MyEventLog, save_path: str):
     log_xes_string = serialize_log_to_xes(log)
-    os.makedirs(os.path.dirname(save_path), exist_ok=True)
+    directory = os.path.dirname(save_path)
+    if directory != '':
+        os.makedirs(directory, exist_ok=True)
+
     with open(save_path, 'w') as fout:
         fout.write(log_xes_string)
 
-- 
2.43.0


From d0cd45b867e5b83e5a8e3b9be94fb51dc2adcbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:54 +0000
Subject: [PATCH 08/19] fix: copies of traces and logs keep trace attributes
 and global values

---
 src/python/ficus/legacy/log/event_log.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/log/event_log.py b/src/python/ficus/legacy/log/event_log.py
index 574d755..e7c1e9a 100644
--- a/src/python/ficus/legacy/log/event_log.py
+++ b/src/python/ficus/legacy/log/event_log.py
@@ -79,10 +79,10 @@ class MyTrace(MyEventsSequence):
         self.attributes = attributes if attributes is not None else {}
 
     def __copy__(self):
-        return MyTrace(copy.copy(self.raw_events))
+        return MyTrace(copy.copy(self.raw_events), dict(self.attributes))
 
     def __deepcopy__(self, memodict={}):
-        return MyTrace(copy.deepcopy(self.raw_events))
+        return MyTrace(copy.deepcopy(self.raw_events), deep_copy_dict(self.attributes))
 
 
 class MyEventLog(Sequence):
@@ -131,11 +131,13 @@ class MyEventLog(Sequence):
                           attributes=dict(self.attributes),
                           extensions=dict(self.extensions),
                           classifiers=dict(self.classifiers),
-                          properties=dict(self.properties))
+                          properties=dict(self.properties),
+                          global_values=dict(self.global_values))
 
     def __deepcopy__(self, memodict={}):
         return MyEventLog(traces=[copy.deepcopy(trace) for trace in self.traces],
                           attributes=deep_copy_dict(self.attributes),
                           extensions=deep_copy_dict(self.extensions),
                           classifiers=deep_copy_dict(self.classifiers),
-                          properties=deep_copy_dict(self.properties))
+                          properties=deep_copy_dict(self.properties),
+                          global_values=deep_copy_dict(self.global_values))
-- 
2.43.0


From 0632f7a454acd9b687e6b9d91c26f81c60280d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:28 +0000
Subject: [PATCH 09/19] fix: high-level discovery parts pass
 should_narrow_activity on

---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index 8f51896..653bbad 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -56,7 +56,8 @@ class DiscoverActivitiesFromTandemArrays(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
@@ -91,7 +92,8 @@ class DiscoverActivitiesInstancesFromRepeats(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
-- 
2.43.0


From 1e37d3756f1436b98592fa4b8f9ecf9cd2666cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:28 +0000
Subject: [PATCH 10/19] fix: adjusting activities does not extend the
 activities list of the input in place

---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index 653bbad..3001e2d 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -129,7 +129,7 @@ class AdjustWithActivitiesFromUnattachedEvents(InternalPipelinePart):
             return PipelinePartResult().with_log(unattached_events_log)
 
         def output_merger(initial_input: PipelinePartResult, temp_output: PipelinePartResult) -> PipelinePartResult:
-            old_activities = activities(initial_input) if initial_input.has_value(activities_key) else []
+            old_activities = list(activities(initial_input)) if initial_input.has_value(activities_key) else []
             old_activities.extend(activities(temp_output))
             return initial_input.with_activities(old_activities)
 
-- 
2.43.0


From 6366e5f87af1084ebc702a16828fe41f03718b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:28 +0000
Subject: [PATCH 11/19] fix: AddAllPatterns uses its class extractor

---
 .../ficus/legacy/pipelines/analysis/patterns/patterns_parts.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
index 9930dd9..7f28787 100644
--- a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
@@ -41,7 +41,7 @@ class AddAllPatterns(InternalPipelinePart):
         self.class_extractor = class_extractor
 
     def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
-        hashed_log = _do_create_hashes_traces(log(current_input))
+        hashed_log = _do_create_hashes_traces(log(current_input), self.class_extractor)
         all_patterns = add_all_patterns(hashed_log, patterns(current_input))
 
         return current_input.with_patterns(all_patterns)
-- 
2.43.0


From 22b9218287cfd74bdd0dca40c4a980744938548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:28 +0000
Subject: [PATCH 12/19] fix: reserve the default colour of event placements

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 67be375..f6d33dc 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -304,8 +304,8 @@ def draw_placements_of_events(log: MyEventLog,
                               height_scale: int = 1,
                               plot_legend: bool = True):
     colors_provider = random_unique_color_provider_instance
-    colors_provider.used_colors.add((0, 0, 0))
     default_color = '#000000'
+    colors_provider.used_colors.add(default_color)
 
     def generate_color(name: str) -> str:
         if events_predicate(name):
-- 
2.43.0


From 55808d776da2fbbcd20399fd89bf8863012e99c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:28 +0000
Subject: [PATCH 13/19] fix: diagrams can be saved to a path without a
 directory

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 5 ++++-
 src/python/ficus/legacy/discovery/petri_net.py         | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index f6d33dc..0f345cf 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -181,7 +181,10 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
     if save_path is None:
         current_figure.show()
     else:
-        os.makedirs(os.path.dirname(save_path), exist_ok=True)
+        directory = os.path.dirname(save_path)
+        if directory != '':
+            os.makedirs(directory, exist_ok=True)
+
         current_figure.savefig(save_path, bbox_inches='tight', dpi=150)
         plt.close(current_figure)
 
diff --git a/src/python/ficus/legacy/discovery/petri_net.py b/src/python/ficus/legacy/discovery/petri_net.py
index f732f2d..fde4a55 100644
--- a/src/python/ficus/legacy/discovery/petri_net.py
+++ b/src/python/ficus/legacy/discovery/petri_net.py
@@ -69,7 +69,7 @@ def _draw_graph_like_formalism(draw_func: Callable[[graphviz.Digraph], None],
         display(g)
     else:
         dir_name = os.path.dirname(export_path)
-        if not os.path.exists(dir_name):
+        if dir_name != '' and not os.path.exists(dir_name):
             os.makedirs(dir_name, exist_ok=True)
 
         _, extension = os.path.splitext(export_path)
-- 
2.43.0


From 26d2a1c43ae967deaf629c3fff8219347bd79d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:28 +0000
Subject: [PATCH 14/19] fix: draw_traces_histogram paints on the current axes

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 0f345cf..497ad3b 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -53,7 +53,7 @@ def draw_traces_histogram(log: MyEventLog,
                           save_path: str = None,
                           title: str = None):
     hist, classes_count = _create_array_for_hist(log)
-    _do_paint_hist(plt.axis(), hist, classes_count)
+    _do_paint_hist(plt.gca(), hist, classes_count)
     plt.suptitle(title)
 
     if save_path is None:
-- 
2.43.0


From b39be55501f0e43f5d0902a26ccf30a0f56f0798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:28 +0000
Subject: [PATCH 15/19] fix: placement diagrams honour width_scale

---
 src/python/ficus/legacy/analysis/event_log_analysis.py      | 4 +++-
 .../ficus/legacy/analysis/patterns/patterns_graphs.py       | 6 ++++--
 .../ficus/legacy/pipelines/analysis/analysis_parts.py       | 1 +
 .../legacy/pipelines/analysis/patterns/patterns_parts.py    | 1 +
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 497ad3b..9695348 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -305,7 +305,8 @@ def draw_placements_of_events(log: MyEventLog,
                               title: str = None,
                               save_path: str = None,
                               height_scale: int = 1,
-                              plot_legend: bool = True):
+                              plot_legend: bool = True,
+                              width_scale: int = 1):
     colors_provider = random_unique_color_provider_instance
     default_color = '#000000'
     colors_provider.used_colors.add(default_color)
@@ -326,6 +327,7 @@ def draw_placements_of_events(log: MyEventLog,
                                         save_path=save_path,
                                         plot_legend=plot_legend,
                                         height_scale=height_scale,
+                                        width_scale=width_scale,
                                         colors_provider=generate_color)
 
 
diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index ccc894f..8360983 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -244,7 +244,8 @@ def draw_activity_placement_diagram(log: MyEventLog,
                                     plot_legend: bool = False,
                                     title: str = None,
                                     height_scale: int = 1,
-                                    save_path: str = None):
+                                    save_path: str = None,
+                                    width_scale: int = 1):
     def draw_func(ctx: TraceDiversityLikeDiagramContext):
         color_provider = random_unique_color_provider_instance if use_different_colors else SingleColorProvider()
         undefined_color = to_hex((0, 0, 0))
@@ -274,7 +275,7 @@ def draw_activity_placement_diagram(log: MyEventLog,
                     current_x += width
 
             if last_draw_index < len(trace):
-                width = len(trace) - last_draw_index
+                width = (len(trace) - last_draw_index) * ctx.rect_width
                 rect = plt.Rectangle((current_x, current_y), width, ctx.rect_height, fc=undefined_color)
                 ctx.names_to_rects[undefined_activity_name] = rect
                 patches.append(rect)
@@ -287,6 +288,7 @@ def draw_activity_placement_diagram(log: MyEventLog,
                                                  draw_func,
                                                  plot_legend=plot_legend,
                                                  height_scale=height_scale,
+                                                 width_scale=width_scale,
                                                  title=title,
                                                  save_path=save_path)
 
diff --git a/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py b/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py
index 2203601..1986391 100644
--- a/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py
@@ -103,6 +103,7 @@ class DrawPlacementOfEvents(InternalDrawingPipelinePart):
                                   title=self.title,
                                   save_path=self._get_save_path(current_input),
                                   height_scale=self.height_scale,
+                                  width_scale=self.width_scale,
                                   plot_legend=self.plot_legend)
 
         return current_input
diff --git a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
index 7f28787..124996f 100644
--- a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
@@ -362,6 +362,7 @@ class DrawSingleActivityPlacement(InternalDrawingPipelinePart):
                                         use_different_colors=self.use_different_colors,
                                         plot_legend=self.plot_legend,
                                         height_scale=self.height_scale,
+                                        width_scale=self.width_scale,
                                         title=self.title,
                                         save_path=self._get_save_path(current_input))
 
-- 
2.43.0


From 04cc743977651191eb8b418d661379acb8128d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:04 +0000
Subject: [PATCH 16/19] fix: DiscoverActivitiesUntilNoMore2 sends
 max_array_length

---
 src/python/ficus/grpc_pipelines/activities_parts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/grpc_pipelines/activities_parts.py b/src/python/ficus/grpc_pipelines/activities_parts.py
index bfcde4f..f2079ed 100644
--- a/src/python/ficus/grpc_pipelines/activities_parts.py
+++ b/src/python/ficus/grpc_pipelines/activities_parts.py
@@ -180,6 +180,7 @@ class DiscoverActivitiesUntilNoMore2(PipelinePart2):
         append_undef_activity_handling_strat(config, const_undef_activity_handling_strategy, self.undef_strategy)
         append_activity_filter_kind(config, const_activity_filter_kind, self.activity_filter_kind)
         append_bool_value(config, const_execute_only_on_last_extraction, self.execute_only_on_last_extraction)
+        append_uint32_value(config, const_tandem_array_length, self.max_array_length)
 
         if self.event_class is not None:
             append_string_value(config, const_event_class_regex, self.event_class)
-- 
2.43.0


From 1a090fc61cc47efdafa8cd55a27c7c6548637cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:08 +0000
Subject: [PATCH 17/19] fix: events, traces and logs are equal when their
 contents are, not when their hashes collide

---
 src/python/ficus/legacy/log/event_log.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/log/event_log.py b/src/python/ficus/legacy/log/event_log.py
index e7c1e9a..1eea80e 100644
--- a/src/python/ficus/legacy/log/event_log.py
+++ b/src/python/ficus/legacy/log/event_log.py
@@ -32,7 +32,7 @@ class MyEvent:
         return calculate_dict_hash(self.payload)
 
     def __eq__(self, other):
-        return hash(self) == hash(other)
+        return isinstance(other, MyEvent) and self.payload == other.payload
 
     def __copy__(self):
         return MyEvent(dict(self.payload))
@@ -67,7 +67,7 @@ class MyEventsSequence(Sequence):
         return calculate_poly_hash_for_collection(self.raw_events)
 
     def __eq__(self, other):
-        return hash(self) == hash(other)
+        return isinstance(other, MyEventsSequence) and self.raw_events == other.raw_events
 
     def __delitem__(self, key: int):
         del self.raw_events[key]
@@ -112,7 +112,12 @@ class MyEventLog(Sequence):
         return current_hash
 
     def __eq__(self, other):
-        return hash(self) == hash(other)
+        return (isinstance(other, MyEventLog) and
+                self.traces == other.traces and
+                self.attributes == other.attributes and
+                self.extensions == other.extensions and
+                self.classifiers == other.classifiers and
+                self.properties == other.properties)
 
     def __getitem__(self, item: int) -> MyTrace:
         return self.traces[item]
-- 
2.43.0


From 38539ea4f096f3c86d3640b931bf5fb53bf7de6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:15 +0000
Subject: [PATCH 18/19] fix: traces of different event names are not put into
 one variant when name hashes collide

---
 src/python/ficus/legacy/analysis/event_log_split.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_split.py b/src/python/ficus/legacy/analysis/event_log_split.py
index 5c7244a..86a6879 100644
--- a/src/python/ficus/legacy/analysis/event_log_split.py
+++ b/src/python/ficus/legacy/analysis/event_log_split.py
@@ -33,15 +33,15 @@ def split_log_by_traces(log: MyEventLog) -> list[list[MyTrace]]:
                     continue
 
                 all_groups_has_one_trace = False
-                hashes2traces = dict()
+                names2traces = dict()
                 for trace in group:
-                    hash_code = calculate_string_poly_hash(trace[index][concept_name])
-                    if hash_code in hashes2traces:
-                        hashes2traces[hash_code].append(trace)
+                    name = trace[index][concept_name]
+                    if name in names2traces:
+                        names2traces[name].append(trace)
                     else:
-                        hashes2traces[hash_code] = [trace]
+                        names2traces[name] = [trace]
 
-                for _, new_group in hashes2traces.items():
+                for _, new_group in names2traces.items():
                     new_groups.append(new_group)
 
             if all_groups_has_one_trace:
-- 
2.43.0


From a1c723f3e782ce3ae0bcdd3ca678034f5db56ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:45 +0000
Subject: [PATCH 19/19] fix: draw the histogram of a single log

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 9695348..038f676 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -80,7 +80,7 @@ def plot_logs_traces_histograms(logs: List[MyEventLog],
     side_length = int(math.ceil(math.sqrt(len(logs))))
     log_index = 0
 
-    current_figure, ax = plt.subplots(side_length, side_length, figsize=(12, 12))
+    current_figure, ax = plt.subplots(side_length, side_length, figsize=(12, 12), squeeze=False)
 
     for row in range(side_length):
         for col in range(side_length):
-- 
2.43.0

