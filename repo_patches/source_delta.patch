From a58248af5ddb39df090cc04471dc6d5bb4316945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:49 +0000
Subject: [PATCH 01/59] fix: parse XES boolean values instead of treating any
 non-empty text as true

---
 src/python/ficus/legacy/log/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 9b7ba89..33863db 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -124,12 +124,16 @@ def _parse_datetime(value: str):
     return parser.parse(value)
 
 
+def _parse_bool(value: str):
+    return value.strip().lower() in ('true', '1')
+
+
 parse_functions = {
     const_tag_string: str,
     const_tag_date: _parse_datetime,
     const_tag_int: int,
     const_tag_float: float,
-    const_tag_bool: bool
+    const_tag_bool: _parse_bool
 }
 
 
-- 
2.43.0


From d1cc53ff09d342e179e12ae956fa6b856ed07352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:49 +0000
Subject: [PATCH 02/59] fix: write XES log properties as typed key/value tags
 so that they can be read back

---
 src/python/ficus/legacy/log/functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 33863db..900495c 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -237,9 +237,7 @@ def serialize_log_to_xes(log: MyEventLog) -> str:
         log_element.append(classifier_element)
 
     for key, value in log.properties.items():
-        property_element = ET.Element(const_tag_string)
-        property_element.attrib[key] = value
-        log_element.append(property_element)
+        log_element.append(_create_value_tag(key, value))
 
     for scope_name, scope_default_values in log.global_values.items():
         global_scope_element = ET.Element(const_tag_global)
-- 
2.43.0


From 9f85e79095792e186dd15482f067bb30e15a07f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:49 +0000
Subject: [PATCH 03/59] fix: save XES logs as UTF-8 and accept file names
 without a directory

---
 src/python/ficus/legacy/log/functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 900495c..b170f0f 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -296,8 +296,11 @@ def _check_if_default_value(log: MyEventLog,
 
 def save_event_log_to_xes(log: MyEventLog, save_path: str):
     log_xes_string = serialize_log_to_xes(log)
-    os.makedirs(os.path.dirname(save_path), exist_ok=True)
-    with open(save_path, 'w') as fout:
+    directory = os.path.dirname(save_path)
+    if directory:
+        os.makedirs(directory, exist_ok=True)
+
+    with open(save_path, 'w', encoding='utf-8') as fout:
         fout.write(log_xes_string)
 
 
-- 
2.43.0


From a16220b5de2c4f6b9073e33b37369dd0038bead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:49 +0000
Subject: [PATCH 04/59] fix: keep the types of XES global values and never drop
 a value that only looks like the default

---
 src/python/ficus/legacy/log/functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index b170f0f..cee0814 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -81,7 +81,8 @@ def read_log_from_xes(path: str) -> MyEventLog:
 
             for global_child in child:
                 attrs = global_child.attrib
-                log.global_values[scope][attrs[const_attr_key]] = attrs[const_attr_value]
+                value = _parse_value_tag(global_child) if _is_value_tag(global_child) else attrs[const_attr_value]
+                log.global_values[scope][attrs[const_attr_key]] = value
 
             continue
 
@@ -291,7 +292,8 @@ def _check_if_default_value(log: MyEventLog,
     if key not in defaults[entity_name]:
         return False
 
-    return defaults[entity_name][key] == value
+    default_value = defaults[entity_name][key]
+    return type(default_value) is type(value) and default_value == value
 
 
 def save_event_log_to_xes(log: MyEventLog, save_path: str):
-- 
2.43.0


From 005e59c752c51711596b78b9b6ed0eb540d5f4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:13 +0000
Subject: [PATCH 05/59] fix: keep trace attributes and log global values when a
 log is copied

---
 src/python/ficus/legacy/log/event_log.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/log/event_log.py b/src/python/ficus/legacy/log/event_log.py
index 574d755..e7c1e9a 100644
--- a/src/python/ficus/legacy/log/event_log.py
+++ b/src/python/ficus/legacy/log/event_log.py
@@ -79,10 +79,10 @@ class MyTrace(MyEventsSequence):
         self.attributes = attributes if attributes is not None else {}
 
     def __copy__(self):
-        return MyTrace(copy.copy(self.raw_events))
+        return MyTrace(copy.copy(self.raw_events), dict(self.attributes))
 
     def __deepcopy__(self, memodict={}):
-        return MyTrace(copy.deepcopy(self.raw_events))
+        return MyTrace(copy.deepcopy(self.raw_events), deep_copy_dict(self.attributes))
 
 
 class MyEventLog(Sequence):
@@ -131,11 +131,13 @@ class MyEventLog(Sequence):
                           attributes=dict(self.attributes),
                           extensions=dict(self.extensions),
                           classifiers=dict(self.classifiers),
-                          properties=dict(self.properties))
+                          properties=dict(self.properties),
+                          global_values=dict(self.global_values))
 
     def __deepcopy__(self, memodict={}):
         return MyEventLog(traces=[copy.deepcopy(trace) for trace in self.traces],
                           attributes=deep_copy_dict(self.attributes),
                           extensions=deep_copy_dict(self.extensions),
                           classifiers=deep_copy_dict(self.classifiers),
-                          properties=deep_copy_dict(self.properties))
+                          properties=deep_copy_dict(self.properties),
+                          global_values=deep_copy_dict(self.global_values))
-- 
2.43.0


From a67033f1ba3062df02e4658345b4e4a176e1db86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:13 +0000
Subject: [PATCH 06/59] fix: use a wide modulus and base for polynomial hashes,
 short event names collided

---
 src/python/ficus/legacy/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index 5cb0bda..79b4939 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -3,8 +3,8 @@ import random
 import time
 from typing import Any, Hashable, Callable
 
-mod = 10 ** 9 + 7
-p = 31
+mod = 2 ** 61 - 1
+p = 1152921504606846883
 concept_name = 'concept:name'
 time_timestamp = 'time:timestamp'
 lifecycle_transition = 'lifecycle:transition'
-- 
2.43.0


From 3560bdaf9e4ec2a3c93969a09127032e1bb6ade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:13 +0000
Subject: [PATCH 07/59] fix: separate key and value when hashing a dictionary

---
 src/python/ficus/legacy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index 79b4939..9b540c3 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -41,7 +41,7 @@ def calculate_poly_hash_for_collection(collection: list[Hashable],
 
 
 def calculate_dict_hash(current_map: dict[Any, Any]) -> int:
-    sorted_joined_pairs = list(sorted(map(lambda x: str(x[0]) + str(x[1]), current_map.items())))
+    sorted_joined_pairs = list(sorted(map(lambda x: str(x[0]) + '\0' + str(x[1]), current_map.items())))
     return calculate_poly_hash_for_collection(list(map(calculate_string_poly_hash, sorted_joined_pairs)))
 
 
-- 
2.43.0


From a043f33abe4c4cfbcd9f21b8dab5d61b92ca29ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:38 +0000
Subject: [PATCH 08/59] fix: entropy filters stop when there is no event left
 that may be removed

---
 .../ficus/legacy/filtering/event_log_filters.py    | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/python/ficus/legacy/filtering/event_log_filters.py b/src/python/ficus/legacy/filtering/event_log_filters.py
index da52672..bdf459c 100644
--- a/src/python/ficus/legacy/filtering/event_log_filters.py
+++ b/src/python/ficus/legacy/filtering/event_log_filters.py
@@ -47,6 +47,9 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
 
         min_event_name, min_sum_entropy = next_removal_default_entropy_indirect(log, laplace, top_percent,
                                                                                 untouchable_event_func)
+        if min_event_name is None:
+            return log
+
         print(f'Removing {min_event_name} with entropy {min_sum_entropy}')
         log = remove_event_from_log(log, min_event_name)
 
@@ -58,6 +61,9 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
 def _determine_next_event_to_remove_direct(log: MyEventLog,
                                            metric_func: Callable[[MyEventLog], dict[str, float]]) -> (str, float):
     metrics_for_events = metric_func(log)
+    if len(metrics_for_events) == 0:
+        return None, 0
+
     event_name = max(metrics_for_events, key=metrics_for_events.get)
     return event_name, metrics_for_events[event_name]
 
@@ -72,6 +78,8 @@ def _do_filter_by_metric_direct(log: MyEventLog,
             return log
 
         event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
+        if event_name is None:
+            return log
 
         if metric > threshold:
             print(f'Removing {event_name} with metric {metric}')
@@ -98,6 +106,8 @@ def _do_filter_by_metric_direct_till_end(log: MyEventLog,
 
         metric_before_removal = sum(metric_func(log).values())
         event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
+        if event_name is None:
+            break
 
         if metric_kind == TillEndFilteringMetricKind.BeforeOnly:
             removals.append((event_name, metric_before_removal))
@@ -200,6 +210,8 @@ def filter_events_pos_entropy_indirect(log: MyEventLog,
 
         min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(log, trace_counts, info, positions,
                                                                              untouchable_event_func)
+        if min_event_name is None:
+            return log
 
         print(f'Removing event {min_event_name} with resulting log entropy {min_entropy}')
         log = remove_event_from_log(log, min_event_name)
@@ -223,6 +235,8 @@ def filter_events_pos_entropy_indirect_till_end(log: MyEventLog,
         pos_entropy_before_removal = calculate_position_entropies_fast_sum(log, positions=positions)
         min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(log, trace_counts, info, positions,
                                                                              untouchable_event_func)
+        if min_event_name is None:
+            break
 
         print(f'Removing event {min_event_name} with resulting log entropy {min_entropy}')
         if metric_kind == TillEndFilteringMetricKind.BeforeOnly:
-- 
2.43.0


From 141afe88f1c3773815edc6aae04f2f6473cc0ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 09/59] fix: honour should_narrow_activity in activities
 discovery from tandem arrays and repeats

---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index 8f51896..653bbad 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -56,7 +56,8 @@ class DiscoverActivitiesFromTandemArrays(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
@@ -91,7 +92,8 @@ class DiscoverActivitiesInstancesFromRepeats(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
-- 
2.43.0


From 236e2035bc25b1386e4a0a9adc3db0d15fe096d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 10/59] fix: adjusting activities does not change the
 activities list of other contexts

---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index 653bbad..bc721dc 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -130,8 +130,7 @@ class AdjustWithActivitiesFromUnattachedEvents(InternalPipelinePart):
 
         def output_merger(initial_input: PipelinePartResult, temp_output: PipelinePartResult) -> PipelinePartResult:
             old_activities = activities(initial_input) if initial_input.has_value(activities_key) else []
-            old_activities.extend(activities(temp_output))
-            return initial_input.with_activities(old_activities)
+            return initial_input.with_activities(old_activities + activities(temp_output))
 
         if not current_input.has_value(traces_activities_key):
             current_input = current_input.with_trace_activities([[] for _ in log(current_input)])
-- 
2.43.0


From ca468a5012dffbbc8921bb41cb4d3978bd9236f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 11/59] fix: draw traces histograms on real axes, also for a
 single log

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 67be375..577f0f4 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -53,7 +53,7 @@ def draw_traces_histogram(log: MyEventLog,
                           save_path: str = None,
                           title: str = None):
     hist, classes_count = _create_array_for_hist(log)
-    _do_paint_hist(plt.axis(), hist, classes_count)
+    _do_paint_hist(plt.gca(), hist, classes_count)
     plt.suptitle(title)
 
     if save_path is None:
@@ -80,7 +80,7 @@ def plot_logs_traces_histograms(logs: List[MyEventLog],
     side_length = int(math.ceil(math.sqrt(len(logs))))
     log_index = 0
 
-    current_figure, ax = plt.subplots(side_length, side_length, figsize=(12, 12))
+    current_figure, ax = plt.subplots(side_length, side_length, figsize=(12, 12), squeeze=False)
 
     for row in range(side_length):
         for col in range(side_length):
-- 
2.43.0


From 52652864afc52c3a6cdea3ac20c0c5081ac4dadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:32 +0000
Subject: [PATCH 12/59] fix: diagrams can be saved to a file name without a
 directory

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 5 ++++-
 src/python/ficus/legacy/discovery/petri_net.py         | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 577f0f4..fa9bf8f 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -181,7 +181,10 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
     if save_path is None:
         current_figure.show()
     else:
-        os.makedirs(os.path.dirname(save_path), exist_ok=True)
+        directory = os.path.dirname(save_path)
+        if directory != '':
+            os.makedirs(directory, exist_ok=True)
+
         current_figure.savefig(save_path, bbox_inches='tight', dpi=150)
         plt.close(current_figure)
 
diff --git a/src/python/ficus/legacy/discovery/petri_net.py b/src/python/ficus/legacy/discovery/petri_net.py
index f732f2d..fde4a55 100644
--- a/src/python/ficus/legacy/discovery/petri_net.py
+++ b/src/python/ficus/legacy/discovery/petri_net.py
@@ -69,7 +69,7 @@ def _draw_graph_like_formalism(draw_func: Callable[[graphviz.Digraph], None],
         display(g)
     else:
         dir_name = os.path.dirname(export_path)
-        if not os.path.exists(dir_name):
+        if dir_name != '' and not os.path.exists(dir_name):
             os.makedirs(dir_name, exist_ok=True)
 
         _, extension = os.path.splitext(export_path)
-- 
2.43.0


From 02afca72911e58830c581a182964913118b113aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:14 +0000
Subject: [PATCH 13/59] fix: make the part that prints event log info before
 and after a pipeline work

---
 src/python/ficus/grpc_pipelines/util_parts.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/util_parts.py b/src/python/ficus/grpc_pipelines/util_parts.py
index f90addb..c53bac7 100644
--- a/src/python/ficus/grpc_pipelines/util_parts.py
+++ b/src/python/ficus/grpc_pipelines/util_parts.py
@@ -1,5 +1,5 @@
 from .constants import const_use_names_event_log, const_names_event_log, const_get_names_event_log, \
-    const_pipeline
+    const_pipeline, const_execute_frontend_part
 from .grpc_pipelines import PipelinePart2, _create_default_pipeline_part, PipelinePart2WithCallback, \
     _create_complex_get_context_part, Pipeline2, append_pipeline_value, PrintEventLogInfo2
 from .models.pipelines_and_context_pb2 import GrpcPipelinePartBase, GrpcPipelinePartConfiguration, \
@@ -26,19 +26,28 @@ class PrintEventlogInfoBeforeAfter(PipelinePart2):
     def __init__(self, inner_pipeline: Pipeline2):
         super().__init__()
         self.inner_pipeline = inner_pipeline
+        self.before_part = PrintEventLogInfo2()
+        self.after_part = PrintEventLogInfo2()
 
     def to_grpc_part(self) -> GrpcPipelinePartBase:
         config = GrpcPipelinePartConfiguration()
 
         pipeline = Pipeline2(
-            PrintEventLogInfo2(),
+            self.before_part,
         )
 
         for part in self.inner_pipeline.parts:
             pipeline.parts.append(part)
 
-        pipeline.parts.append(PrintEventLogInfo2())
+        pipeline.parts.append(self.after_part)
 
         append_pipeline_value(config, const_pipeline, pipeline)
 
-        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part())
+        default_part = _create_default_pipeline_part(const_execute_frontend_part, config)
+        return GrpcPipelinePartBase(defaultPart=default_part)
+
+    def append_parts_with_callbacks(self, parts: list['PipelinePart2WithCallback']):
+        super().append_parts_with_callbacks(parts)
+        self.before_part.append_parts_with_callbacks(parts)
+        self.inner_pipeline.append_parts_with_callbacks(parts)
+        self.after_part.append_parts_with_callbacks(parts)
-- 
2.43.0


From 43a460c2688c4f45294d54573af44a96483b3410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:14 +0000
Subject: [PATCH 14/59] fix: event log info converts to a context value

---
 src/python/ficus/grpc_pipelines/context_values.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/context_values.py b/src/python/ficus/grpc_pipelines/context_values.py
index 7961876..440582a 100644
--- a/src/python/ficus/grpc_pipelines/context_values.py
+++ b/src/python/ficus/grpc_pipelines/context_values.py
@@ -120,9 +120,11 @@ class EventLogInfo(ContextValue):
     traces_count: int
 
     def to_grpc_context_value(self) -> GrpcContextValue:
-        return GrpcEventLogInfo(events_count=self.events_count,
-                                traces_count=self.traces_count,
-                                event_classes_count=self.event_classes_count)
+        log_info = GrpcEventLogInfo(events_count=self.events_count,
+                                    traces_count=self.traces_count,
+                                    event_classes_count=self.event_classes_count)
+
+        return GrpcContextValue(event_log_info=log_info)
 
 
 def from_grpc_colors_log(grpc_colors_log: GrpcColorsEventLog) -> list[list[ColoredRectangle]]:
-- 
2.43.0


From 8fd4ee4ca625f4418b3bdad6c958a589570a7787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:14 +0000
Subject: [PATCH 15/59] fix: pipeline execution leaves the caller's initial
 context unchanged

---
 src/python/ficus/grpc_pipelines/grpc_pipelines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/grpc_pipelines/grpc_pipelines.py b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
index 1b267ca..2582b15 100644
--- a/src/python/ficus/grpc_pipelines/grpc_pipelines.py
+++ b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
@@ -28,6 +28,7 @@ class Pipeline2:
         options = [('grpc.max_send_message_length', 512 * 1024 * 1024),
                    ('grpc.max_receive_message_length', 512 * 1024 * 1024)]
 
+        initial_context = dict(initial_context)
         addr = initial_context[ficus_backend_addr_key] if ficus_backend_addr_key in initial_context else 'localhost:8080'
         if ficus_backend_addr_key in initial_context:
             del initial_context[ficus_backend_addr_key]
-- 
2.43.0


From 1cb068d2f56c085f32314beb98881141a08a23d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:14 +0000
Subject: [PATCH 16/59] fix: send the maximal tandem array length when
 activities are discovered until no more

---
 src/python/ficus/grpc_pipelines/activities_parts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/grpc_pipelines/activities_parts.py b/src/python/ficus/grpc_pipelines/activities_parts.py
index bfcde4f..f2079ed 100644
--- a/src/python/ficus/grpc_pipelines/activities_parts.py
+++ b/src/python/ficus/grpc_pipelines/activities_parts.py
@@ -180,6 +180,7 @@ class DiscoverActivitiesUntilNoMore2(PipelinePart2):
         append_undef_activity_handling_strat(config, const_undef_activity_handling_strategy, self.undef_strategy)
         append_activity_filter_kind(config, const_activity_filter_kind, self.activity_filter_kind)
         append_bool_value(config, const_execute_only_on_last_extraction, self.execute_only_on_last_extraction)
+        append_uint32_value(config, const_tandem_array_length, self.max_array_length)
 
         if self.event_class is not None:
             append_string_value(config, const_event_class_regex, self.event_class)
-- 
2.43.0


From db56c08586f446f6aede2b35f08b799d35cde47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:14 +0000
Subject: [PATCH 17/59] fix: hash collection items non-linearly, different
 nested contents cancelled out

---
 src/python/ficus/legacy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index 9b540c3..7f753cd 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -34,7 +34,7 @@ def calculate_poly_hash_for_collection(collection: list[Hashable],
     hash_so_far = 1
     p_pow = 1
     for i in range(start_index, end_index):
-        hash_so_far = (hash_so_far + (1 + hash(collection[i])) * p_pow) % mod
+        hash_so_far = (hash_so_far + (1 + hash((collection[i],))) * p_pow) % mod
         p_pow = (p_pow * p) % mod
 
     return hash_so_far
-- 
2.43.0


From b783c73c3174b382562f200bb27776db0d3e0007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:18 +0000
Subject: [PATCH 18/59] fix: use a base without small linear relations for
 polynomial hashes

---
 src/python/ficus/legacy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index 7f753cd..bbc90a0 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -4,7 +4,7 @@ import time
 from typing import Any, Hashable, Callable
 
 mod = 2 ** 61 - 1
-p = 1152921504606846883
+p = 1933311282252401803
 concept_name = 'concept:name'
 time_timestamp = 'time:timestamp'
 lifecycle_transition = 'lifecycle:transition'
-- 
2.43.0


From 233a9bf4a87b0d43e6649adfecc2c42158b4ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:38 +0000
Subject: [PATCH 19/59] fix: edges of activity graphs connect nodes whose names
 contain a colon

---
 .../ficus/legacy/analysis/patterns/patterns_graphs.py  | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index ccc894f..a6a02d6 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -5,6 +5,7 @@ import graphviz
 from IPython.core.display import Image
 from IPython.core.display_functions import display
 from attr import dataclass
+from graphviz.quoting import quote
 from matplotlib import pyplot as plt
 from matplotlib.collections import PatchCollection
 
@@ -204,6 +205,11 @@ def _do_draw_graph(graph: graphviz.Digraph, save_path: Optional[str] = None):
         display(image)
 
 
+def _add_edge(graph: graphviz.Digraph, tail_name: str, head_name: str):
+    # Digraph.edge treats everything after ':' in a node name as a port, names of activities contain '::'
+    graph.body.append(f'\t{quote(tail_name)} -> {quote(head_name)}\n')
+
+
 def build_graph(nodes: list[GraphNode],
                 graph_name: str,
                 add_root_node: bool = True,
@@ -216,14 +222,14 @@ def build_graph(nodes: list[GraphNode],
         name = node_name_creator(node)
         if name in added_names:
             if parent_node is not None:
-                current_graph.edge(name, parent_node)
+                _add_edge(current_graph, name, parent_node)
 
             return
 
         added_names.add(name)
 
         if parent_node is not None:
-            current_graph.edge(name, parent_node)
+            _add_edge(current_graph, name, parent_node)
 
         current_graph.node(name)
         for child_activity in node.child_nodes:
-- 
2.43.0


From 225a0496ec4b171bebd87d8ac8230005bc284841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:05 +0000
Subject: [PATCH 20/59] fix: graphs keep the children of nodes whose name was
 already added

---
 .../legacy/analysis/patterns/patterns_graphs.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index a6a02d6..f110829 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -217,21 +217,18 @@ def build_graph(nodes: list[GraphNode],
                 set_attributes_to_func: Callable[[graphviz.Digraph], None] = default_graph_attr_setter):
     graph = graphviz.Digraph(graph_name)
     added_names = set()
+    added_edges = set()
 
     def add_node(current_graph: graphviz.Digraph, parent_node: str, node: GraphNode):
         name = node_name_creator(node)
-        if name in added_names:
-            if parent_node is not None:
-                _add_edge(current_graph, name, parent_node)
-
-            return
-
-        added_names.add(name)
-
-        if parent_node is not None:
+        if parent_node is not None and (name, parent_node) not in added_edges:
+            added_edges.add((name, parent_node))
             _add_edge(current_graph, name, parent_node)
 
-        current_graph.node(name)
+        if name not in added_names:
+            added_names.add(name)
+            current_graph.node(name)
+
         for child_activity in node.child_nodes:
             add_node(current_graph, name, child_activity)
 
-- 
2.43.0


From 089231fafa12eac1648775c3af41d7a9c58de61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:21 +0000
Subject: [PATCH 21/59] fix: never highlight an event in the colour of the
 events that are not highlighted

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index fa9bf8f..934eb64 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -307,8 +307,8 @@ def draw_placements_of_events(log: MyEventLog,
                               height_scale: int = 1,
                               plot_legend: bool = True):
     colors_provider = random_unique_color_provider_instance
-    colors_provider.used_colors.add((0, 0, 0))
     default_color = '#000000'
+    colors_provider.used_colors.add(default_color)
 
     def generate_color(name: str) -> str:
         if events_predicate(name):
-- 
2.43.0


From 70e72edbc1f93d6a2fbb5153f5cffec211b9881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:25 +0000
Subject: [PATCH 22/59] fix: never draw an activity in the colour of undefined
 activities

---
 src/python/ficus/legacy/analysis/patterns/patterns_graphs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index f110829..137769f 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -87,13 +87,15 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
                           activities: list[list[SubTraceDrawingDto]],
                           draw_short_diagram: bool):
     real_colors_provider = random_unique_color_provider_instance
+    undefined_color = to_hex((0, 0, 0))
+    real_colors_provider.used_colors.add(undefined_color)
 
     def colors_provider(name: str):
         if name in cached_colors:
             return cached_colors[name]
 
         if name == undefined_activity:
-            return to_hex((0, 0, 0))
+            return undefined_color
 
         generated_color = real_colors_provider.next()
         cached_colors[name] = generated_color
-- 
2.43.0


From 6e5918f0253b78f1a5503f75bc95ca83b99faae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:34 +0000
Subject: [PATCH 23/59] fix: report a tandem array whose unit occurs earlier in
 the trace without being repeated

---
 .../src/features/analysis/patterns/tandem_arrays.rs             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs b/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs
index bc3efaf..d1d25d7 100644
--- a/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs
+++ b/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs
@@ -111,8 +111,8 @@ pub fn find_maximal_tandem_arrays_with_length(
                     continue;
                 }
 
-                visited.insert(sub_array_hash);
                 if let Some(tandem_array) = try_extract_tandem_array(trace, i, length) {
+                    visited.insert(sub_array_hash);
                     trace_tandem_arrays.push(tandem_array);
                 }
             }
-- 
2.43.0


From 9b1b49540cb11f7269d256d187e2ba5030b85410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:43 +0000
Subject: [PATCH 24/59] fix: forget cached event counts and positions of a
 trace when its events change

---
 .../src/event_log/core/event/events_holder.rs            | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs b/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs
index 59ac297..a354aba 100644
--- a/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs
+++ b/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs
@@ -59,6 +59,7 @@ where
     }
 
     pub fn push(&mut self, event: Rc<RefCell<TEvent>>) {
+        self.reset_caches();
         self.events.push(event);
     }
 
@@ -66,6 +67,7 @@ where
     where
         TPred: Fn(&TEvent) -> bool,
     {
+        self.reset_caches();
         let events = &mut self.events;
         for index in (0..events.len()).rev() {
             if predicate(&events[index].borrow()) {
@@ -87,6 +89,7 @@ where
     where
         TMutator: Fn(&mut TEvent),
     {
+        self.reset_caches();
         for event in &self.events {
             mutator(&mut event.borrow_mut());
         }
@@ -109,8 +112,14 @@ where
     }
 
     pub fn events_mut(&mut self) -> &mut Vec<Rc<RefCell<TEvent>>> {
+        self.reset_caches();
         &mut self.events
     }
+
+    fn reset_caches(&mut self) {
+        self.events_sequence_info = LazyCell::new();
+        self.events_positions = LazyCell::new();
+    }
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 19514ffb286e51a04527c9649e7f7d2d9a8aef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:10 +0000
Subject: [PATCH 25/59] fix: take start and end classes of a log without its
 ignored events (alpha+ panicked when a trace starts or ends with a one-length
 loop)

---
 .../src/features/analysis/event_log_info.rs        | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/analysis/event_log_info.rs b/src/rust/ficus_backend/src/features/analysis/event_log_info.rs
index 001977d..9d231ad 100644
--- a/src/rust/ficus_backend/src/features/analysis/event_log_info.rs
+++ b/src/rust/ficus_backend/src/features/analysis/event_log_info.rs
@@ -100,11 +100,6 @@ impl EventLogInfo {
             events_count += events.len();
             let mut prev_event_name = None;
 
-            if events.len() > 0 {
-                start_event_classes.insert(events.first().unwrap().borrow().name().to_owned());
-                end_event_classes.insert(events.last().unwrap().borrow().name().to_owned());
-            }
-
             for event in events {
                 let event = event.borrow();
                 let current_name = event.name().to_owned();
@@ -119,6 +114,7 @@ impl EventLogInfo {
 
                 if prev_event_name.is_none() {
                     prev_event_name = Some(current_name.to_owned());
+                    start_event_classes.insert(current_name.to_owned());
                     if add_fake_start_end_events {
                         update_pairs_count(&FAKE_EVENT_START_NAME.to_string(), &current_name);
                     }
@@ -131,8 +127,12 @@ impl EventLogInfo {
                 prev_event_name = Some(event.name().to_owned());
             }
 
-            if add_fake_start_end_events && prev_event_name.is_some() {
-                update_pairs_count(&prev_event_name.unwrap(), &FAKE_EVENT_END_NAME.to_string());
+            if let Some(last_event_name) = prev_event_name {
+                if add_fake_start_end_events {
+                    update_pairs_count(&last_event_name, &FAKE_EVENT_END_NAME.to_string());
+                }
+
+                end_event_classes.insert(last_event_name);
             }
         }
 
-- 
2.43.0


From 99df3b074e269afb304f52ba1dc91e8f6298652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:10 +0000
Subject: [PATCH 26/59] fix: alpha+ relations of logs with traces of less than
 three events

---
 src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs    | 2 +-
 .../features/discovery/alpha/providers/alpha_plus_provider.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
index d3b2c2b..a77c5fe 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
@@ -124,7 +124,7 @@ pub fn find_transitions_one_length_loop(log: &impl EventLog) -> HashSet<String>
     for trace in log.traces() {
         let trace = trace.borrow();
         let events = trace.events();
-        for i in 0..(events.len() - 1) {
+        for i in 0..events.len().saturating_sub(1) {
             if events[i].borrow().name() == events[i + 1].borrow().name() {
                 one_loop_transitions.insert(events[i].borrow().name().to_owned());
             }
diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs b/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs
index 2e0f7ba..a77e5cc 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs
@@ -40,7 +40,7 @@ pub fn calculate_triangle_relations(log: &impl EventLog) -> HashMap<(String, Str
         let trace = trace.borrow();
         let events = trace.events();
 
-        for index in 0..(events.len() - 2) {
+        for index in 0..events.len().saturating_sub(2) {
             if events[index].borrow().name() == events[index + 2].borrow().name() {
                 let pair = (
                     events[index].borrow().name().to_owned(),
-- 
2.43.0


From 7c5ceba6eae2ff7ca012b2e75904e24e1198d813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:10 +0000
Subject: [PATCH 27/59] fix: alpha++ does not depend on a place having been
 created before

---
 src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
index a77c5fe..bd32729 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
@@ -76,7 +76,7 @@ fn add_one_length_loops(log: &impl EventLog, one_length_loop_transitions: &HashS
 }
 
 fn add_alpha_plus_plus_transitions(log: &impl EventLog, one_length_loop_transitions: &HashSet<String>, petri_net: &mut DefaultPetriNet) {
-    let key = Lazy::get(&ALPHA_SET).unwrap();
+    let key = Lazy::force(&ALPHA_SET);
     let mut transitions_connections = HashSet::new();
     let mut places_connections = HashSet::new();
 
-- 
2.43.0


From af63827e936b0b9c375b47c2bbab59e11d6b6250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:46 +0000
Subject: [PATCH 28/59] fix: alpha++ nfc does not hang when the relation of its
 second reduction rule has a cycle

---
 .../alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc.rs         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc.rs b/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc.rs
index 34a7038..5ee6d69 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc.rs
@@ -260,6 +260,7 @@ fn construct_w3_transitive_closure_cache<'a>(w3_relations: &'a HashSet<(&'a Stri
 
             let mut is_in_closure = false;
             let mut q = VecDeque::new();
+            let mut visited = HashSet::new();
             q.push_back(first_class);
 
             'q_loop: while !q.is_empty() {
@@ -270,7 +271,9 @@ fn construct_w3_transitive_closure_cache<'a>(w3_relations: &'a HashSet<(&'a Stri
                         break 'q_loop;
                     } else {
                         for child in children {
-                            q.push_back(child);
+                            if visited.insert(child) {
+                                q.push_back(child);
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 4ff783e4d45faf16c2cc0737358b2169c3998499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 29/59] fix: replay fires a transition only when its places
 hold enough tokens for all of its arcs

---
 .../features/discovery/petri_net/replay.rs    | 22 +++++++------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs b/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
index c113570..556da99 100644
--- a/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
+++ b/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
@@ -41,25 +41,19 @@ impl ReplayState {
         let mut new_states = vec![];
         for candidate_transition in candidates {
             let mut can_fire = true;
+            let mut new_markings = state.markings.clone();
             for arc in candidate_transition.incoming_arcs() {
-                if !state.markings.contains_key(&arc.place_id()) {
-                    can_fire = false;
-                    break;
+                match new_markings.get_mut(&arc.place_id()) {
+                    Some(count) if *count >= *arc.tokens_count() => *count -= *arc.tokens_count(),
+                    _ => {
+                        can_fire = false;
+                        break;
+                    }
                 }
             }
 
             if can_fire {
-                let mut new_markings = state.markings.clone();
-                for arc in candidate_transition.incoming_arcs() {
-                    let place_id = &arc.place_id();
-                    let count = new_markings[place_id];
-                    let new_count = count - arc.tokens_count();
-                    if new_count <= 0 {
-                        new_markings.remove(place_id);
-                    } else {
-                        *new_markings.get_mut(place_id).unwrap() = new_count;
-                    }
-                }
+                new_markings.retain(|_, count| *count > 0);
 
                 for arc in candidate_transition.outgoing_arcs() {
                     let place_id = &arc.place_id();
-- 
2.43.0


From 131d5c8195e02fd334354123958f17aac0d707f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:10 +0000
Subject: [PATCH 30/59] fix: replay terminates when silent transitions form a
 cycle

---
 .../src/features/discovery/petri_net/replay.rs           | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs b/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
index 556da99..a49aad3 100644
--- a/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
+++ b/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
 
 use crate::event_log::core::{event::event::Event, event_log::EventLog, trace::trace::Trace};
 
@@ -103,6 +103,7 @@ pub fn replay_petri_net(log: &impl EventLog, net: &DefaultPetriNet) -> Option<Ve
 
         let trace = trace.borrow();
         let mut stack = VecDeque::new();
+        let mut visited: HashSet<(usize, BTreeMap<u64, usize>)> = HashSet::new();
         stack.push_back((0usize, ReplayState::new(marking)));
 
         loop {
@@ -118,6 +119,12 @@ pub fn replay_petri_net(log: &impl EventLog, net: &DefaultPetriNet) -> Option<Ve
                 break;
             }
 
+            //silent transitions can lead to a state, which was already explored
+            let markings = current_state.1.markings.iter().map(|(id, count)| (*id, *count)).collect();
+            if !visited.insert((current_state.0, markings)) {
+                continue;
+            }
+
             let transition = trace.events().get(current_state.0).unwrap();
             let new_states = ReplayState::handle_transition(&current_state.1, net, transition.borrow().name());
 
-- 
2.43.0


From a0e423cab68d8e9bee98f5760ba2a1cec39e11de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:17 +0000
Subject: [PATCH 31/59] fix: ensure_initial_marking accepts logs with empty
 traces

---
 .../ficus_backend/src/features/discovery/petri_net/marking.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs b/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs
index b268abe..9df2896 100644
--- a/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs
+++ b/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs
@@ -47,6 +47,10 @@ pub fn ensure_initial_marking(log: &impl EventLog, petri_net: &mut DefaultPetriN
     for trace in log.traces() {
         let trace = trace.borrow();
         let events = trace.events();
+        if events.is_empty() {
+            continue;
+        }
+
         let first_event = events.first().unwrap().borrow();
         let start_transition = first_event.name();
 
-- 
2.43.0


From 6dae5fba93ae12f9ed37d77bf9b77ab2c609b768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 32/59] fix: reading a truncated XES file terminates

---
 .../src/event_log/xes/reader/file_xes_log_reader.rs            | 1 +
 .../src/event_log/xes/reader/xes_log_trace_reader.rs           | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
index 88acfbe..932674d 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
@@ -159,6 +159,7 @@ impl FromFileXesEventLogReader {
 
         loop {
             match reader.read_event_into(storage) {
+                Ok(quick_xml::events::Event::Eof) => return None,
                 Err(_) => return None,
                 Ok(quick_xml::events::Event::Empty(tag)) => {
                     if let Some(descriptor) = utils::read_payload_like_tag(&tag) {
diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
index f0ec9e0..69f704e 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
@@ -32,6 +32,7 @@ impl Iterator for TraceXesEventLogIterator {
                     TRACE_TAG_NAME => return None,
                     _ => continue,
                 },
+                Ok(quick_xml::events::Event::Eof) => return None,
                 Err(_) => return None,
                 _ => continue,
             }
@@ -84,6 +85,8 @@ impl TraceXesEventLogIterator {
                     }
                     None => continue,
                 },
+                Ok(quick_xml::events::Event::Eof) => return None,
+                Err(_) => return None,
                 _ => continue,
             }
         }
-- 
2.43.0


From 7e030ff335b637519785ad41448643256a305624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:02 +0000
Subject: [PATCH 33/59] fix: an unknown entity in a XES attribute does not stop
 the backend

---
 src/rust/ficus_backend/src/event_log/xes/reader/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
index 4c39ef4..0e2f0f3 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
@@ -26,8 +26,8 @@ pub fn read_payload_like_tag(tag: &BytesStart) -> Option<PayloadTagDescriptor> {
         return None;
     }
 
-    let key = unescape(kv.key.as_ref().unwrap()).ok().unwrap().to_string();
-    let value = unescape(kv.value.as_ref().unwrap()).ok().unwrap().to_string();
+    let key = unescape(kv.key.as_ref().unwrap()).ok()?.to_string();
+    let value = unescape(kv.value.as_ref().unwrap()).ok()?.to_string();
 
     let payload_type = match String::from_utf8(tag.name().0.to_vec()) {
         Ok(string) => string,
-- 
2.43.0


From 8e0b9136a5a4452adbf81249affbc6fad341d11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:06 +0000
Subject: [PATCH 34/59] fix: unescape scopes, extensions and classifiers of XES
 files

---
 .../src/event_log/xes/reader/file_xes_log_reader.rs           | 2 +-
 src/rust/ficus_backend/src/event_log/xes/reader/utils.rs      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
index 932674d..19f5edb 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
@@ -196,7 +196,7 @@ impl FromFileXesEventLogReader {
                             return None;
                         }
                     }
-                    KEYS_ATTR_NAME => match String::from_utf8(real_attr.value.into_owned()) {
+                    KEYS_ATTR_NAME => match real_attr.unescape_value() {
                         Ok(keys_string) => keys = Some(keys_string.split(" ").map(|s| s.to_owned()).collect()),
                         Err(_) => return None,
                     },
diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
index 0e2f0f3..284971a 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
@@ -65,9 +65,9 @@ pub fn extract_key_value(start: &BytesStart) -> KeyValuePair<String, String> {
 
 #[inline]
 pub fn read_attr_value(real_attr: &Attribute, var: &mut Option<String>) -> bool {
-    match String::from_utf8(real_attr.value.as_ref().to_vec()) {
+    match real_attr.unescape_value() {
         Ok(string) => {
-            *var = Some(string);
+            *var = Some(string.to_string());
             true
         }
         Err(_) => false,
-- 
2.43.0


From 329eccd54b4f0f9a8e07abcb78452ca894aa7478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:11 +0000
Subject: [PATCH 35/59] fix: add_or_update_payload adds a value under a new key

---
 src/rust/ficus_backend/src/event_log/xes/xes_event.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/xes_event.rs b/src/rust/ficus_backend/src/event_log/xes/xes_event.rs
index 498d69d..c81ff1d 100644
--- a/src/rust/ficus_backend/src/event_log/xes/xes_event.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/xes_event.rs
@@ -68,7 +68,7 @@ impl Event for XesEventImpl {
             self.payload = Some(HashMap::new());
         }
 
-        *self.payload.as_mut().unwrap().get_mut(&key).unwrap() = value;
+        self.payload.as_mut().unwrap().insert(key, value);
     }
 
     fn new(name: String, timestamp: DateTime<Utc>) -> Self {
-- 
2.43.0


From 9496dd8d20cb13807e9294b04dfabf5083c36657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 36/59] fix: an interval tree without intervals can be built
 and searched

---
 .../src/utils/interval_tree/interval_tree.rs           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs b/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs
index 5f75d62..af2bf24 100644
--- a/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs
+++ b/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs
@@ -42,7 +42,9 @@ where
             current_intervals.push(interval);
         }
 
-        queue.push_back((None, current_intervals));
+        if !current_intervals.is_empty() {
+            queue.push_back((None, current_intervals));
+        }
 
         while !queue.is_empty() {
             let (parent_child, mut current_intervals) = queue.pop_front().unwrap();
@@ -151,7 +153,11 @@ where
     }
 
     fn search_internal(&self, node_index: usize, point: TElement, result: &mut HashSet<Interval<TElement, TData>>) {
-        let node = &self.nodes[node_index];
+        let node = match self.nodes.get(node_index) {
+            None => return,
+            Some(node) => node,
+        };
+
         for interval in &node.intervals {
             if interval.contains(point) {
                 result.insert(*interval);
-- 
2.43.0


From dac5be3b55aaaca1e92c0443fccaaf5cc8effa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 37/59] fix: search_envelopes finds point intervals at the
 right end

---
 src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs b/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs
index af2bf24..7157580 100644
--- a/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs
+++ b/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs
@@ -109,6 +109,7 @@ where
 
         let mut result = HashSet::new();
         self.search_internal(0, left, &mut result);
+        self.search_internal(0, right, &mut result);
 
         self.boundaries.sort();
 
-- 
2.43.0


From c629bf44d810522af9eaeb76d604265aad6f13a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 38/59] fix: the interval tree visits each child once per
 search

---
 .../src/utils/interval_tree/interval_tree.rs     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs b/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs
index 7157580..ce0b2ad 100644
--- a/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs
+++ b/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs
@@ -163,17 +163,17 @@ where
             if interval.contains(point) {
                 result.insert(*interval);
             }
+        }
 
-            if let Some(left_child) = node.left_child {
-                if point < node.center {
-                    self.search_internal(left_child, point, result);
-                }
+        if let Some(left_child) = node.left_child {
+            if point < node.center {
+                self.search_internal(left_child, point, result);
             }
+        }
 
-            if let Some(right_child) = node.right_child {
-                if point > node.center {
-                    self.search_internal(right_child, point, result);
-                }
+        if let Some(right_child) = node.right_child {
+            if point > node.center {
+                self.search_internal(right_child, point, result);
             }
         }
     }
-- 
2.43.0


From 5b0773d8dc97d51dcad89d13ee728c0cea8427f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 39/59] fix: two sets with different borders are not equal

---
 src/rust/ficus_backend/src/utils/sets/two_sets.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/rust/ficus_backend/src/utils/sets/two_sets.rs b/src/rust/ficus_backend/src/utils/sets/two_sets.rs
index 4415624..85f005f 100644
--- a/src/rust/ficus_backend/src/utils/sets/two_sets.rs
+++ b/src/rust/ficus_backend/src/utils/sets/two_sets.rs
@@ -74,13 +74,8 @@ where
     T: Hash + Eq + ToString + Ord + Clone,
 {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for item in &self.first_set {
-            item.hash(state);
-        }
-
-        for item in &self.second_set {
-            item.hash(state);
-        }
+        self.first_set.hash(state);
+        self.second_set.hash(state);
     }
 }
 
-- 
2.43.0


From 37d1848d8ce600dd16d36c99a3e3ea5c82527bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 40/59] fix: all_connected_nodes returns the incoming
 neighbours of the node

---
 src/rust/ficus_backend/src/utils/graph/graph.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rust/ficus_backend/src/utils/graph/graph.rs b/src/rust/ficus_backend/src/utils/graph/graph.rs
index d835cf2..07285fe 100644
--- a/src/rust/ficus_backend/src/utils/graph/graph.rs
+++ b/src/rust/ficus_backend/src/utils/graph/graph.rs
@@ -93,9 +93,9 @@ where
             Some(connections) => connections.keys().collect(),
         };
 
-        for (node_id, connections) in &self.connections {
-            if connections.contains_key(node_id) {
-                connected_nodes.push(node_id);
+        for candidate in self.incoming_edges(node_id) {
+            if !self.are_nodes_connected(node_id, candidate) {
+                connected_nodes.push(candidate);
             }
         }
 
-- 
2.43.0


From 7d520cf1181813fc41f531931e1f15b6875ce6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 41/59] fix: Levenshtein distance of sequences of different
 lengths

---
 src/rust/ficus_backend/src/utils/distance/distance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/utils/distance/distance.rs b/src/rust/ficus_backend/src/utils/distance/distance.rs
index c82739d..f13e673 100644
--- a/src/rust/ficus_backend/src/utils/distance/distance.rs
+++ b/src/rust/ficus_backend/src/utils/distance/distance.rs
@@ -118,6 +118,6 @@ impl Distance<f64> for LevenshteinDistance {
             }
         }
 
-        matrix[a_len - 1][b_len - 1]
+        matrix[b_len - 1][a_len - 1]
     }
 }
-- 
2.43.0


From 25578296e53830a6d19c89c899fe0209de36ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:28 +0000
Subject: [PATCH 42/59] fix: first row of the Levenshtein matrix counts
 insertions from one

---
 src/rust/ficus_backend/src/utils/distance/distance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/utils/distance/distance.rs b/src/rust/ficus_backend/src/utils/distance/distance.rs
index f13e673..d7a78e9 100644
--- a/src/rust/ficus_backend/src/utils/distance/distance.rs
+++ b/src/rust/ficus_backend/src/utils/distance/distance.rs
@@ -95,7 +95,7 @@ impl Distance<f64> for LevenshteinDistance {
         let b_len = b.len() + 1;
 
         let mut matrix = vec![vec![0f64]];
-        for i in 0..a_len {
+        for i in 1..a_len {
             matrix[0].push(i as f64);
         }
 
-- 
2.43.0


From 19b142c767939e673f04022dd77a83b5944032e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 43/59] fix: writing a missing event log to XES is reported as
 an error

---
 src/rust/ficus_backend/src/pipelines/xes_parts.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/pipelines/xes_parts.rs b/src/rust/ficus_backend/src/pipelines/xes_parts.rs
index 2dd68f8..7f96df7 100644
--- a/src/rust/ficus_backend/src/pipelines/xes_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/xes_parts.rs
@@ -15,7 +15,9 @@ impl PipelineParts {
     pub(super) fn write_log_to_xes() -> (String, PipelinePartFactory) {
         Self::create_pipeline_part(Self::WRITE_LOG_TO_XES, &|context, _, keys, config| {
             let path = Self::get_user_data(config, &keys.path())?;
-            match write_log(&context.concrete(&keys.event_log().key()).unwrap(), path) {
+            let log = Self::get_user_data(context, keys.event_log())?;
+
+            match write_log(log, path) {
                 Ok(()) => Ok(()),
                 Err(err) => Err(PipelinePartExecutionError::Raw(RawPartExecutionError::new(err.to_string()))),
             }
-- 
2.43.0


From 17bff1a4c08d8fabeee6450356afcd97626f6895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 44/59] fix: an invalid regex for highlighting events is
 reported as an error

---
 src/rust/ficus_backend/src/pipelines/drawing_parts.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rust/ficus_backend/src/pipelines/drawing_parts.rs b/src/rust/ficus_backend/src/pipelines/drawing_parts.rs
index f58323b..8dd1649 100644
--- a/src/rust/ficus_backend/src/pipelines/drawing_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/drawing_parts.rs
@@ -1,4 +1,3 @@
-use fancy_regex::Regex;
 
 use crate::pipelines::pipeline_parts::PipelineParts;
 use crate::{
@@ -88,7 +87,7 @@ impl PipelineParts {
     pub(super) fn draw_events_placements_by_regex() -> (String, PipelinePartFactory) {
         Self::create_pipeline_part(Self::DRAW_PLACEMENT_OF_EVENT_BY_REGEX, &|context, _, keys, config| {
             let regex = Self::get_user_data(config, keys.regex())?;
-            let regex = Regex::new(regex).ok().unwrap();
+            let regex = Self::try_parse_regex(regex)?;
             Self::draw_events_placement(context, keys, &|event| regex.is_match(event.name()).ok().unwrap())
         })
     }
-- 
2.43.0


From b7e8ddf70cef68dff0c31a14650f4ce6fa24e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 45/59] fix: an invalid event class regex is reported as an
 error

---
 .../src/pipelines/activities_parts.rs         |  2 +-
 .../src/pipelines/patterns_parts.rs           |  4 ++--
 .../ficus_backend/src/pipelines/util_parts.rs | 24 ++++++++++++++-----
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/rust/ficus_backend/src/pipelines/activities_parts.rs b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
index 6f112c5..1223679 100644
--- a/src/rust/ficus_backend/src/pipelines/activities_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
@@ -259,7 +259,7 @@ impl PipelineParts {
                 let activities = Self::get_user_data_mut(context, keys.activities())?;
 
                 let narrow_kind = Self::get_user_data(config, keys.narrow_activities())?;
-                let hashed_log = Self::create_hashed_event_log(config, keys, log);
+                let hashed_log = Self::create_hashed_event_log(config, keys, log)?;
                 let min_events_count = *Self::get_user_data(config, keys.events_count())? as usize;
                 let min_events_in_activity = *Self::get_user_data(config, keys.min_activity_length())? as usize;
                 let activity_filter_kind = Self::get_user_data(config, keys.activity_filter_kind())?;
diff --git a/src/rust/ficus_backend/src/pipelines/patterns_parts.rs b/src/rust/ficus_backend/src/pipelines/patterns_parts.rs
index 0670955..a834856 100644
--- a/src/rust/ficus_backend/src/pipelines/patterns_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/patterns_parts.rs
@@ -79,7 +79,7 @@ impl PipelineParts {
         let log = Self::get_user_data(context, keys.event_log())?;
         let array_length = *config.concrete(keys.tandem_array_length().key()).unwrap() as usize;
 
-        let hashed_log = Self::create_hashed_event_log(config, keys, log);
+        let hashed_log = Self::create_hashed_event_log(config, keys, log)?;
 
         let arrays = patterns_finder(&hashed_log, array_length);
 
@@ -98,7 +98,7 @@ impl PipelineParts {
         let log = Self::get_user_data(context, keys.event_log())?;
         let strategy = Self::get_user_data(config, keys.patterns_discovery_strategy())?;
 
-        let hashed_log = Self::create_hashed_event_log(config, keys, log);
+        let hashed_log = Self::create_hashed_event_log(config, keys, log)?;
 
         let repeats = patterns_finder(&hashed_log, &strategy);
 
diff --git a/src/rust/ficus_backend/src/pipelines/util_parts.rs b/src/rust/ficus_backend/src/pipelines/util_parts.rs
index 02ec7f2..c47fa8d 100644
--- a/src/rust/ficus_backend/src/pipelines/util_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/util_parts.rs
@@ -20,16 +20,28 @@ use crate::{
     utils::user_data::user_data::{UserData, UserDataImpl},
 };
 
-use super::{keys::context_keys::ContextKeys, pipelines::PipelinePartFactory};
+use super::{
+    errors::pipeline_errors::{PipelinePartExecutionError, RawPartExecutionError},
+    keys::context_keys::ContextKeys,
+    pipelines::PipelinePartFactory,
+};
 
 impl PipelineParts {
-    pub(super) fn create_hashed_event_log(config: &UserDataImpl, keys: &ContextKeys, log: &XesEventLogImpl) -> Vec<Vec<u64>> {
+    pub(super) fn create_hashed_event_log(
+        config: &UserDataImpl,
+        keys: &ContextKeys,
+        log: &XesEventLogImpl,
+    ) -> Result<Vec<Vec<u64>>, PipelinePartExecutionError> {
         match Self::get_user_data(config, keys.event_class_regex()) {
             Ok(regex) => {
-                let hasher = RegexEventHasher::new(regex).ok().unwrap();
-                log.to_hashes_event_log(&hasher)
+                let hasher = match RegexEventHasher::new(regex) {
+                    Ok(hasher) => hasher,
+                    Err(err) => return Err(PipelinePartExecutionError::Raw(RawPartExecutionError::new(err.to_string()))),
+                };
+
+                Ok(log.to_hashes_event_log(&hasher))
             }
-            Err(_) => log.to_hashes_event_log(&NameEventHasher::new()),
+            Err(_) => Ok(log.to_hashes_event_log(&NameEventHasher::new())),
         }
     }
 
@@ -46,7 +58,7 @@ impl PipelineParts {
     pub(super) fn get_hashes_event_log() -> (String, PipelinePartFactory) {
         Self::create_pipeline_part(Self::GET_HASHES_EVENT_LOG, &|context, _, keys, config| {
             let log = Self::get_user_data(context, keys.event_log())?;
-            let hashes_event_log = Self::create_hashed_event_log(config, keys, log);
+            let hashes_event_log = Self::create_hashed_event_log(config, keys, log)?;
 
             context.put_concrete(keys.hashes_event_log().key(), hashes_event_log);
 
-- 
2.43.0


From a96c98cbd400559b7f849c2e2323beddaee4ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 46/59] fix: discover activities for several levels from tandem
 arrays

---
 src/rust/ficus_backend/src/pipelines/activities_parts.rs | 5 +++++
 src/rust/ficus_backend/src/pipelines/patterns_parts.rs   | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/pipelines/activities_parts.rs b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
index 1223679..727b8f4 100644
--- a/src/rust/ficus_backend/src/pipelines/activities_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
@@ -181,6 +181,7 @@ impl PipelineParts {
             let events_count = Self::get_user_data(config, keys.events_count())?;
             let min_events_in_activity = Self::get_user_data(config, keys.min_activity_length())?;
             let activity_filter_kind = Self::get_user_data(config, keys.activity_filter_kind())?;
+            let tandem_array_length = Self::get_user_data(config, keys.tandem_array_length()).ok();
 
             let mut index = 0;
             for event_class_regex in event_classes.into_iter().rev() {
@@ -195,6 +196,10 @@ impl PipelineParts {
                 config.put_concrete(keys.min_activity_length().key(), *min_events_in_activity);
                 config.put_concrete(keys.activity_filter_kind().key(), *activity_filter_kind);
 
+                if let Some(tandem_array_length) = tandem_array_length {
+                    config.put_concrete(keys.tandem_array_length().key(), *tandem_array_length);
+                }
+
                 Self::adjust_with_activities_from_unattached_events(context, infra, keys, &config)?;
 
                 index += 1;
diff --git a/src/rust/ficus_backend/src/pipelines/patterns_parts.rs b/src/rust/ficus_backend/src/pipelines/patterns_parts.rs
index a834856..9abc16f 100644
--- a/src/rust/ficus_backend/src/pipelines/patterns_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/patterns_parts.rs
@@ -77,7 +77,7 @@ impl PipelineParts {
         patterns_finder: impl Fn(&Vec<Vec<u64>>, usize) -> Vec<Vec<SubArrayInTraceInfo>>,
     ) -> Result<(), PipelinePartExecutionError> {
         let log = Self::get_user_data(context, keys.event_log())?;
-        let array_length = *config.concrete(keys.tandem_array_length().key()).unwrap() as usize;
+        let array_length = *Self::get_user_data(config, keys.tandem_array_length())? as usize;
 
         let hashed_log = Self::create_hashed_event_log(config, keys, log)?;
 
-- 
2.43.0


From 126439d4b50ad791b106f03419608d1b34226e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 47/59] fix: the number of underlying events can be sent to the
 client

---
 src/rust/ficus_backend/src/grpc/converters.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rust/ficus_backend/src/grpc/converters.rs b/src/rust/ficus_backend/src/grpc/converters.rs
index 5547e26..1998e27 100644
--- a/src/rust/ficus_backend/src/grpc/converters.rs
+++ b/src/rust/ficus_backend/src/grpc/converters.rs
@@ -172,6 +172,8 @@ pub fn convert_to_grpc_context_value(key: &dyn ContextKey, value: &dyn Any, keys
         try_convert_to_grpc_labeled_dataset(value)
     } else if keys.is_log_traces_dataset(key) {
         try_convert_to_grpc_dataset(value)
+    } else if keys.is_underlying_events_count(key) {
+        try_convert_to_grpc_uint32(value)
     } else {
         None
     }
@@ -210,6 +212,16 @@ fn try_convert_to_grpc_petri_net_frequency_annotation(value: &dyn Any) -> Option
     }
 }
 
+fn try_convert_to_grpc_uint32(value: &dyn Any) -> Option<GrpcContextValue> {
+    if !value.is::<usize>() {
+        None
+    } else {
+        Some(GrpcContextValue {
+            context_value: Some(ContextValue::Uint32(*value.downcast_ref::<usize>().unwrap() as u32)),
+        })
+    }
+}
+
 fn try_convert_to_string_context_value(value: &dyn Any) -> Option<GrpcContextValue> {
     if !value.is::<String>() {
         None
-- 
2.43.0


From 21f823acc57a27cc41af8402345468e75848b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 48/59] fix: accept hashes event logs in the initial context

---
 src/rust/ficus_backend/src/grpc/converters.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/grpc/converters.rs b/src/rust/ficus_backend/src/grpc/converters.rs
index 1998e27..87069d5 100644
--- a/src/rust/ficus_backend/src/grpc/converters.rs
+++ b/src/rust/ficus_backend/src/grpc/converters.rs
@@ -70,7 +70,7 @@ pub(super) fn put_into_user_data(
 ) {
     match value {
         ContextValue::String(string) => user_data.put_any::<String>(key, string.clone()),
-        ContextValue::HashesLog(_) => todo!(),
+        ContextValue::HashesLog(grpc_log) => put_hashes_log_to_context(key, grpc_log, user_data),
         ContextValue::NamesLog(grpc_log) => put_names_log_to_context(key, grpc_log, user_data),
         ContextValue::Uint32(number) => user_data.put_any::<u32>(key, number.clone()),
         ContextValue::TracesSubArrays(_) => todo!(),
@@ -139,6 +139,13 @@ fn put_names_log_to_context(key: &dyn Key, grpc_log: &GrpcNamesEventLogContextVa
     user_data.put_any::<Vec<Vec<String>>>(key, names_log);
 }
 
+fn put_hashes_log_to_context(key: &dyn Key, grpc_log: &GrpcHashesEventLogContextValue, user_data: &mut impl UserData) {
+    let grpc_log = grpc_log.log.as_ref().unwrap();
+    let hashes_log = grpc_log.traces.iter().map(|trace| trace.events.clone()).collect();
+
+    user_data.put_any::<Vec<Vec<u64>>>(key, hashes_log);
+}
+
 pub fn convert_to_grpc_context_value(key: &dyn ContextKey, value: &dyn Any, keys: &ContextKeys) -> Option<GrpcContextValue> {
     if keys.is_path(key) {
         try_convert_to_string_context_value(value)
-- 
2.43.0


From 890a85778cfcb9f3e7ad40685e7bdf0f2f6a0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 49/59] fix: a panic during a pipeline execution ends the
 stream with an error result

---
 src/rust/ficus_backend/src/grpc/backend_service.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/rust/ficus_backend/src/grpc/backend_service.rs b/src/rust/ficus_backend/src/grpc/backend_service.rs
index b0fc915..854f2fd 100644
--- a/src/rust/ficus_backend/src/grpc/backend_service.rs
+++ b/src/rust/ficus_backend/src/grpc/backend_service.rs
@@ -2,6 +2,7 @@ use std::str::FromStr;
 use std::{
     any::Any,
     collections::HashMap,
+    panic::{catch_unwind, AssertUnwindSafe},
     pin::Pin,
     sync::{Arc, Mutex},
 };
@@ -27,7 +28,7 @@ use crate::{
     },
     pipelines::{
         context::LogMessageHandler,
-        errors::pipeline_errors::PipelinePartExecutionError,
+        errors::pipeline_errors::{PipelinePartExecutionError, RawPartExecutionError},
         keys::{context_key::ContextKey, context_keys::ContextKeys},
         pipeline_parts::PipelineParts,
         pipelines::{DefaultPipelinePart, Pipeline, PipelinePart},
@@ -144,7 +145,14 @@ impl GrpcBackendService for FicusService {
             let context_values = &request.get_ref().initial_context;
             let context = ServicePipelineExecutionContext::new(grpc_pipeline, context_values, context_keys, pipeline_parts, sender);
 
-            match Self::execute_grpc_pipeline(&context) {
+            let result = match catch_unwind(AssertUnwindSafe(|| Self::execute_grpc_pipeline(&context))) {
+                Ok(result) => result,
+                Err(_) => Err(PipelinePartExecutionError::Raw(RawPartExecutionError::new(
+                    "Pipeline execution panicked".to_string(),
+                ))),
+            };
+
+            match result {
                 Ok((guid, created_context)) => {
                     contexts.lock().as_mut().unwrap().insert(guid.guid.to_owned(), created_context);
 
-- 
2.43.0


From 1732f4ac84dbd830bce7225c438eabb9a5403e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 50/59] fix: clustering reports parameters the algorithms
 refuse as an error

---
 .../src/features/clustering/activities/dbscan.rs          | 4 ++--
 .../src/features/clustering/activities/k_means.rs         | 8 ++++----
 .../src/features/clustering/traces/dbscan.rs              | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs b/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs
index 036a287..f230657 100644
--- a/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs
+++ b/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs
@@ -6,7 +6,7 @@ use crate::{
     event_log::core::event_log::EventLog,
     features::clustering::{
         common::{create_colors_vector, transform_to_ficus_dataset},
-        error::ClusteringResult,
+        error::{ClusteringError, ClusteringResult},
     },
     utils::{dataset::dataset::LabeledDataset, distance::distance::DistanceWrapper},
 };
@@ -18,7 +18,7 @@ pub fn clusterize_activities_dbscan<TLog: EventLog>(params: &mut ActivitiesClust
     let clusters = Dbscan::params_with(min_points, DistanceWrapper::new(params.distance), KdTree)
         .tolerance(params.tolerance)
         .transform(dataset.records())
-        .unwrap();
+        .map_err(|err| ClusteringError::RawError(err.to_string()))?;
 
     merge_activities(
         params.vis_params.common_vis_params.log,
diff --git a/src/rust/ficus_backend/src/features/clustering/activities/k_means.rs b/src/rust/ficus_backend/src/features/clustering/activities/k_means.rs
index f637176..d5442c3 100644
--- a/src/rust/ficus_backend/src/features/clustering/activities/k_means.rs
+++ b/src/rust/ficus_backend/src/features/clustering/activities/k_means.rs
@@ -30,7 +30,7 @@ pub fn clusterize_activities_k_means<TLog: EventLog>(
     iterations_count: usize,
 ) -> ClusteringResult {
     let (dataset, processed, classes_names) = create_dataset(&params.vis_params)?;
-    let model = create_k_means_model(clusters_count, iterations_count as u64, params.tolerance, &dataset, params.distance);
+    let model = create_k_means_model(clusters_count, iterations_count as u64, params.tolerance, &dataset, params.distance)?;
 
     let clustered_dataset = model.predict(dataset.clone());
     merge_activities(
@@ -75,12 +75,12 @@ fn create_k_means_model(
     tolerance: f64,
     dataset: &MyDataset,
     distance: FicusDistance,
-) -> KMeans<f64, DistanceWrapper> {
+) -> Result<KMeans<f64, DistanceWrapper>, ClusteringError> {
     KMeans::params_with(clusters_count, rand::thread_rng(), DistanceWrapper::new(distance))
         .max_n_iterations(iterations_count)
         .tolerance(tolerance)
         .fit(&dataset)
-        .expect("KMeans fitted")
+        .map_err(|err| ClusteringError::RawError(err.to_string()))
 }
 
 pub fn clusterize_activities_k_means_grid_search<TLog: EventLog>(
@@ -93,7 +93,7 @@ pub fn clusterize_activities_k_means_grid_search<TLog: EventLog>(
     let mut best_labels = None;
 
     for clusters_count in 2..processed.len() {
-        let model = create_k_means_model(clusters_count, iterations_count as u64, params.tolerance, &dataset, params.distance);
+        let model = create_k_means_model(clusters_count, iterations_count as u64, params.tolerance, &dataset, params.distance)?;
 
         let clustered_dataset = model.predict(dataset.clone());
         let score = match clustered_dataset.silhouette_score() {
diff --git a/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs b/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
index c5dab06..ef24e90 100644
--- a/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
+++ b/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
@@ -41,7 +41,7 @@ pub fn clusterize_log_by_traces_dbscan<TLog: EventLog>(
     let clusters = Dbscan::params_with(min_points, DistanceWrapper::new(params.distance), KdTree)
         .tolerance(params.tolerance)
         .transform(dataset.records())
-        .unwrap();
+        .map_err(|err| ClusteringError::RawError(err.to_string()))?;
 
     let ficus_dataset = transform_to_ficus_dataset(&dataset, objects, features);
 
-- 
2.43.0


From 8a62fee9d254a9e09defb22ff72d69e9011d6bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 51/59] fix: clustering reports an invalid event class regex as
 an error

---
 .../src/features/clustering/activities/activities_common.rs   | 2 +-
 .../ficus_backend/src/features/clustering/traces/dbscan.rs    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/clustering/activities/activities_common.rs b/src/rust/ficus_backend/src/features/clustering/activities/activities_common.rs
index e2e9b43..5f39dfa 100644
--- a/src/rust/ficus_backend/src/features/clustering/activities/activities_common.rs
+++ b/src/rust/ficus_backend/src/features/clustering/activities/activities_common.rs
@@ -158,7 +158,7 @@ fn create_dataset_internal(
 ) -> Result<(MyDataset, ActivityNodeWithCoords, Vec<String>), ClusteringError> {
     let mut all_event_classes = HashSet::new();
     let regex_hasher = match class_extractor.as_ref() {
-        Some(class_extractor) => Some(RegexEventHasher::new(class_extractor).ok().unwrap()),
+        Some(class_extractor) => Some(RegexEventHasher::new(class_extractor).map_err(|err| ClusteringError::RawError(err.to_string()))?),
         None => None,
     };
 
diff --git a/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs b/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
index ef24e90..1bfafa8 100644
--- a/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
+++ b/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
@@ -129,7 +129,7 @@ fn create_traces_dataset_default_internal<TLog: EventLog>(
     trace_repr_creator: impl Fn(&TLog::TTrace) -> Vec<Rc<RefCell<TLog::TEvent>>>,
 ) -> Result<(MyDataset, Vec<String>, Vec<String>), ClusteringError> {
     let regex_hasher = match class_extractor.as_ref() {
-        Some(class_extractor) => Some(RegexEventHasher::new(class_extractor).ok().unwrap()),
+        Some(class_extractor) => Some(RegexEventHasher::new(class_extractor).map_err(|err| ClusteringError::RawError(err.to_string()))?),
         None => None,
     };
 
@@ -205,7 +205,7 @@ fn create_traces_dataset_levenshtein_internal<TLog: EventLog>(
     trace_repr_creator: impl Fn(&TLog::TTrace) -> Vec<Rc<RefCell<TLog::TEvent>>>,
 ) -> Result<(MyDataset, Vec<String>, Vec<String>), ClusteringError> {
     let regex_hasher = match class_extractor.as_ref() {
-        Some(class_extractor) => Some(RegexEventHasher::new(class_extractor).ok().unwrap()),
+        Some(class_extractor) => Some(RegexEventHasher::new(class_extractor).map_err(|err| ClusteringError::RawError(err.to_string()))?),
         None => None,
     };
 
-- 
2.43.0


From fc3ba56985ebefa7b8f4a976906dbf9a4ee0208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:49 +0000
Subject: [PATCH 52/59] fix: discovery from unattached subtraces starts with
 the whole log

---
 src/rust/ficus_backend/src/pipelines/activities_parts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/pipelines/activities_parts.rs b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
index 727b8f4..50f59be 100644
--- a/src/rust/ficus_backend/src/pipelines/activities_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
@@ -227,7 +227,7 @@ impl PipelineParts {
         if adjusting_mode == AdjustingMode::FromUnattachedSubTraces {
             match Self::get_user_data(old_context, keys.trace_activities()) {
                 Ok(activities) => new_context.put_concrete(keys.event_log().key(), create_log_from_unattached_events(log, activities)),
-                Err(_) => {}
+                Err(_) => new_context.put_concrete(keys.event_log().key(), log.clone()),
             }
         } else {
             new_context.put_concrete(keys.event_log().key(), log.clone());
-- 
2.43.0


From af0b5ffbbdfa06aafebf0759b0165eff9079b308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 53/59] fix: activities merged by density clustering are named
 and coloured like their label

---
 .../ficus_backend/src/features/clustering/activities/dbscan.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs b/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs
index f230657..def670c 100644
--- a/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs
+++ b/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs
@@ -24,7 +24,7 @@ pub fn clusterize_activities_dbscan<TLog: EventLog>(params: &mut ActivitiesClust
         params.vis_params.common_vis_params.log,
         params.vis_params.traces_activities,
         &processed.iter().map(|x| x.0.clone()).collect(),
-        &clusters,
+        &clusters.map(|x| x.map(|cluster| cluster + 1)),
     );
 
     let ficus_dataset = transform_to_ficus_dataset(
-- 
2.43.0


From a5bbfe08262099ce9fca40e3ed6a0132b157cd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:57 +0000
Subject: [PATCH 54/59] fix: events made without a timestamp get dates that XES
 and BXES can hold

---
 .../ficus_backend/src/event_log/xes/xes_event.rs | 16 +++++++++++++---
 .../ficus_backend/src/pipelines/util_parts.rs    | 10 +++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/xes_event.rs b/src/rust/ficus_backend/src/event_log/xes/xes_event.rs
index c81ff1d..e992e1b 100644
--- a/src/rust/ficus_backend/src/event_log/xes/xes_event.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/xes_event.rs
@@ -1,6 +1,6 @@
 use std::{collections::HashMap, rc::Rc};
 
-use chrono::{DateTime, Utc};
+use chrono::{DateTime, TimeZone, Utc};
 
 use crate::{
     event_log::core::event::{
@@ -10,6 +10,16 @@ use crate::{
     utils::{user_data::user_data::UserDataImpl, vec_utils},
 };
 
+/// The dates of events which are created without a timestamp, they can be written to (and read from) both XES and BXES,
+/// where a date has a year of four digits and a number of nanoseconds in 64 bits, unlike MIN_UTC and MAX_UTC
+pub fn min_event_date() -> DateTime<Utc> {
+    Utc.with_ymd_and_hms(1678, 1, 1, 0, 0, 0).unwrap()
+}
+
+pub fn max_event_date() -> DateTime<Utc> {
+    Utc.with_ymd_and_hms(2262, 1, 1, 0, 0, 0).unwrap()
+}
+
 pub struct XesEventImpl {
     event_base: EventBase,
     payload: Option<HashMap<String, EventPayloadValue>>,
@@ -79,11 +89,11 @@ impl Event for XesEventImpl {
     }
 
     fn new_with_min_date(name: String) -> Self {
-        Self::new(name, DateTime::<Utc>::MIN_UTC)
+        Self::new(name, min_event_date())
     }
 
     fn new_with_max_date(name: String) -> Self {
-        Self::new(name, DateTime::<Utc>::MAX_UTC)
+        Self::new(name, max_event_date())
     }
 
     fn name_pointer(&self) -> &Rc<Box<String>> {
diff --git a/src/rust/ficus_backend/src/pipelines/util_parts.rs b/src/rust/ficus_backend/src/pipelines/util_parts.rs
index c47fa8d..4725958 100644
--- a/src/rust/ficus_backend/src/pipelines/util_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/util_parts.rs
@@ -1,6 +1,6 @@
 use std::{cell::RefCell, rc::Rc};
 
-use chrono::{DateTime, Duration, Utc};
+use chrono::Duration;
 
 use crate::pipelines::pipeline_parts::PipelineParts;
 use crate::pipelines::pipelines::PipelinePart;
@@ -14,7 +14,11 @@ use crate::{
             event_log::EventLog,
             trace::trace::Trace,
         },
-        xes::{xes_event::XesEventImpl, xes_event_log::XesEventLogImpl, xes_trace::XesTraceImpl},
+        xes::{
+            xes_event::{min_event_date, XesEventImpl},
+            xes_event_log::XesEventLogImpl,
+            xes_trace::XesTraceImpl,
+        },
     },
     features::analysis::event_log_info::{EventLogInfo, EventLogInfoCreationDto},
     utils::user_data::user_data::{UserData, UserDataImpl},
@@ -92,7 +96,7 @@ impl PipelineParts {
             let mut log = XesEventLogImpl::empty();
             for names_trace in names_log {
                 let mut trace = XesTraceImpl::empty();
-                let mut date = DateTime::<Utc>::MIN_UTC;
+                let mut date = min_event_date();
 
                 for name in names_trace {
                     let event = XesEventImpl::new(name.clone(), date.clone());
-- 
2.43.0


From 310144fc1732c01c5ad5ce41b5f80e8dbb988800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:57 +0000
Subject: [PATCH 55/59] fix: a BXES variant of several traces is read as that
 many traces

---
 .../src/event_log/bxes/bxes_to_xes_converter.rs      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs b/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs
index 0c51fa5..2f70df0 100644
--- a/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs
+++ b/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs
@@ -46,12 +46,14 @@ pub fn read_bxes_into_xes_log(path: &str) -> Result<XesEventLogImpl, BxesToXesRe
     set_globals(&mut xes_log, &log)?;
 
     for variant in &log.variants {
-        let mut xes_trace = XesTraceImpl::empty();
-        for event in &variant.events {
-            xes_trace.push(Rc::new(RefCell::new(create_xes_event(event)?)));
-        }
+        for _ in 0..variant.traces_count {
+            let mut xes_trace = XesTraceImpl::empty();
+            for event in &variant.events {
+                xes_trace.push(Rc::new(RefCell::new(create_xes_event(event)?)));
+            }
 
-        xes_log.push(Rc::new(RefCell::new(xes_trace)));
+            xes_log.push(Rc::new(RefCell::new(xes_trace)));
+        }
     }
 
     Ok(xes_log)
-- 
2.43.0


From d470302cb1438fe7ca7cda310559b1d0e169ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:57 +0000
Subject: [PATCH 56/59] fix: dates that BXES can not hold are an error of
 writing the log, not a panic

---
 .../src/event_log/bxes/conversions.rs         | 20 +++++--
 .../event_log/bxes/xes_to_bxes_converter.rs   | 53 +++++++++----------
 2 files changed, 40 insertions(+), 33 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/bxes/conversions.rs b/src/rust/ficus_backend/src/event_log/bxes/conversions.rs
index 6be4aef..db1cd68 100644
--- a/src/rust/ficus_backend/src/event_log/bxes/conversions.rs
+++ b/src/rust/ficus_backend/src/event_log/bxes/conversions.rs
@@ -1,5 +1,5 @@
 use bxes::models::{BxesGlobalKind, BxesValue};
-use chrono::{TimeZone, Utc};
+use chrono::{DateTime, TimeZone, Utc};
 
 use crate::event_log::core::event::{
     event::EventPayloadValue,
@@ -34,9 +34,9 @@ pub(super) fn bxes_value_to_payload_value(value: &BxesValue) -> EventPayloadValu
     }
 }
 
-pub(super) fn payload_value_to_bxes_value(value: &EventPayloadValue) -> BxesValue {
-    match value {
-        EventPayloadValue::Date(value) => BxesValue::Timestamp(value.timestamp_nanos()),
+pub(super) fn payload_value_to_bxes_value(value: &EventPayloadValue) -> Result<BxesValue, XesToBxesWriterError> {
+    Ok(match value {
+        EventPayloadValue::Date(value) => BxesValue::Timestamp(timestamp_nanos(value)?),
         EventPayloadValue::String(value) => BxesValue::String(value.clone()),
         EventPayloadValue::Boolean(value) => BxesValue::Bool(*value),
         EventPayloadValue::Int32(value) => BxesValue::Int32(*value),
@@ -51,6 +51,18 @@ pub(super) fn payload_value_to_bxes_value(value: &EventPayloadValue) -> BxesValu
             bxes::models::Lifecycle::Braf(braf) => BxesValue::BrafLifecycle(braf),
             bxes::models::Lifecycle::Standard(standard) => BxesValue::StandardLifecycle(standard),
         },
+    })
+}
+
+/// BXES stores timestamps as 64-bit numbers of nanoseconds, the dates before 1677 and after 2262 do not fit
+pub(super) fn timestamp_nanos(date: &DateTime<Utc>) -> Result<i64, XesToBxesWriterError> {
+    let nanos = date.timestamp().checked_mul(1_000_000_000);
+    match nanos.and_then(|nanos| nanos.checked_add(i64::from(date.timestamp_subsec_nanos()))) {
+        Some(nanos) => Ok(nanos),
+        None => Err(XesToBxesWriterError::ConversionError(format!(
+            "The date can not be represented in BXES: {}",
+            date.to_rfc3339()
+        ))),
     }
 }
 
diff --git a/src/rust/ficus_backend/src/event_log/bxes/xes_to_bxes_converter.rs b/src/rust/ficus_backend/src/event_log/bxes/xes_to_bxes_converter.rs
index c12c30b..7d494a2 100644
--- a/src/rust/ficus_backend/src/event_log/bxes/xes_to_bxes_converter.rs
+++ b/src/rust/ficus_backend/src/event_log/bxes/xes_to_bxes_converter.rs
@@ -14,7 +14,7 @@ use crate::event_log::{
     xes::{constants::EVENT_TAG_NAME_STR, shared::XesEventLogExtension, xes_event::XesEventImpl, xes_event_log::XesEventLogImpl},
 };
 
-use super::conversions::{convert_xes_to_bxes_lifecycle, parse_entity_kind, payload_value_to_bxes_value};
+use super::conversions::{parse_entity_kind, payload_value_to_bxes_value, timestamp_nanos};
 
 pub enum XesToBxesWriterError {
     BxesWriteError(BxesWriteError),
@@ -36,9 +36,9 @@ pub fn write_event_log_to_bxes(log: &XesEventLogImpl, path: &str) -> Result<(),
             classifiers: Some(create_bxes_classifiers(log)),
             extensions: Some(create_bxes_extensions(log)),
             globals: Some(create_bxes_globals(log)?),
-            properties: Some(create_bxes_properties(log)),
+            properties: Some(create_bxes_properties(log)?),
         },
-        variants: create_bxes_traces(log),
+        variants: create_bxes_traces(log)?,
         version: 1,
     };
 
@@ -48,37 +48,39 @@ pub fn write_event_log_to_bxes(log: &XesEventLogImpl, path: &str) -> Result<(),
     }
 }
 
-fn create_bxes_traces(log: &XesEventLogImpl) -> Vec<BxesTraceVariant> {
+fn create_bxes_traces(log: &XesEventLogImpl) -> Result<Vec<BxesTraceVariant>, XesToBxesWriterError> {
     log.traces()
         .iter()
-        .map(|trace| BxesTraceVariant {
-            traces_count: 1,
-            metadata: vec![],
-            events: trace
-                .borrow()
-                .events()
-                .iter()
-                .map(|event| create_bxes_event(log, &event.borrow()))
-                .collect(),
+        .map(|trace| {
+            Ok(BxesTraceVariant {
+                traces_count: 1,
+                metadata: vec![],
+                events: trace
+                    .borrow()
+                    .events()
+                    .iter()
+                    .map(|event| create_bxes_event(log, &event.borrow()))
+                    .collect::<Result<_, _>>()?,
+            })
         })
         .collect()
 }
 
-fn create_bxes_event(log: &XesEventLogImpl, event: &XesEventImpl) -> BxesEvent {
+fn create_bxes_event(log: &XesEventLogImpl, event: &XesEventImpl) -> Result<BxesEvent, XesToBxesWriterError> {
     let bxes_event = BxesEvent {
         name: Rc::new(Box::new(BxesValue::String(event.name_pointer().clone()))),
-        timestamp: event.timestamp().timestamp_nanos(),
+        timestamp: timestamp_nanos(event.timestamp())?,
         attributes: Some(
             event
                 .ordered_payload()
                 .iter()
                 .filter(|kv| is_not_default_attribute(log, kv))
                 .map(|kv| kv_pair_to_bxes_pair(kv))
-                .collect(),
+                .collect::<Result<_, _>>()?,
         ),
     };
 
-    bxes_event
+    Ok(bxes_event)
 }
 
 fn is_not_default_attribute(log: &XesEventLogImpl, kv: &(&String, &EventPayloadValue)) -> bool {
@@ -124,30 +126,23 @@ fn create_bxes_globals(log: &XesEventLogImpl) -> Result<Vec<BxesGlobal>, XesToBx
     for xes_global in log.ordered_globals().iter() {
         globals.push(BxesGlobal {
             entity_kind: parse_entity_kind(xes_global.0.as_str())?,
-            globals: xes_global.1.iter().map(|kv| convert_to_bxes_global_attribute(kv)).collect(),
+            globals: xes_global.1.iter().map(|kv| kv_pair_to_bxes_pair(kv)).collect::<Result<_, _>>()?,
         })
     }
 
     Ok(globals)
 }
 
-fn convert_to_bxes_global_attribute(kv: &(&String, &EventPayloadValue)) -> (Rc<Box<BxesValue>>, Rc<Box<BxesValue>>) {
-    let key = Rc::new(Box::new(BxesValue::String(Rc::new(Box::new(kv.0.to_owned())))));
-    let value = Rc::new(Box::new(payload_value_to_bxes_value(kv.1)));
-
-    (key, value)
-}
-
-fn create_bxes_properties(log: &XesEventLogImpl) -> Vec<(Rc<Box<BxesValue>>, Rc<Box<BxesValue>>)> {
+fn create_bxes_properties(log: &XesEventLogImpl) -> Result<Vec<(Rc<Box<BxesValue>>, Rc<Box<BxesValue>>)>, XesToBxesWriterError> {
     log.properties_map()
         .iter()
         .map(|kv| kv_pair_to_bxes_pair(&(&kv.name, &kv.value)))
         .collect()
 }
 
-fn kv_pair_to_bxes_pair(kv: &(&String, &EventPayloadValue)) -> (Rc<Box<BxesValue>>, Rc<Box<BxesValue>>) {
-    let bxes_value = payload_value_to_bxes_value(kv.1);
+fn kv_pair_to_bxes_pair(kv: &(&String, &EventPayloadValue)) -> Result<(Rc<Box<BxesValue>>, Rc<Box<BxesValue>>), XesToBxesWriterError> {
+    let bxes_value = payload_value_to_bxes_value(kv.1)?;
     let key = Rc::new(Box::new(BxesValue::String(Rc::new(Box::new(kv.0.to_owned())))));
 
-    (key, Rc::new(Box::new(bxes_value)))
+    Ok((key, Rc::new(Box::new(bxes_value))))
 }
-- 
2.43.0


From 7c58cc4531e315c49433734b870ef10ea2745282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:14 +0000
Subject: [PATCH 57/59] fix: events read from BXES have the default attributes
 that are not stored with them

---
 .../event_log/bxes/bxes_to_xes_converter.rs   | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs b/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs
index 2f70df0..4214d38 100644
--- a/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs
+++ b/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs
@@ -9,6 +9,7 @@ use chrono::{TimeZone, Utc};
 use crate::event_log::{
     core::{event::event::EventPayloadValue, event_log::EventLog, trace::trace::Trace},
     xes::{
+        constants::{CONCEPT_NAME_STR, EVENT_TAG_NAME_STR, TIME_TIMESTAMP_STR},
         shared::{XesClassifier, XesEventLogExtension, XesProperty},
         xes_event::XesEventImpl,
         xes_event_log::XesEventLogImpl,
@@ -45,11 +46,13 @@ pub fn read_bxes_into_xes_log(path: &str) -> Result<XesEventLogImpl, BxesToXesRe
     set_extensions(&mut xes_log, &log)?;
     set_globals(&mut xes_log, &log)?;
 
+    let event_defaults = xes_log.globals_map().get(EVENT_TAG_NAME_STR).cloned().unwrap_or_default();
+
     for variant in &log.variants {
         for _ in 0..variant.traces_count {
             let mut xes_trace = XesTraceImpl::empty();
             for event in &variant.events {
-                xes_trace.push(Rc::new(RefCell::new(create_xes_event(event)?)));
+                xes_trace.push(Rc::new(RefCell::new(create_xes_event(event, &event_defaults)?)));
             }
 
             xes_log.push(Rc::new(RefCell::new(xes_trace)));
@@ -136,7 +139,10 @@ fn string_or_err(value: &BxesValue, entity_name: &str) -> Result<String, BxesToX
     }
 }
 
-fn create_xes_event(bxes_event: &BxesEvent) -> Result<XesEventImpl, BxesToXesReadError> {
+fn create_xes_event(
+    bxes_event: &BxesEvent,
+    event_defaults: &HashMap<String, EventPayloadValue>,
+) -> Result<XesEventImpl, BxesToXesReadError> {
     let name = if let BxesValue::String(string) = bxes_event.name.as_ref().as_ref() {
         string.clone()
     } else {
@@ -145,7 +151,15 @@ fn create_xes_event(bxes_event: &BxesEvent) -> Result<XesEventImpl, BxesToXesRea
     };
 
     let timestamp = Utc.timestamp_nanos(bxes_event.timestamp);
-    let payload = create_xes_payload(bxes_event.attributes.as_ref())?;
+    let mut payload = create_xes_payload(bxes_event.attributes.as_ref())?;
+
+    // attributes which are equal to the defaults are not stored in BXES
+    for (key, value) in event_defaults {
+        if key != CONCEPT_NAME_STR && key != TIME_TIMESTAMP_STR {
+            let payload = payload.get_or_insert_with(HashMap::new);
+            payload.entry(key.to_owned()).or_insert_with(|| value.clone());
+        }
+    }
 
     Ok(XesEventImpl::new_all_fields(name, timestamp, payload))
 }
-- 
2.43.0


From a14ccf592a6938839b4103b97cd7bb8fdb5b1e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:15 +0000
Subject: [PATCH 58/59] fix: attributes nested in an attribute of an XES log do
 not replace those of the event, the defaults or the log

---
 .../xes/reader/file_xes_log_reader.rs         | 55 ++++++++++++++-----
 .../xes/reader/xes_log_trace_reader.rs        | 41 ++++++++++----
 2 files changed, 73 insertions(+), 23 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
index 19f5edb..ab9becf 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
@@ -69,10 +69,22 @@ impl Iterator for FromFileXesEventLogReader {
                         Some(item) => return Some(item),
                         None => continue,
                     },
-                    _ => match Self::try_read_property(&tag) {
-                        Some(item) => return Some(item),
-                        None => continue,
-                    },
+                    _ => {
+                        let property = Self::try_read_property(&tag);
+
+                        // attributes inside of a property do not belong to the log
+                        if utils::extract_key_value(&tag).key.is_some() {
+                            let end = tag.to_end().into_owned();
+                            if reader.read_to_end_into(end.name(), &mut Vec::new()).is_err() {
+                                return None;
+                            }
+                        }
+
+                        match property {
+                            Some(item) => return Some(item),
+                            None => continue,
+                        }
+                    }
                 },
                 Ok(quick_xml::events::Event::Empty(tag)) => match Self::try_read_tag(&tag) {
                     Some(item) => return Some(item),
@@ -157,22 +169,26 @@ impl FromFileXesEventLogReader {
     fn try_read_global(reader: &mut Reader<BufReader<File>>, storage: &mut Vec<u8>) -> Option<HashMap<String, EventPayloadValue>> {
         let mut map: Option<HashMap<String, EventPayloadValue>> = None;
 
+        // attributes inside of other attributes are not default values
+        let mut depth = 0;
+
         loop {
             match reader.read_event_into(storage) {
                 Ok(quick_xml::events::Event::Eof) => return None,
                 Err(_) => return None,
-                Ok(quick_xml::events::Event::Empty(tag)) => {
-                    if let Some(descriptor) = utils::read_payload_like_tag(&tag) {
-                        if let None = map {
-                            map = Some(HashMap::new())
-                        }
+                Ok(quick_xml::events::Event::Start(tag)) => {
+                    if depth == 0 {
+                        Self::read_default_value(&tag, &mut map);
+                    }
 
-                        let payload_type = descriptor.payload_type.as_str().as_bytes();
-                        if let Some(payload_value) = utils::extract_payload_value(payload_type, &descriptor.value) {
-                            map.as_mut().unwrap().insert(descriptor.key, payload_value);
-                        }
+                    depth += 1;
+                }
+                Ok(quick_xml::events::Event::Empty(tag)) => {
+                    if depth == 0 {
+                        Self::read_default_value(&tag, &mut map);
                     }
                 }
+                Ok(quick_xml::events::Event::End(_)) if depth > 0 => depth -= 1,
                 Ok(quick_xml::events::Event::End(tag)) => match tag.name().0 {
                     GLOBAL_TAG_NAME => break,
                     _ => continue,
@@ -184,6 +200,19 @@ impl FromFileXesEventLogReader {
         map
     }
 
+    fn read_default_value(tag: &BytesStart, map: &mut Option<HashMap<String, EventPayloadValue>>) {
+        if let Some(descriptor) = utils::read_payload_like_tag(tag) {
+            if let None = map {
+                *map = Some(HashMap::new())
+            }
+
+            let payload_type = descriptor.payload_type.as_str().as_bytes();
+            if let Some(payload_value) = utils::extract_payload_value(payload_type, &descriptor.value) {
+                map.as_mut().unwrap().insert(descriptor.key, payload_value);
+            }
+        }
+    }
+
     fn try_read_classifier(tag: &BytesStart) -> Option<XesClassifier> {
         let mut name: Option<String> = None;
         let mut keys: Option<Vec<String>> = None;
diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
index 69f704e..3ea8789 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
@@ -3,7 +3,7 @@ use crate::event_log::{core::event::event::EventPayloadValue, xes::xes_event::Xe
 use crate::event_log::xes::constants::*;
 
 use chrono::{DateTime, Utc};
-use quick_xml::Reader;
+use quick_xml::{events::BytesStart, Reader};
 use std::{cell::RefCell, collections::HashMap, fs::File, io::BufReader, rc::Rc};
 
 use super::utils;
@@ -59,8 +59,19 @@ impl TraceXesEventLogIterator {
 
         self.set_defaults_value(&mut name, &mut date, &mut payload);
 
+        // attributes inside of other attributes do not belong to the event
+        let mut depth = 0;
+
         loop {
             match self.reader.borrow_mut().read_event_into(&mut self.buffer) {
+                Ok(quick_xml::events::Event::Start(start)) => {
+                    if depth == 0 {
+                        Self::set_parsed_tag(&start, &mut name, &mut date, &mut payload);
+                    }
+
+                    depth += 1;
+                }
+                Ok(quick_xml::events::Event::End(_)) if depth > 0 => depth -= 1,
                 Ok(quick_xml::events::Event::End(end)) => match end.name().0 {
                     EVENT_TAG_NAME => {
                         if !name.is_some() {
@@ -75,16 +86,11 @@ impl TraceXesEventLogIterator {
                     }
                     _ => continue,
                 },
-                Ok(quick_xml::events::Event::Empty(empty)) => match utils::read_payload_like_tag(&empty) {
-                    Some(descriptor) => {
-                        let payload_type = descriptor.payload_type.as_str().as_bytes();
-                        let key = descriptor.key.as_str();
-                        let value = descriptor.value.as_str();
-
-                        Self::set_parsed_value(payload_type, key, value, &mut name, &mut date, &mut payload);
+                Ok(quick_xml::events::Event::Empty(empty)) => {
+                    if depth == 0 {
+                        Self::set_parsed_tag(&empty, &mut name, &mut date, &mut payload);
                     }
-                    None => continue,
-                },
+                }
                 Ok(quick_xml::events::Event::Eof) => return None,
                 Err(_) => return None,
                 _ => continue,
@@ -108,6 +114,21 @@ impl TraceXesEventLogIterator {
         }
     }
 
+    fn set_parsed_tag(
+        tag: &BytesStart,
+        name: &mut Option<Rc<Box<String>>>,
+        date: &mut Option<DateTime<Utc>>,
+        payload: &mut HashMap<String, EventPayloadValue>,
+    ) {
+        if let Some(descriptor) = utils::read_payload_like_tag(tag) {
+            let payload_type = descriptor.payload_type.as_str().as_bytes();
+            let key = descriptor.key.as_str();
+            let value = descriptor.value.as_str();
+
+            Self::set_parsed_value(payload_type, key, value, name, date, payload);
+        }
+    }
+
     fn set_parsed_value(
         payload_type: &[u8],
         key: &str,
-- 
2.43.0


From e65b2c9b8fb9c513397df8d674c23b9de490b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:45 +0000
Subject: [PATCH 59/59] fix: alpha++ nfc does not lose places which differ only
 in the side of what extends them

---
 .../alpha_plus_plus_nfc_triple.rs                    | 12 +++---------
 .../alpha/alpha_plus_plus_nfc/extended_alpha_set.rs  |  9 ++-------
 2 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc_triple.rs b/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc_triple.rs
index 67224d9..2527fbc 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc_triple.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc_triple.rs
@@ -100,15 +100,9 @@ impl<'a> AlphaPlusPlusNfcTriple<'a> {
 
 impl<'a> Hash for AlphaPlusPlusNfcTriple<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let mut hash_classes = |set: &BTreeSet<&'a String>| {
-            for class in set {
-                state.write(class.as_bytes());
-            }
-        };
-
-        hash_classes(&self.a_classes);
-        hash_classes(&self.b_classes);
-        hash_classes(&self.c_classes);
+        self.a_classes.hash(state);
+        self.b_classes.hash(state);
+        self.c_classes.hash(state);
     }
 }
 
diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/extended_alpha_set.rs b/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/extended_alpha_set.rs
index 67a7a6b..e108142 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/extended_alpha_set.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/extended_alpha_set.rs
@@ -183,13 +183,8 @@ impl<'a> ExtendedAlphaSet<'a> {
 impl<'a> Hash for ExtendedAlphaSet<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.alpha_set.hash(state);
-        for left in &self.left_extension {
-            state.write(left.as_bytes());
-        }
-
-        for right in &self.right_extension {
-            state.write(right.as_bytes());
-        }
+        self.left_extension.hash(state);
+        self.right_extension.hash(state);
     }
 }
 
-- 
2.43.0

