#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (only properties with a module are emitted)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'src/python/ficus/legacy/'
G = 'src/python/ficus/grpc_pipelines/'
# id: title, statement, over, quantifier, why tests cannot, files, mechanisms[(name, where)], technique
P = {}


def p(pid, title, statement, over, quant, why, files, mech, tech, note):
    P[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note)


REF = 'runtime monitor: real code under generated workloads, every result judged online by '

p('P01', 'Saving a log as XES and reading it back loses nothing',
  'For every event log whose values are texts, whole numbers, floats, booleans or timestamps, saving it as XES to any writable path (new directories, bare file names, existing files) and reading it back yields the same traces, events, attribute keys, values and value types in the same order, and the same log attributes, extensions, classifiers, properties and typed global defaults. Values of other types are left out without disturbing the rest. A value is only left to a global default when it equals that default including its type.',
  ['inputs', 'histories'], 'all logs, metadata, target paths and repeated save/read generations',
  'tests round-trip a few fixed example logs with text names only and compare names, not types, metadata or paths',
  [L + 'log/functions.py', L + 'pipelines/serialization/pipeline_parts.py'], [('XES writer and reader', L + 'log/functions.py')],
  REF + 'a typed value-by-value round-trip oracle', 'values compared with type and time zone; texts limited to characters XML can carry')
p('P02', 'Reading a well-formed XES document yields exactly its content',
  'For every well-formed XES document, whatever its namespaces, encoding, comments, unknown elements, nested attributes or attribute spelling (numbers, booleans, dates with any offset), reading it yields exactly the traces and events of the document in order, each value with its declared type, global defaults filled in only where an element has no value of its own. Reading a missing file or a wrong input is reported, never a silent partial log.',
  ['inputs'], 'all well-formed XES documents', 'tests read two example files written by one tool',
  [L + 'log/functions.py', L + 'pipelines/start/start_parts.py'], [('XES reader', L + 'log/functions.py')],
  REF + 'an independent document generator that knows the expected content', 'documents come from a generator of XES features, not from real tools')
p('P03', 'Copies are faithful and independent; equality and hash follow content',
  'A copy of an event, trace or log has the same content including all metadata; no change to a deep copy is visible in the original or the other way round, and a shallow copy of a log has its own list of traces. Two events, traces or logs are equal exactly when their payloads and order of events are the same, equal objects have equal hashes, and different contents do not collide systematically. Events, traces and logs behave as the sequences and mappings they present themselves as.',
  ['inputs', 'histories'], 'all logs, all pairs of logs that differ minimally and all sequences of container operations',
  'tests compare a handful of three-event logs', [L + 'log/event_log.py', L + 'util.py'],
  [('copy and hash of events, traces, logs', L + 'log/event_log.py'), ('polynomial hashes', L + 'util.py')],
  REF + 'a structural model and aliasing probes', 'values that print the same count as the same content, as the library defines it')
p('P04', 'Conversion to and from pm4py keeps every event and shares nothing',
  'Converting a log to a pm4py log and back keeps all traces, events, keys, values and value types in order, and converting a pm4py log also keeps its attributes, extensions, classifiers, properties and trace attributes. The two logs share no mutable data afterwards.',
  ['inputs'], 'all logs', 'tests only convert as a step of discovery and look at the discovered net',
  [L + 'log/pm4py_converters.py'], [('converters', L + 'log/pm4py_converters.py')], REF + 'a value-by-value comparison and mutation probes', 'log level attributes are only carried from pm4py')
p('P05', 'Text notation of logs: parsing and writing are exact inverses',
  'Parsing text lines with any separator gives one trace per line and one event per item with exactly that name and order; writing a log lists exactly the names of its events in order, one line per trace. For names without the separator, parsing what was written gives the log back.',
  ['inputs', 'configurations'], 'all names, separators and logs', 'tests use the notation as a fixture with one separator',
  [L + 'log/functions.py'], [('parse and serialize functions', L + 'log/functions.py')], REF + 'an independent writer and reader', 'separators of 1-2 characters')
p('P06', 'Removing events or rare traces is exact and leaves the input alone',
  'Removing events by name, by several names or by a condition keeps exactly the events that do not match, in order, with their attributes, and drops exactly the traces left without events; filtering traces by number of events keeps exactly the traces with more events than the bound. The input log is never changed.',
  ['inputs', 'configurations'], 'all logs, names and conditions', 'tests remove one name from a small log',
  [L + 'mutations/event_log_mutations.py', L + 'pipelines/mutations/mutations_parts.py', L + 'pipelines/filtering/filter_parts.py'],
  [('removal functions', L + 'mutations/event_log_mutations.py')], REF + 'a list based reference', 'observed on tagged events, so identity and order are decided exactly')
p('P07', 'Traces are grouped by exactly their sequence of names',
  'Splitting a log by variants puts every trace in exactly one group, two traces in the same group exactly when their sequences of event names are equal; filtering by variants keeps exactly one trace of the log per variant. Merging all traces gives one trace with the events of all traces in order, each trace followed by a separator of its own.',
  ['inputs'], 'all logs, including traces and names that look alike', 'tests use a log with three variants',
  [L + 'analysis/event_log_split.py', L + 'pipelines/filtering/filter_parts.py', L + 'util.py'],
  [('split by traces', L + 'analysis/event_log_split.py')], REF + 'a grouping by exact name tuples', 'grouping relies on hashes in the code; collisions are searched by short and look-alike names')
p('P08', 'In-place rewrites change exactly what they promise',
  'Rewriting event names, events or event classes, removing lifecycle attributes and adding artificial start and end events changes exactly the promised attribute or events of every event of every trace, once, and nothing else. User functions are called exactly once per event, in order.',
  ['inputs', 'configurations'], 'all logs and rewrite functions', 'tests run each rewrite on one log',
  [L + 'mutations/event_log_mutations.py', L + 'pipelines/mutations/mutations_parts.py'], [('in-place mutations', L + 'mutations/event_log_mutations.py')],
  REF + 'a value level reference and call counting', 'rewrite functions are pure')
p('P09', 'Directly-follows counts and log statistics match the log',
  'For every log and set of ignored events, the numbers of traces, events, event classes, per-name counts and directly-follows pairs reported are exactly those of the log without the ignored events, in both directions of the relation. Computing them leaves the log unchanged.',
  ['inputs', 'configurations'], 'all logs and ignored sets', 'tests look at a few counts of one log',
  [L + 'analysis/event_log_info.py'], [('log info creation', L + 'analysis/event_log_info.py')], REF + 'direct counting', 'exact')
p('P10', 'Directly-follows entropies equal their definition',
  'For every log and set of ignored events each event name gets exactly the entropy of its directly-follows and directly-precedes distributions (with or without Laplace smoothing) that the definition gives on the log without the ignored events; sums are the sums of these values. Values are finite and never negative.',
  ['inputs', 'configurations'], 'all logs, ignored sets and smoothing choices', 'tests have a few hand computed values',
  [L + 'analysis/event_log_analysis_entropy.py'], [('dfg entropy', L + 'analysis/event_log_analysis_entropy.py')], REF + 'a reference computation from the definition', 'tolerance 1e-9')
p('P11', 'Position entropies: fast, cached and plain computations agree',
  'For every log and set of ignored events the plain, the fast and the cached computation of position entropies give the same value per event name, namely the one of the definition on the log without the ignored events; sums, variance and deviation follow from these values.',
  ['inputs', 'configurations'], 'all logs with at least two non-empty traces and all ignored sets', 'tests compare a few values on fixed logs',
  [L + 'analysis/event_log_analysis_entropy.py'], [('position entropy', L + 'analysis/event_log_analysis_entropy.py')], REF + 'a reference computation and cross-checks', 'tolerance 1e-9; the measure is undefined for one trace')
p('P12', 'Entropy filters remove greedily as defined, respect limits and stop',
  'Each entropy filter removes, one at a time, exactly the event names the greedy definition picks, never a protected name, never more names than the limit, and stops at the threshold or when nothing may be removed; the result is the input log without the removed names and without empty traces. The filter always terminates and leaves the input log unchanged.',
  ['inputs', 'configurations'], 'all logs, thresholds, limits and protected names', 'tests filter a few logs with default settings',
  [L + 'filtering/event_log_filters.py', L + 'pipelines/filtering/filter_parts.py'], [('filters', L + 'filtering/event_log_filters.py')],
  REF + 'a non-deterministic greedy reference (all near-ties) with loop-step budgets', 'limit of at least one name')
p('P13', 'Tandem arrays found are exactly the repeated blocks of each trace',
  'For every trace, block length limit and event class function, the maximal tandem arrays reported are exactly the blocks that repeat directly one after another where they first occur, with the right start, length and number of repetitions; primitive arrays are exactly those whose block is not itself a repetition. Limits are respected and the log is unchanged.',
  ['inputs', 'configurations'], 'all traces, limits and class functions', 'tests have some ten short traces',
  [L + 'analysis/patterns/event_log_patterns.py'], [('tandem array search', L + 'analysis/patterns/event_log_patterns.py')], REF + 'brute force enumeration', 'traces up to 40 events')
p('P14', 'Maximal repeats found are exactly those of each trace',
  'For every trace and event class function the maximal repeats reported are exactly the sequences that occur at least twice and cannot be extended to the left or right without losing an occurrence, each reported once with a position where it occurs in that trace.',
  ['inputs', 'configurations'], 'all traces and class functions', 'tests have a few short traces',
  [L + 'analysis/patterns/event_log_patterns.py'], [('suffix array search', L + 'analysis/patterns/event_log_patterns.py')], REF + 'brute force enumeration', 'traces up to 35 events')
p('P15', 'Super- and near-super-maximal repeats are selected correctly',
  'Super-maximal repeats are exactly the maximal repeats that are not part of another one; near-super-maximal repeats are exactly the maximal repeats with at least one occurrence that is not inside an occurrence of another maximal repeat. Both hold for every trace and event class function. Adding all patterns cuts every trace from its start into adjacent parts, each the shortest one that no known pattern contains; only what is left at the end may be missing.',
  ['inputs', 'configurations'], 'all traces and class functions', 'tests have a few short traces',
  [L + 'analysis/patterns/event_log_patterns.py'], [('selection of repeats', L + 'analysis/patterns/event_log_patterns.py')], REF + 'brute force selection', 'traces up to 30 events')
p('P16', 'Activities are exactly the event sets of the patterns, nested by inclusion',
  'The activities discovered from any kind of patterns are exactly the distinct sets of events of those patterns; the forest nests every activity directly below a smallest one that strictly contains it and has as roots exactly the sets no other contains. Names and levels of activities follow their events and the requested level.',
  ['inputs', 'configurations'], 'all logs, pattern sources and event classes', 'tests compare the graph of two logs with stored text',
  [L + 'analysis/patterns/patterns_models.py', L + 'analysis/patterns/event_log_patterns.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
  [('repeat set tree', L + 'analysis/patterns/patterns_graphs.py')], REF + 'brute force pattern sets and the inclusion order', 'ties between equally good parents are accepted either way')
p('P17', 'Activity instances are disjoint, ordered and cover exactly known events',
  'For every log and activity forest, the instances found in a trace are in order, do not overlap, contain only events of their activity, and an event belongs to some instance exactly when some activity knows it (before filters); narrowing picks the smallest activity that contains the events of the instance, and filters keep exactly the accepted instances. Instances are found by the documented left to right scan whatever log the activities came from.',
  ['inputs', 'configurations'], 'all logs, forests, narrowing and filter choices', 'tests look at one or two logs',
  [L + 'analysis/patterns/event_log_patterns.py', L + 'pipelines/analysis/patterns/patterns_parts.py'], [('instance search', L + 'analysis/patterns/event_log_patterns.py')],
  REF + 'a reference scan plus coverage and disjointness invariants', 'forest as decided by P16')
p('P18', 'Abstracting a log by activities keeps every event, in order',
  'Replacing activity instances by activity events gives one event per instance and, according to the chosen strategy, every unattached event as it was or none at all; expanding the activity events back gives exactly the events of the original trace, in order, nothing lost, duplicated or shared. The original log and the instances are unchanged.',
  ['inputs', 'configurations'], 'all logs, activities and strategies', 'tests compare names of one abstracted log',
  [L + 'analysis/patterns/event_log_patterns.py', L + 'mutations/event_log_mutations.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
  [('creation of new log from instances', L + 'analysis/patterns/event_log_patterns.py')], REF + 'conservation of tagged events', 'each event carries a unique tag')
p('P19', 'Adjusting activities at further levels only adds non-overlapping instances',
  'Adjusting a trace with activities of another level or condition keeps every earlier instance as it is and adds only instances inside the gaps that were left; the activities list grows by exactly the newly added activities and no other context sees the change. Multi-level discovery applies the levels in the given order.',
  ['inputs', 'histories', 'configurations'], 'all logs, sequences of adjustments and conditions', 'tests run one adjustment',
  [L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'pipelines/analysis/high_level.py'], [('adjusting and multi-level parts', L + 'pipelines/analysis/patterns/patterns_parts.py')],
  REF + 'before/after comparison of contexts per step', 'forest as decided by P16')
p('P20', 'Discovering until no more activities converges and conserves events',
  'Repeating discovery until no new activities appear always terminates; the final log expands to exactly the original events, every round works on the log of the round before, and the stop happens exactly when a round finds no instance or does not shorten the log.',
  ['inputs', 'histories', 'configurations'], 'all logs and settings', 'tests run it once on an example log',
  [L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'pipelines/analysis/high_level.py'], [('until-no-more loop', L + 'pipelines/analysis/patterns/patterns_parts.py')],
  REF + 'conservation of tagged events and loop-step budgets', 'bounded logs')
p('P21', 'Per-activity logs contain exactly the instances of each activity',
  'Splitting a log by activities gives for every activity a log whose traces are exactly the events of its instances, in order of occurrence; with promotion nested activities take part as the setting defines. Nothing is lost, duplicated or assigned to the wrong activity.',
  ['inputs', 'configurations'], 'all logs, activities and strategies', 'tests look at the number of logs',
  [L + 'analysis/patterns/event_log_patterns.py', L + 'pipelines/analysis/patterns/patterns_parts.py'], [('activity log creation', L + 'analysis/patterns/event_log_patterns.py')],
  REF + 'an assignment computed from the instances on tagged events', 'promotion checked for activities of the same log')
p('P22', 'Class trees and graphs of activities contain exactly their relations',
  'For every log the event class tree groups, layer by layer, exactly the classes of its events under the class of the next coarser layer; the class graph and the activity graph built, drawn, serialized or rendered have exactly one node per class or activity with its name and exactly one edge per parent and child, with or without a root. This holds for every name the library accepts, including ones with separators or colons.',
  ['inputs', 'configurations'], 'all logs, class functions, names, and all drawing and file settings', 'tests look at the number of nodes for one log',
  [L + 'analysis/patterns/patterns_graphs.py', L + 'pipelines/analysis/patterns/patterns_graph_parts.py', L + 'analysis/patterns/event_log_patterns.py'],
  [('graph building and drawing', L + 'analysis/patterns/patterns_graphs.py')], REF + 'reading the emitted graph back with Graphviz and comparing it with a reference forest', 'names with Graphviz markup are excluded')
p('P23', 'Pipelines run their parts in order and isolate contexts as declared',
  'For every nesting of sequential, parallel, copying, temporary-input, conditional and per-activity pipelines, every part runs exactly as often and in the order the nesting declares, sees exactly the context the parts before it produced, and the resulting context is the declared one; pipelines can be edited and run again without remembering earlier runs. Anything that is not a part, and any wrong or missing context value, is refused.',
  ['inputs', 'histories', 'configurations'], 'all nestings, contexts, edits and repeated runs', 'tests run fixed short pipelines',
  [L + 'pipelines/pipelines.py', L + 'pipelines/contexts/accessors.py', L + 'pipelines/contexts/contexts.py', L + 'pipelines/start/start_parts.py'],
  [('pipeline combinators', L + 'pipelines/pipelines.py'), ('context accessors', L + 'pipelines/contexts/accessors.py')],
  'runtime monitor: recorded execution history of probe parts judged by an interpreter of the combinators', 'user parts only touch the context they get')
p('P25', 'Trace diagrams and histograms show exactly the log',
  'Every trace, placement, activity or pattern diagram has one row per trace and one rectangle per event, instance or gap at the right position, of the right length and colour, with a legend that names exactly what is drawn; histograms show exactly the per-name or per-length values of the log. A diagram is saved exactly to the requested path, or shown when no path is given, and titles, axis ends and scales are as requested.',
  ['inputs', 'configurations'], 'all logs, instances, scales, legends and save paths', 'tests never look into a figure',
  [L + 'analysis/event_log_analysis.py', L + 'analysis/patterns/patterns_graphs.py', L + 'pipelines/analysis/analysis_parts.py'],
  [('coloured log drawing', L + 'analysis/event_log_analysis.py'), ('activity diagrams', L + 'analysis/patterns/patterns_graphs.py')],
  'runtime monitor: figures recorded at the matplotlib boundary, judged rectangle by rectangle against the log', 'pixels are not looked at')
p('P26', 'Colours tell things apart and stay the same across diagrams',
  'Within one pipeline run every event name and activity is drawn in one colour in all diagrams, two different names never share a colour, and none has the colour reserved for what is not highlighted or undefined; a colour provider never hands out the same colour twice before it is reset. This holds for every sequence of random numbers.',
  ['inputs', 'histories', 'configurations'], 'all logs, sequences of diagrams and random sequences', 'collisions have a probability of about one in a million per test run',
  [L + 'util.py', L + 'analysis/event_log_analysis.py', L + 'analysis/patterns/patterns_graphs.py', L + 'pipelines/analysis/analysis_parts.py'],
  [('colour provider', L + 'util.py')], 'runtime monitor with fault injection: hostile random source, recorded figures of a run judged together', 'runs without nested pipelines')
p('P27', 'Drawings of Petri nets and graphs contain exactly the net or graph',
  'Drawing a Petri net gives exactly one node per place and transition with its identity, shape, label and marking and one arc per arc of the net in its direction with its annotation; drawing a graph gives exactly its nodes and edges with their labels. The drawing is exported exactly to the requested path, creating directories when needed, or shown.',
  ['inputs', 'configurations'], 'all nets, graphs, markings, annotations and paths', 'no test draws a net',
  [L + 'discovery/petri_net.py', L + 'discovery/graph.py'], [('net drawing', L + 'discovery/petri_net.py'), ('graph drawing', L + 'discovery/graph.py')],
  REF + 'reading the drawing back with Graphviz', 'labels with Graphviz markup are excluded')
p('P28', 'Canvas diagrams show exactly the coloured log',
  'For every coloured log, scale, title and legend setting the canvas diagram has one rectangle per coloured event in its row, order, colour and size, all inside the canvas, axis texts with the number of traces and the longest trace, and a legend with one entry of the right colour per name. With a save path exactly the latest image of the canvas is written to it, otherwise the canvas is shown.',
  ['inputs', 'configurations', 'schedules'], 'all coloured logs and settings, and all arrivals of image data', 'no test draws on a canvas',
  [L + 'analysis/event_log_analysis_canvas.py'], [('canvas drawing', L + 'analysis/event_log_analysis_canvas.py')],
  'runtime monitor: drawing operations recorded at the ipycanvas boundary, judged against the log', 'one pixel tolerance at the canvas border')
p('P24', 'Analyses, reports and drawings never change what they look at',
  'Running any analysis, report, drawing, discovery, conversion or serialization leaves every log, activity, pattern, tree and graph of the context exactly as it was; filters replace the log of the context but never change the old one or its events. Repeating an analysis after any others gives the same answer again.',
  ['inputs', 'histories', 'configurations'], 'all logs and sequences of analyses', 'tests look at results, never at what was passed in',
  [L + 'pipelines/analysis/analysis_parts.py', L + 'analysis/event_log_analysis.py', L + 'analysis/event_log_info.py', L + 'analysis/event_log_analysis_entropy.py',
   L + 'analysis/event_log_split.py', L + 'analysis/patterns/patterns_graphs.py', L + 'pipelines/filtering/filter_parts.py', L + 'log/pm4py_converters.py'],
  [('analysis parts', L + 'pipelines/analysis/analysis_parts.py'), ('filter parts', L + 'pipelines/filtering/filter_parts.py')],
  'runtime monitor: deep pictures of every context object taken around each step of random histories', 'functions given by the user are pure')
p('P29', 'Discovered nets are those of the log, with its start and end',
  'Discovering a Petri net through the pipeline gives, for every log, exactly the net and the initial and final marking the mining algorithm gives for the traces of that log with the requested thresholds; the net of the inductive miner replays every trace of the log. Drawing it to a path or to the screen shows that net, and nothing else in the context changes.',
  ['inputs', 'configurations'], 'all logs, algorithms and thresholds', 'no test discovers a net through the pipeline',
  [L + 'pipelines/discovery/discovery_parts.py', L + 'log/pm4py_converters.py'], [('discovery parts', L + 'pipelines/discovery/discovery_parts.py')],
  REF + 'the mining library run on an independently built log, and token replay', 'the mining library itself is trusted')
p('P36', 'Printed reports and saved listings state exactly the data',
  'Every report a pipeline prints or saves (activities and their instances, unattached events and their percentage, names, hashes, indices, log information before and after, directly-follows relations, underlying event counts) states exactly the content of the log and activities it was asked about, complete and in order. Files are written exactly to the requested place.',
  ['inputs', 'configurations'], 'all logs, activity forests and instances', 'tests never read printed text',
  [L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'pipelines/analysis/analysis_parts.py', L + 'analysis/patterns/event_log_patterns.py'],
  [('printing parts', L + 'pipelines/analysis/patterns/patterns_parts.py')], 'runtime monitor: captured output and files compared with text computed from the data', 'paths are writable')
p('P30', 'Values cross the border between Python and the backend unchanged',
  'Every value the client puts into a request (texts, numbers, booleans, enumerations, lists, name and hash logs, log information, pipelines) is read by the backend exactly as it was given, falsy values and empty traces included. Every value of the backend (name logs, coloured logs, log information, Petri nets with markings, annotations, datasets with labels, graphs) becomes the Python object with exactly that content, order and identity of elements.',
  ['inputs'], 'all values of every kind of the protocol', 'no test converts a value of the protocol',
  [G + 'context_values.py', G + 'grpc_pipelines.py'], [('value conversions', G + 'context_values.py')],
  REF + 'message classes compiled from the .proto files and an element-by-element comparison', 'floats compared with single precision')
p('P31', 'Every client part asks the backend for exactly what it was configured to do',
  'Every pipeline part of the client, constructed in any way its signature allows and nested in any way, is encoded as the request the backend understands under that name, with every setting under its key and in its type, defaults as documented, unset optional settings absent, exactly the context values its callback needs, and its own identity. Encoding twice gives the same request, and parts never share settings.',
  ['inputs', 'configurations', 'histories'], 'all parts, settings and nestings', 'no test encodes a part',
  [G + x for x in ('activities_parts.py', 'discovery_parts.py', 'drawing_parts.py', 'filtering_parts.py', 'mutation_parts.py', 'patterns_parts.py', 'util_parts.py', 'xes_parts.py', 'constants.py')],
  [('part encoders', G + 'activities_parts.py'), ('wire names', G + 'constants.py')],
  REF + 'a table of the contract derived from the backend sources', 'the contract table is hand-made from the Rust sources')
p('P32', 'Executing a client pipeline follows the protocol, whatever the backend answers',
  'Executing a client pipeline sends it and the initial context exactly once to the backend the user named, calls back exactly the parts (also nested ones) whose results arrive, in order, each with its values, prints every log message, and returns the final result; a successful execution is released exactly once and only then, a failed one never. Broken streams, unreachable backends and errors of callbacks are reported, connections are closed, and concurrent or repeated executions never see each other.',
  ['schedules', 'faults', 'histories', 'inputs'], 'all pipelines, all streams of answers, failures, late messages and concurrent executions', 'no test runs a client pipeline',
  [G + 'grpc_pipelines.py', G + 'util_parts.py', G + 'activities_parts.py'], [('execution loop', G + 'grpc_pipelines.py')],
  'runtime monitor with fault injection: a scripted gRPC server on loopback records the session; an oracle judges the recorded history against the script', 'streams carry at least one message')
p('P33', 'What the client shows, prints and saves is what the backend answered',
  'Whatever a backend answers to the parts of a pipeline, each answer leads to exactly the figure, canvas, graph, net, dataset plot or printed text of that answer with the settings of the part it belongs to, in the order of the answers, at the place the part names (screen or file). Parts that are not answered, and visualisations switched off, show nothing.',
  ['inputs', 'histories', 'configurations'], 'all answers, settings, nestings and orders of answers', 'no test runs a callback',
  [G + 'grpc_pipelines.py', G + 'activities_parts.py', G + 'discovery_parts.py', G + 'drawing_parts.py', G + 'util_parts.py'],
  [('callbacks', G + 'grpc_pipelines.py'), ('net callbacks', G + 'discovery_parts.py'), ('dataset callbacks', G + 'activities_parts.py')],
  'runtime monitor: effects recorded at library boundaries while a scripted backend answers, compared with the same answers drawn directly', 'the drawing functions are judged by P25, P27, P28 and P35')
p('P34', 'The Python message models speak the protocol of the .proto files',
  'For every message of the protocol and every content, what the Python models of the client serialize is what the .proto files define (names, numbers, types, cardinality and one-of groups) and the other way round, so that client and backend understand each other. The services and methods the client stubs call are those the files define.',
  ['inputs'], 'all messages of the protocol', 'the generated models are never compared with their definition',
  [G + 'models/pipelines_and_context_pb2.py', G + 'models/pm_models_pb2.py', G + 'models/util_pb2.py', G + 'models/backend_service_pb2.py', G + 'models/backend_service_pb2_grpc.py'],
  [('generated models', G + 'models/pipelines_and_context_pb2.py')],
  'runtime monitor: random messages exchanged as bytes with classes compiled from the .proto files at check time', 'serialization by the protobuf library is trusted')
p('P35', 'Dataset plots show every row once, in the colour of its cluster',
  'For every dataset and each of the four projection methods in one, two or three dimensions, exactly the values of the dataset without its label column are projected, and every row is drawn exactly once at its projected place, named and coloured after its cluster, white if the cluster has no colour. Legend, axes, view, size and the place where the plot is shown or saved are as requested, and the dataset is not changed.',
  ['inputs', 'configurations'], 'all datasets, labels, colours, methods and settings', 'no test plots a dataset',
  [L + 'analysis/event_log_analysis.py'], [('dataset visualisation', L + 'analysis/event_log_analysis.py')],
  'runtime monitor: calls recorded at the scikit-learn and matplotlib boundaries, judged point by point', 'the projections themselves are trusted')
R = 'src/rust/ficus_backend/src/'
p('P37', 'Backend: the patterns found in a log are exactly its repeated parts',
  'For every log, the backend reports as tandem arrays exactly the immediately repeated units of at least two events and less than the requested limit, each once at its first repetition and with their number of repetitions, as primitive ones those whose unit is not itself repetitive, and as maximal, super-maximal and near-super-maximal repeats only parts of a trace that occur at least twice and that no occurrence-preserving extension explains, with every reported position an actual occurrence, and no such part of a trace missing. Searching a pattern finds exactly its occurrences. Repeat sets group patterns by exactly their set of activities and the activity tree contains every repeat set once, a child only below an activity that has all of its event classes and more; an activity is on top exactly if no larger one contains it.',
  ['inputs', 'configurations'], 'all logs, pattern kinds and class extractors, per trace and merged', 'the backend tests (which need files that are not in the repository) look at a dozen fixed traces',
  [R + 'utils/suffix_tree/suffix_tree_build.rs', R + 'utils/suffix_tree/suffix_tree_repeats.rs', R + 'utils/suffix_tree/suffix_tree_patterns.rs', R + 'features/analysis/patterns/tandem_arrays.rs', R + 'features/analysis/patterns/repeats.rs', R + 'features/analysis/patterns/repeat_sets.rs'],
  [('suffix tree', R + 'utils/suffix_tree/suffix_tree_build.rs'), ('tandem arrays', R + 'features/analysis/patterns/tandem_arrays.rs'), ('repeat sets and activity tree', R + 'features/analysis/patterns/repeat_sets.rs')],
  REF + 'a brute force enumeration of all parts of all traces', 'the backend is built from its sources with stand-ins for the crates that are not in the sandbox')
p('P38', 'Backend: activity instances and derived logs account for every event',
  'For every log, tree of activities and setting, the activity instances found in a trace are ordered, disjoint, inside the trace and contain only events of their activity; narrowing gives the smallest activity that explains the instance and filtering keeps exactly the instances that are large enough. The abstracted log replaces every instance by its activity and handles the other events as the chosen strategy says; logs created per activity hold exactly the events of its instances. A discovered activity is named after the events of its pattern, and two events are of one class exactly if their names (or the parts the expression matches) are equal.',
  ['inputs', 'configurations'], 'all logs, activity trees, narrowing and filter kinds and undefined-activity strategies', 'the backend tests check a few fixed logs with one setting each',
  [R + 'features/analysis/patterns/activity_instances.rs', R + 'features/analysis/patterns/contexts.rs'], [('instances', R + 'features/analysis/patterns/activity_instances.rs')],
  REF + 'a recomputation from the log and the tree of activities', 'the backend is built from its sources with stand-ins for the crates that are not in the sandbox')
p('P39', 'Backend: statistics, entropies and changes of a log follow its events',
  'For every log and history of changes (removal by name, names or expression, renaming, artificial start and end events, removal of traces, appended events, copies), the backend log holds exactly the events the changes leave, in order, and its event counts, directly-follows relation and graph, start and end classes, entropies, variants and class hashes are those of a recount at that moment, however often they were asked for before.',
  ['inputs', 'histories'], 'all logs and sequences of changes and questions', 'the backend tests apply one change to one fixed log',
  [R + 'features/analysis/event_log_info.rs', R + 'features/analysis/entropy/dfg_entropy.rs', R + 'features/mutations/filtering.rs', R + 'features/mutations/mutations.rs', R + 'features/mutations/split.rs', R + 'event_log/core/event/events_holder.rs', R + 'event_log/core/trace/traces_holder.rs'],
  [('log information', R + 'features/analysis/event_log_info.rs'), ('event and trace holders', R + 'event_log/core/event/events_holder.rs')],
  REF + 'a list based model of the log updated with every change', 'the backend is built from its sources with stand-ins for the crates that are not in the sandbox; floats compared with tolerance 1e-9')
STAND = 'the backend is built from its sources with stand-ins for the crates that are not in the sandbox'
D = R + 'features/discovery/'
p('P40', 'Backend: the alpha miners build the net their definition gives for the log',
  'For every log (empty and one-event traces and loops included), the alpha, alpha+ and alpha++ miners end without failing and return the net of their definition: one transition per event class, one place per maximal pair of sets of classes where every class of the first causes every class of the second and no two classes of one set are related, a start and an end place at exactly the classes that start and end traces, and one-length loops attached to the place between the classes around them. The nets do not depend on the order of traces, on the names of classes or on what was mined before. Alpha++ nfc returns for every log a net of all classes whose places are exactly the places of the alpha algorithm, extended by the classes that its relations of implicit dependency (W1, W2, W3) add, and those of the one-length loops.',
  ['inputs'], 'all logs', 'the backend tests compare a few fixed logs with stored nets',
  [D + 'alpha/alpha.rs', D + 'alpha/alpha_set.rs', D + 'alpha/utils.rs', D + 'alpha/providers/alpha_provider.rs', D + 'alpha/providers/alpha_plus_provider.rs', D + 'alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc.rs', D + 'alpha/alpha_plus_plus_nfc/extended_alpha_set.rs', D + 'alpha/providers/alpha_plus_nfc_provider.rs'],
  [('places', D + 'alpha/alpha.rs'), ('relations', D + 'alpha/providers/alpha_plus_provider.rs')],
  REF + 'an enumeration of all pairs of sets of classes, a computation of the relations and places of nfc over sets, and related runs', STAND + '; nfc is judged by structure and related runs only where its relation of remote succession depends on when it is decided')
p('P41', 'Backend: Petri net replay, annotations and PNML follow the token game',
  'For every Petri net and log, replay ends, fires only transitions whose input places hold enough tokens, fires for every trace it accepts visible transitions that are exactly its events (silent ones in between), and accepts every trace the net can produce. The counts of an arc account for exactly the replayed events, frequencies are these counts divided by their sum or by the number of traces, and nothing is annotated when a trace cannot be replayed and the caller asked to stop then. The PNML text is well-formed XML with exactly the places, transitions and arcs of the net; adding, connecting and deleting change exactly what they name.',
  ['inputs', 'configurations'], 'all nets (silent cycles, several arcs, several tokens, equal names), markings and logs', 'the backend tests replay a handful of fixed nets',
  [D + 'petri_net/replay.rs', D + 'petri_net/annotations.rs', D + 'petri_net/petri_net.rs', D + 'petri_net/marking.rs', D + 'petri_net/transition.rs', D + 'petri_net/pnml_serialization.rs'],
  [('replay', D + 'petri_net/replay.rs'), ('annotations', D + 'petri_net/annotations.rs'), ('PNML', D + 'petri_net/pnml_serialization.rs')],
  REF + 'a breadth first token game and an independent XML parser', STAND)
X = R + 'event_log/xes/'
p('P42', 'Backend: XES files are read, edited and written without loss',
  'For every XES document, also one cut off at any byte or with unreadable values, reading ends without failing and yields exactly the extensions, classifiers, globals, properties, traces and typed event attributes of the readable part (what is nested in an attribute, a list or a container is no attribute of these), with the global defaults filled in for what an event lacks and events without a name or a time left out. Changes of events (name, time, new and old attributes) are visible at once, and the written text is well-formed XML that reads back to the same log.',
  ['inputs', 'fault_sequences', 'histories'], 'all XES documents, cut points and edits', 'the backend tests read and write two fixture files',
  [X + 'reader/file_xes_log_reader.rs', X + 'writer/xes_event_log_writer.rs', X + 'xes_event.rs', X + 'xes_event_log.rs', X + 'shared.rs', R + 'utils/xml_utils.rs'],
  [('reader', X + 'reader/file_xes_log_reader.rs'), ('writer', X + 'writer/xes_event_log_writer.rs')],
  REF + 'the generator of the document and an independent XML parser', STAND + '; attributes of traces and nested attributes are not kept by this reader')
U = R + 'utils/'
p('P43', 'Backend: interval tree, sets, graph, distances, user data keep their contracts',
  'After every sequence of operations, the containers under the backend\'s algorithms answer like a plain list, set or table: the interval tree returns exactly the intervals that contain a point, overlap or lie inside an interval, ordered by their left end; pairs of sets and sets are equal exactly if their elements are, and union and subset are those of sets; a graph has exactly the nodes and edges that were added and not removed, knows its neighbours in both directions, and merging nodes keeps the sum of their outer edges; distances are those of their definition and the same in both directions; user data holds per key exactly the last value put and not removed, clones apart; colours of different names differ and never change.',
  ['inputs', 'histories'], 'all sequences of operations', 'the backend tests cover the interval tree and a few graph operations with fixed data',
  [U + 'interval_tree/interval_tree.rs', U + 'sets/two_sets.rs', U + 'sets/one_set.rs', U + 'graph/graph.rs', U + 'graph/graph_clusters.rs', U + 'distance/distance.rs', U + 'user_data/user_data.rs', U + 'colors.rs'],
  [('interval tree', U + 'interval_tree/interval_tree.rs'), ('graph', U + 'graph/graph.rs'), ('user data', U + 'user_data/user_data.rs')],
  REF + 'lists, sets and dictionaries that receive the same operations', STAND + '; values shared by clones are not edited in place')
p('P44', 'Backend: heuristic nets and fuzzy graphs follow their measures and thresholds',
  'For every log and all thresholds, the heuristic miner returns one transition per event class, a place after a class with exactly the followers whose dependency is above the threshold, observed often enough and close enough to the best, a silent transition for every largest group of followers that occur concurrently, and the arcs of length-two loops. The fuzzy miner keeps exactly the classes and directly-follows edges above their thresholds, resolves pairs of opposite edges by relative significance, drops incoming edges of low utility, and clusters exactly the insignificant classes that have a neighbour, each class in one node, with edges between nodes summed.',
  ['inputs', 'configurations', 'schedules'], 'all logs, time stamps and thresholds, whatever the order in which nodes are visited', 'the backend tests mine a few fixed logs with fixed thresholds',
  [D + 'heuristic/heuristic_miner.rs', D + 'heuristic/relations_provider.rs', D + 'fuzzy/fuzzy_miner.rs', D + 'fuzzy/fuzzy_metrics_provider.rs', D + 'alpha/utils.rs'],
  [('heuristic net', D + 'heuristic/heuristic_miner.rs'), ('fuzzy graph', D + 'fuzzy/fuzzy_miner.rs')],
  REF + 'the definitions of the measures and a search of all clusterings the rules allow', STAND)
G2 = R + 'grpc/'
Q = R + 'pipelines/'
WHOLE = 'the whole backend is built from its sources with stand-ins for the crates that are not in the sandbox (tonic, prost, bxes, linfa, ndarray and others); tokio is real'
p('P45', 'Backend: every request is answered as its pipeline says, whatever else happens',
  'For every history of requests (several at a time, slow or vanishing readers, invalid parts, settings, patterns and keys, parts that panic), every execution request ends with exactly one final result: success with an identifier, or an error that names what is missing or wrong. Before it, the stream holds the log messages and the values of every part that asked for them, in the order of the parts, each marked with the identifier of its part and equal to what the parts before it produce from the initial values; parts after a failed one are not run. A stored result can be asked for any value it holds until it is dropped, and requests never see values of each other.',
  ['histories', 'schedules', 'inputs'], 'all pipelines, initial values, settings and orders of requests', 'the backend tests never start the service or execute a pipeline',
  [G2 + 'backend_service.rs', G2 + 'converters.rs', G2 + 'get_context_pipeline.rs', G2 + 'logs_handler.rs', Q + 'pipelines.rs', Q + 'pipeline_parts.rs', Q + 'context.rs', Q + 'filtering_parts.rs', Q + 'mutations_parts.rs', Q + 'drawing_parts.rs', Q + 'util_parts.rs', Q + 'xes_parts.rs'],
  [('request handling', G2 + 'backend_service.rs'), ('conversion of values', G2 + 'converters.rs'), ('pipeline', Q + 'pipelines.rs')],
  REF + 'a model of parts, settings and stored results for every message of every stream', WHOLE)
p('P46', 'Backend: activities found, drawn, abstracted and expanded agree with the log',
  'For every log and all settings, the pipelines that discover patterns, activities and instances report diagrams whose rectangles cover every trace, where each instance holds only event classes of its activity, lies in a largest activity and is narrowed and filtered as asked; the abstracted log has one event per instance and the rest as the strategy says, expanding it gives the underlying events in order, and the pipeline per activity sees exactly the instances of the activity of that level. Discovery on several levels keeps earlier instances and adds new ones only where there is room; discovery until nothing more is found goes on exactly as long as the log becomes shorter, runs its pipeline after every round on the log of that round, and leaves no activities behind.',
  ['inputs', 'configurations'], 'all logs, kinds of patterns, strategies, levels, event classes, narrowing, filters and undefined-activity strategies', 'the backend tests never execute an activity part of a pipeline',
  [Q + 'activities_parts.rs', Q + 'patterns_parts.rs', Q + 'drawing_parts.rs', R + 'features/analysis/patterns/activity_instances.rs', R + 'features/analysis/patterns/entry_points.rs', R + 'features/analysis/patterns/repeat_sets.rs'],
  [('activities parts', Q + 'activities_parts.rs'), ('patterns parts', Q + 'patterns_parts.rs')],
  REF + 'a recomputation of activities, abstraction and rounds from the log and the reported values', WHOLE + '; half of the parts are written by the real Python client')
p('P47', 'Backend: pipelines mine, annotate and write the models their settings ask for',
  'For every log (sent as a message or read from a file) and all settings, the patterns, Petri nets, fuzzy graphs, annotations and files a pipeline answers with are those that the definitions of repeats, tandem arrays, the alpha family, heuristic and fuzzy mining, token replay and PNML give for that log and those settings, each under its own key and kind; annotating changes no net, fails exactly if a trace cannot be replayed and that was asked for, and two annotations of one context agree. An added initial marking is one token on a new place before the transitions of the first events, keeps the rest of the net, and replay starts from it. A model that cannot be written is reported.',
  ['inputs', 'configurations'], 'all logs, parts and settings', 'the backend tests call the miners directly and never a part of a pipeline',
  [Q + 'discovery_parts.rs', Q + 'annotations_parts.rs', Q + 'patterns_parts.rs', G2 + 'converters.rs', D + 'petri_net/replay.rs', D + 'petri_net/annotations.rs'],
  [('discovery parts', Q + 'discovery_parts.rs'), ('annotation parts', Q + 'annotations_parts.rs'), ('conversion of nets', G2 + 'converters.rs')],
  REF + 'the definitions used for P37, P40, P41 and P44, applied to what the service sends', WHOLE + '; half of the parts are written by the real Python client')
C = R + 'features/clustering/'
p('P48', 'Backend: clusters of activities and traces follow their dataset and the log',
  'For every log, abstracted log and setting, the dataset of activities has one row per activity of the level in the order of the names and one column per event class, and counts the events (or classes, or deepest underlying events) of the occurrence the activity was made from, each column brought to the range from 0 to 1; the dataset of traces does so for the events, the parts or the deepest parts of each trace, or codes them in order for the edit distance. Density clusters are those of their definition for the distance, tolerance and size asked for, noise has label 0, k-means gives at most the clusters asked for and equal objects equal labels, every label has one colour, and what cannot be clustered is reported. The instances of clusters with several activities become one activity with the name and colour of their label, contiguous ones one instance, others stay, and the abstracted log follows; the pipeline of the traces is executed once per cluster on exactly its traces, and no cluster changes the log.',
  ['inputs', 'configurations'], 'all logs, levels, sources, distances and thresholds', 'the backend tests cover three distances and never a dataset, a clustering or a part of a pipeline',
  [C + 'activities/activities_common.rs', C + 'activities/merging.rs', C + 'activities/dbscan.rs', C + 'activities/k_means.rs', C + 'traces/dbscan.rs', C + 'common.rs', Q + 'activities_parts.rs', G2 + 'converters.rs'],
  [('datasets of activities', C + 'activities/activities_common.rs'), ('merging', C + 'activities/merging.rs'), ('clusters of traces', C + 'traces/dbscan.rs')],
  REF + 'a recount of the events, the definition of density clusters and a replay of the merging', WHOLE + '; the algorithms of the clustering library are stand-ins, a density clustering is judged where no distance is near the tolerance')
BX = R + 'event_log/bxes/'
p('P49', 'Backend: logs written as XES or BXES by a pipeline are read back whole',
  'For every log that a pipeline read from an XES or BXES file, made from names, changed (filtered, renamed, extended by artificial events) or abstracted, the file written as XES or BXES holds exactly its traces (XES leaves out empty ones), events, names, times and typed attributes, its extensions, classifiers, properties and defaults, and reading that file in another pipeline and writing it again in either format yields the same log, any number of times; a BXES variant counts as the number of traces it stands for, and an attribute that is not stored because it equals a default is there again after reading. Events that the backend makes have times that both formats can hold, an artificial start not after and an artificial end not before the events of its trace, and events of an abstracted log that are no activities keep name, time and attributes. A date or a scope that BXES does not have, a file that is missing, broken or cannot be written, and a missing path or log end the request with an error that says so, writing never changes the log, and requests that write at the same time do not mix their logs.',
  ['inputs', 'histories', 'fault_sequences'], 'all logs, changes, chains of formats and faults of files', 'the backend tests read and write fixture files once and never touch BXES',
  [Q + 'xes_parts.rs', BX + 'bxes_to_xes_converter.rs', BX + 'xes_to_bxes_converter.rs', BX + 'conversions.rs', X + 'writer/xes_event_log_writer.rs', X + 'reader/xes_log_trace_reader.rs', X + 'xes_event.rs', Q + 'util_parts.rs'],
  [('parts', Q + 'xes_parts.rs'), ('BXES', BX + 'xes_to_bxes_converter.rs'), ('made events', X + 'xes_event.rs')],
  REF + 'a model of the log, an independent XML parser and a reader of the stand-in format', WHOLE + '; the BXES library is a stand-in with a file format of its own, so only what is handed to it and taken from it is judged')
