"""The properties of PM-IDE/Ficus: the source of properties.jsonl, MANIFEST.json and the table in DESIGN.md
(run tools/mkdocs.py after a change)."""
P = []
G = 'src/python/ficus/grpc_pipelines/'
L = 'src/python/ficus/legacy/'
RS = 'src/rust/ficus_backend/src/'
VF = 'value-flow analysis: normal form of the code compared with the normal form of a specification'
VF_NOTE = 'Every obligation is decided for all argument values from the AST of the current sources; ' \
          'paths the analyser cannot interpret are left undecided and listed in the evidence. Trusted: the analyser, ' \
          'the specifications, the stated behaviour of library calls.'


def p(id, title, statement, over, text, why, files, mech, how, technique=VF, note=VF_NOTE, level='proof', observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  how=how, technique=technique, note=note, level=level, observe=observe or []))


p('C01', 'Every client pipeline part asks the backend for the operation it is named after',
  'Every pipeline part of the remote client, whatever its options, is sent to the backend as the operation the '
  'part is documented to perform, and that operation exists in the backend. Two different parts that stand for '
  'different operations are never sent under each other\'s name.',
  ['inputs', 'programs'], 'all parts of the client and all option values, including options that select between operations',
  'The unit tests never talk to a backend and do not build most parts; a wrong operation name only shows against a running service.',
  [G + 'constants.py', G + 'discovery_parts.py', G + 'drawing_parts.py', G + 'activities_parts.py', G + 'filtering_parts.py',
   G + 'mutation_parts.py', G + 'patterns_parts.py', G + 'util_parts.py', G + 'xes_parts.py', RS + 'pipelines'],
  [('part constructors and serialization to the wire message', G + 'grpc_pipelines.py'), ('operation names', G + 'constants.py'),
   ('backend registry of operations', RS + 'pipelines')],
  'Each part class is instantiated symbolically (all arguments unknown), its wire serialization is evaluated by the value-flow '
  'analysis, and the resulting operation name is compared with the reference table spec/wire_ref.py / wire_parts; the name must '
  'also be registered by the Rust sources (parsed from the backend sources).')
p('C02', 'Options of client pipeline parts reach the backend unaltered',
  'Every option a user gives a client pipeline part arrives in the request under the key, and with the type, the '
  'backend reads for it and with the value the user gave; an option left out that has no value is absent from the request. '
  'Options are never swapped with each other, dropped, or overwritten by a constant.',
  ['inputs', 'configurations'], 'all option values and all combinations of given and omitted options of every part',
  'No test constructs requests for most parts, and each part has a space of option combinations.',
  [G + 'activities_parts.py', G + 'discovery_parts.py', G + 'drawing_parts.py', G + 'filtering_parts.py', G + 'mutation_parts.py',
   G + 'patterns_parts.py', G + 'util_parts.py', G + 'xes_parts.py', G + 'context_values.py'],
  [('option to configuration helpers', G + 'context_values.py'), ('parts', G)],
  'Same symbolic instantiation as C01; the emitted configuration entries (key, value kind, value term, presence condition) must '
  'equal the reference table for each option.')
p('C03', 'Client requests match what the backend reads',
  'Every configuration value a client pipeline part sends is one the backend operation reads, under the same name and of '
  'the same kind, and every value the backend operation requires is sent. Values a client part asks back from the backend are values '
  'the backend knows by that name.',
  ['programs', 'configurations'], 'every client part against the backend operation it names',
  'Client and backend live in two languages and no test runs them against each other.',
  [G + 'constants.py', G + 'activities_parts.py', G + 'discovery_parts.py', RS + 'pipelines', RS + 'pipelines/keys'],
  [('context keys of the backend', RS + 'pipelines/keys'), ('client keys', G + 'constants.py')],
  'The Rust sources are tokenised for the registered operations, their context-key reads and the key table; each client part\'s '
  'symbolic wire message is matched against the reads of its operation (key name, value kind, required).',
  technique='cross-language contract analysis (Rust token analysis against value-flow of the Python client)')
p('C04', 'Client callbacks ask for the values they use and are told apart',
  'A pipeline part that handles results asks the backend for every value its handler reads, and its handler reads each '
  'value from the matching kind of result. The request carries the identity of that same part, so a result is delivered to the part that asked for it.',
  ['inputs', 'programs'], 'every callback part, all option values',
  'Handlers run only on backend results, which tests never deliver.',
  [G + 'grpc_pipelines.py', G + 'discovery_parts.py', G + 'drawing_parts.py', G + 'activities_parts.py', G + 'util_parts.py', G + 'xes_parts.py'],
  [('request of context values with part identity', G + 'grpc_pipelines.py'), ('handlers', G)],
  'For each callback part the keys requested on the wire are compared with the keys its handler reads (value flow of '
  'execute_callback), the oneof field read is compared with the kind the key has, and the uuid in the message must be the part\'s own.',
  technique='value-flow analysis with key/kind typing of handlers')
p('C05', 'Nested pipelines keep their order and their callbacks',
  'A pipeline is sent with exactly its parts, in order, and so is every pipeline nested in one of its parts, to any depth. '
  'Each part with a handler, at any depth, can be found by its identity when a result for it arrives.',
  ['programs', 'inputs'], 'pipelines of any length and nesting depth',
  'Tests build no nested client pipelines; nesting is unbounded.',
  [G + 'grpc_pipelines.py', G + 'context_values.py', G + 'discovery_parts.py', G + 'activities_parts.py'],
  [('conversion to the request', G + 'grpc_pipelines.py'), ('registration of handlers', G + 'grpc_pipelines.py')],
  'Specifications of Pipeline2 construction/serialization/registration (spec/runtime.py) plus a rule that every part holding a '
  'pipeline both sends it and forwards registration to it.')
p('C06', 'Each message of the result stream is dispatched exactly once to its part',
  'While a pipeline runs, every message of the result stream is handled in order: a delivered result goes to the part that asked for it with '
  'exactly the values received, log lines are shown, and a final failure or unknown message does not disturb the others. No message is lost or handled twice.',
  ['histories', 'inputs'], 'all sequences of messages the backend may stream',
  'Streams come from a live service; the tests have none, and their histories are unbounded.',
  [G + 'grpc_pipelines.py'], [('message loop', G + 'grpc_pipelines.py')],
  'The stream loop is summarised over an unknown message sequence and compared with the specified dispatch (spec/runtime.Stream).')
p('C07', 'A run owns its backend context and leaves the caller\'s data alone',
  'Running a client pipeline sends the given initial values and the session configuration, returns the final answer of the backend, and releases '
  'the backend context it obtained whenever the run succeeded. The initial values passed in by the caller are not changed by the run.',
  ['histories', 'inputs'], 'all result streams and all initial contexts',
  'Needs a live service and every ending of a run.',
  [G + 'grpc_pipelines.py'], [('session handling', G + 'grpc_pipelines.py')],
  'Specifications runtime.Request / runtime.Drop.')
p('C08', 'Values received from the backend are decoded without loss or mix-up',
  'Every value the client decodes from the backend (logs, colour logs, statistics, Petri nets, annotations, graphs, datasets) has in the decoded '
  'object every element of the message, in the same order, with each field taken from the field of the same meaning. Optional parts that are absent stay absent.',
  ['inputs'], 'all messages of the protocol',
  'Few decoders are tested, on single small messages.',
  [G + 'context_values.py', G + 'data_models.py', L + 'discovery/petri_net.py', L + 'discovery/graph.py'],
  [('decoders', G + 'context_values.py')], 'One specification per decoder (spec/wire_values.py, *In).')
p('C09', 'Values sent to the backend are encoded without loss or mix-up',
  'Every value the client can send (scalars, logs of hashes or names, log statistics, pipelines) is encoded into the variant of the message for its kind with all of '
  'its elements in order.',
  ['inputs'], 'all values of the client model', 'Encoders are not covered for all inputs by any test.',
  [G + 'context_values.py', G + 'data_models.py'], [('encoders', G + 'context_values.py')],
  'One specification per encoder (spec/wire_values.py).')
p('C10', 'What a client part shows is what it received, drawn with the options given',
  'A displaying part draws or prints the value it received, through the drawing routine for its kind, and every presentation option the user '
  'gave (title, file, legend, scales, names, annotation, background and the like) is the one used for the drawing.',
  ['inputs', 'configurations'], 'all received values and all option values of all displaying parts',
  'Displaying needs a backend result; no test invokes the handlers.',
  [G + 'drawing_parts.py', G + 'discovery_parts.py', G + 'activities_parts.py', G + 'util_parts.py', G + 'grpc_pipelines.py'],
  [('handlers', G)], 'One specification per handler (spec/callbacks.py): the trace of drawing calls and printed values.')
p('C11', 'The generated client messages agree with the protocol definition',
  'Every message, field, enumeration and service method of the protocol definition exists in the generated client code with the same number, type, multiplicity and '
  'streaming kind, and nothing else does.',
  ['programs'], 'all definitions of the protocol', 'No test compares generated code with the protocol.',
  ['protos', G + 'models'], [('generated descriptors', G + 'models')],
  'The .proto files are parsed; the serialized descriptors embedded in the generated modules are decoded from the source text (wire-format decoder, nothing is '
  'imported) and compared element by element; stubs are compared by method path, request/response type and streaming kind.',
  technique='descriptor analysis of generated code against the protocol sources')
p('C12', 'A local pipeline runs its parts in order, each on the result of the one before',
  'A local pipeline runs exactly the parts it was built from, in their order, each part getting what the part before it returned, and the result of the last '
  'part is the result of the run. Things that are not pipeline parts are rejected when the pipeline is built, and a pipeline starts from the log of the given file or the given log.',
  ['programs', 'inputs'], 'pipelines of any length, any contexts', 'Tests run a few fixed pipelines; composition is unbounded.',
  [L + 'pipelines/pipelines.py', L + 'pipelines/start/start_parts.py', L + 'pipelines/contexts/accessors.py'],
  [('pipeline and parts', L + 'pipelines/pipelines.py')],
  'Specifications in spec/legacy_pipelines.py: construction, editing, running (loops over an unknown list of parts, and unrolled pipelines of two and three parts).')
p('C13', 'Branches of a local pipeline work on copies and cannot disturb each other',
  'Parallel branches each get their own copy of the incoming context, and an inner pipeline run for its side effects works on a copy while the incoming context is passed on. '
  'A conditional inner pipeline runs exactly if its condition holds, and an inner pipeline on a temporary input has its result merged with the original input.',
  ['programs', 'histories'], 'any branches and contexts', 'Interference shows only when a branch mutates its context, which the tests do not do.',
  [L + 'pipelines/pipelines.py', L + 'pipelines/contexts/part_results.py'], [('branching parts', L + 'pipelines/pipelines.py')],
  'Specifications over the effect trace; the context handed to each branch must be a fresh copy (alias analysis of the context and its container).')
p('C14', 'Every value of a pipeline context is read back from its own slot',
  'Each accessor of the local pipeline context stores its value under a slot of its own and reads back the value last stored there, whatever else is stored. Asking for a '
  'mandatory value that was never stored is an error rather than a wrong value, and storing returns the same context.',
  ['inputs', 'histories'], 'all contexts and stored values', 'Cross-talk of slots needs combinations of accessors.',
  [L + 'pipelines/contexts/accessors.py', L + 'pipelines/contexts/part_results.py', L + 'pipelines/contexts/keys.py'],
  [('accessors', L + 'pipelines/contexts/accessors.py')], 'Specifications in spec/legacy_pipelines.py (store all, read all).')
p('C15', 'Analyses and out-of-place operations leave the input log unchanged',
  'Removing events, filtering, dropping empty traces and computing statistics leave every trace, event and attribute of the log they are '
  'given as it was, and the result does not share mutable structure with the input when the operation is documented as returning a new log.',
  ['inputs'], 'all logs, all arguments', 'Tests compare results, not the input afterwards, on few logs.',
  [L + 'mutations/event_log_mutations.py', L + 'filtering/event_log_filters.py', L + 'analysis/event_log_info.py'],
  [('log functions', L + 'mutations/event_log_mutations.py')], 'The specifications name no write to the argument; any extra write in the code\'s effect trace is a difference.')
p('C16', 'Event and trace filters keep exactly what they should',
  'Removing events by a predicate or a set of names, removing empty traces, filtering traces and renaming events affect exactly the events or traces '
  'that satisfy the condition, and keep all others, in their order, with their attributes.',
  ['inputs'], 'all logs and predicates', 'Tests use a handful of logs.',
  [L + 'mutations/event_log_mutations.py', L + 'filtering/event_log_filters.py'],
  [('mutations', L + 'mutations/event_log_mutations.py')], 'Specifications in spec/mutations.py.')
p('C17', 'Entropy-driven filters remove extreme events in order and spare protected ones',
  'Each entropy-driven filter removes one event class at a time, the one with the extreme entropy among those that are not protected, and stops once the entropy '
  'is at or below the threshold or the maximum number of classes was removed. Protected classes are never removed, and the returned log is the input without the removed classes.',
  ['inputs'], 'all logs, protected sets and thresholds', 'Tests check a few stored logs.',
  [L + 'filtering/event_log_filters.py'], [('entropy filters', L + 'filtering/event_log_filters.py')],
  'Specifications in spec/entropy_filters.py; the entropy numbers themselves are opaque.')
p('C20', 'Copies of events, traces and logs are complete, equal and independent',
  'Copying an event, trace or log yields an object with the same name, timestamps, attributes, traces and global values, '
  'and changing one of them through its interface is not visible in the other. Reading, writing, counting, iterating and comparing go by the stored contents.',
  ['inputs', 'histories'], 'all logs and all later modifications', 'Aliasing shows only after particular later writes.',
  [L + 'log/event_log.py', L + 'util.py'], [('log model', L + 'log/event_log.py')], 'Specifications in spec/log_model.py compare the object graph of the result, including which parts are fresh.')
p('C18', 'Reading a XES file or strings keeps all traces, events and attributes in order',
  'The log read from a XES file has one trace per trace element and one event per event element, in document order, with every string, date, int, float and boolean attribute converted by its kind, '
  'the declared defaults for attributes a trace or event does not give, and all log attributes, extensions, classifiers and globals; XML namespaces do not matter and a missing file is an error. '
  'A log built from strings has one trace per string and one event per piece.',
  ['inputs'], 'all XES documents and strings', 'Tests read a few stored files.',
  [L + 'log/functions.py'], [('reader', L + 'log/functions.py')], 'Specifications in spec/xes.py over the sequences of elements; ElementTree is modelled by the shape of its objects.')
p('C19', 'Writing a log keeps all traces, events and attributes in order',
  'The XES text of a log has all log attributes, extensions, classifiers, properties and globals, one trace element per trace and one event element per event, in order, with every attribute '
  'of a supported kind under the tag of its kind, and only values equal to the declared default of their scope are left out. '
  'The text forms of logs list the names of events with exactly one separator between neighbours.',
  ['inputs'], 'all logs', 'Tests write a few logs.',
  [L + 'log/functions.py'], [('writer', L + 'log/functions.py')], 'Specifications in spec/xes.py compare the tree of elements that is built.')
p('C21', 'Conversion to and from pm4py keeps all traces and events and shares nothing',
  'Converting a log from or to pm4py yields one trace per trace and one event per event, in order, with equal attributes for each event. '
  'Converting from pm4py keeps trace attributes and log level data too, and nothing mutable is shared between the two logs.',
  ['inputs', 'histories'], 'all logs and later modifications', 'Tests do not convert both ways or modify afterwards.',
  [L + 'log/pm4py_converters.py'], [('converters', L + 'log/pm4py_converters.py')], 'Specifications in spec/pm4py_logs.py, including which parts of the result are fresh.')
p('C26', 'Results that are saved go to the path the caller gave, complete',
  'A function or part that is given a path to save to writes its complete result to exactly that path, creating the directory if needed, and writes nothing when no path is given.',
  ['inputs', 'configurations'], 'all paths and results', 'Tests save to at most one place.',
  [L + 'log/functions.py', L + 'pipelines/analysis/analysis_parts.py', L + 'discovery/petri_net.py'], [('saving', L + 'log/functions.py')],
  'Specifications of parts and writers compare the ordered file effects and the path and content in them.')
p('C31', 'Entropies are those of the log without the ignored classes',
  'The entropy of a class of events is computed from what follows and precedes it (with start and end), or from the share of traces that have it at each position, in the log as it is without the ignored '
  'classes; there is one entropy per class that is not ignored, and totals, averages and spreads are those of all of them.',
  ['inputs'], 'all logs and sets of ignored classes', 'Tests compare numbers for a few stored logs.',
  [L + 'analysis/event_log_analysis_entropy.py'], [('entropies', L + 'analysis/event_log_analysis_entropy.py')], 'Specifications in spec/entropy.py; arithmetic up to exact algebra, loops as sums and comprehensions.')
p('C23', 'Local pipeline parts hand their options and the right inputs to the algorithms',
  'Every local pipeline part runs the algorithm it stands for on the values of the context it is documented to use, with every option the user gave in the role of that option, '
  'and stores the result where later parts expect it. Other values of the context are left alone.',
  ['inputs', 'configurations'], 'all contexts and option values', 'Few parts are tested, mostly with default options.',
  [L + 'pipelines/mutations/mutations_parts.py', L + 'pipelines/filtering/filter_parts.py', L + 'pipelines/discovery/discovery_parts.py',
   L + 'pipelines/analysis/analysis_parts.py', L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'pipelines/analysis/patterns/patterns_graph_parts.py'],
  [('parts', L + 'pipelines')], 'One specification per part (spec/legacy_parts.py) of calls, arguments and stored results; the algorithms are opaque.')
p('C27', 'Log statistics count every occurrence exactly once',
  'The number of traces, of events, of events per class, per trace, and of directly-follows pairs reported for a log are the numbers of occurrences in it, for '
  'the class function in use, with ignored events left out consistently. Histograms show one entry per group with its number of occurrences, for any number of logs.',
  ['inputs'], 'all logs and class functions', 'Tests check a few logs.',
  [L + 'analysis/event_log_info.py', L + 'analysis/event_log_analysis.py', L + 'util.py'],
  [('log information', L + 'analysis/event_log_info.py')], 'Specifications in spec/info.py, counts as sums over the sequence.')
p('C29', 'Drawn Petri nets and graphs show every element once, connected as modelled',
  'Drawing a Petri net or a graph shows every place, transition, node, arc and edge once, arcs lead from and to the elements they connect in the model, '
  'and each element carries its own label, annotation and markings.',
  ['inputs'], 'all nets, graphs and annotations', 'Tests do not draw.',
  [L + 'discovery/petri_net.py', L + 'discovery/graph.py'], [('drawing', L + 'discovery/petri_net.py')], 'Specifications in spec/nets.py over the trace of graphviz calls.')

p('C22', 'Substituting activities in a log and splitting them off lose and reorder nothing',
  'A log made from discovered activities has one trace per trace of the original log, in which every activity instance is replaced by one event of its own at its place and everything not '
  'covered by an instance is kept in order; a log of the sub-traces of an activity has exactly the events of its instances. Instances of different patterns never overlap, and what is not covered is '
  'reported (or given its own activity) without gaps.',
  ['inputs'], 'all logs, activity instances, narrowing strategies and strategies for uncovered events', 'Tests cover a handful of short traces.',
  [L + 'analysis/patterns/event_log_patterns.py', L + 'analysis/patterns/util.py', L + 'analysis/patterns/patterns_models.py'],
  [('activity extraction and logs of activities', L + 'analysis/patterns/event_log_patterns.py'), ('merging and narrowing of activities', L + 'analysis/patterns/util.py')],
  'Specifications in spec/activities.py and spec/pattern_util.py: traversals, cursors and emitted events as segments over unknown traces.')
p('C24', 'Event classes are determined by the chosen extractor, the same in every step',
  'Within one analysis every event is mapped to its class by the one class extractor the caller chose (name or attribute by regular expression, as documented), the same events always get the same number, and '
  'the names shown for a class are the names of its events. Equal events have equal hashes.',
  ['inputs', 'configurations'], 'all logs and class extractors', 'Tests use the default class extractor almost everywhere.',
  [L + 'util.py', L + 'analysis/patterns/util.py', L + 'log/event_log.py', L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'analysis/patterns/event_log_patterns.py'],
  [('class extractors and hashes', L + 'analysis/patterns/util.py')], 'Specifications in spec/hashing.py and spec/pattern_util.py; parts that pass extractors on in spec/legacy_parts.py.')
p('C25', 'Colours and positions in diagrams tell classes apart and stay the same per name',
  'In the diagrams of a log every class keeps one colour, different classes get different colours as long as the provider has any left, the legend shows the colours used, and every event, gap and '
  'activity is drawn at its position in its trace with its own length. Colours are kept across diagrams that share a colours holder.',
  ['inputs', 'histories'], 'all logs and colour providers', 'Tests do not draw.',
  [L + 'util.py', L + 'analysis/event_log_analysis.py', L + 'analysis/patterns/patterns_graphs.py', L + 'analysis/event_log_analysis_canvas.py', L + 'pipelines/pipelines.py'],
  [('colour providers and holders', L + 'util.py'), ('diagrams', L + 'analysis/event_log_analysis.py')],
  'Specifications in spec/colours.py and spec/diagrams.py over the sequence of plotting calls.')
p('C28', 'Splitting a log puts every trace in exactly one group; merging keeps all events',
  'Splitting a log by traces puts every trace of the log in exactly one group, and two traces are in the same group exactly when they have the same length and the same event names in the same order. '
  'Merging the traces of a log gives one trace with copies of all events of all traces in order, with an event of a unique name after each trace; the log is left alone.',
  ['inputs'], 'all logs and class extractors', 'Tests split a few logs.',
  [L + 'analysis/event_log_split.py'], [('splitting', L + 'analysis/event_log_split.py')], 'Specifications in spec/splits.py.')
p('C30', 'Pattern discovery finds patterns per trace over the class sequence in use',
  'Tandem arrays and repeats are searched in every trace of the log, over the class numbers of the extractor given, with the length and level limits given, and each result belongs to the trace it was found in. '
  'The activities built from them are organised so that every activity contains exactly the classes of its pattern and has the sub-activities contained in it.',
  ['inputs', 'configurations'], 'all logs, limits and class extractors', 'Tests check a handful of strings.',
  [L + 'analysis/patterns/event_log_patterns.py', L + 'analysis/patterns/patterns_models.py', L + 'analysis/patterns/util.py'],
  [('discovery of tandem arrays and repeats', L + 'analysis/patterns/event_log_patterns.py')], 'Specifications in spec/patterns.py and spec/pattern_models.py.')

NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                   reason=reason, observe=[]))


na('C91', 'The incremental entropy computation equals the reference computation',
   'For every log, event and window, the entropy computed after removing an event incrementally equals the entropy computed from scratch.',
   ['inputs'], 'all logs', 'Tests compare a few logs.', [L + 'analysis/event_log_analysis_entropy.py'],
   [('entropy', L + 'analysis/event_log_analysis_entropy.py')],
   'Equality of two numeric algorithms over unbounded logs, an algebraic fact about floating-point sums; no dataflow or typing argument in reach relates the two.')
na('C92', 'Tandem arrays and repeats found are maximal and complete',
   'Every maximal tandem array or repeat of a sequence is reported, and every reported one is an occurrence in the sequence.',
   ['inputs'], 'all sequences', 'Tests use stored sequences.', [L + 'analysis/patterns/event_log_patterns.py'],
   [('suffix tree', L + 'analysis/patterns/event_log_patterns.py')],
   'Completeness of a suffix-tree algorithm is a functional-correctness theorem with inductive invariants over runtime structures; static analysis without a prover cannot bound it.')
na('C93', 'Repeated filtering and discovery loops terminate',
   'Loops that discover or filter until nothing changes terminate for every log.',
   ['inputs', 'histories'], 'all logs', 'Tests stop on their logs.', [L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'filtering/event_log_filters.py'],
   [('until-no-more loops', L + 'pipelines/analysis/patterns/patterns_parts.py')],
   'Needs a ranking argument on data (number of remaining activities of a given level), a runtime quantity no static rule in reach bounds.')
na('C94', 'Every XES file read and written again has the same content',
   'Reading a XES file, writing the log and reading it again gives an equal log for every attribute value.',
   ['inputs'], 'all XES files', 'Tests use stored files.', [L + 'log/functions.py'], [('XES reader and writer', L + 'log/functions.py')],
   'Value-level round trip depends on the lexical forms of dates, floats and XML escaping in library parsers; the structural part is claimed separately (reader and writer properties).')
