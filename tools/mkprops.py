"""Writes properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=observe, hook_needed=hook)))

T = "polytracker/include/taintdag/"
S = "polytracker/src/"
prop("C01", "Combining labels yields exactly the union of their source bytes",
     "Whenever two tainted values are combined, the resulting label stands for exactly the set of (source, byte offset) pairs of the two operands: nothing is lost and nothing is added, whatever the order, nesting, overlap or repetition of the combinations. Every label refers only to earlier labels, and a label handed out never changes its meaning for the rest of the run. An operand without taint leaves the other operand's meaning unchanged.",
     ["inputs", "histories"], "all sequences of reads and label combinations (any DAG shape, any adjacency/overlap of ranges, any repetition)",
     "Range merging, the enclosure shortcuts and the recent-duplicate scan depend on the numeric relation of labels created over the whole history; unit tests fix a few pairs.",
     [T+"union.h", T+"labels.h", S+"taintdag/encoding.cpp", S+"compiler-rt/lib/dfsan/dfsan.cpp"],
     [("union computation", T+"union.h Visitor"), ("duplicate scan", T+"labels.h duplicate_check"), ("label storage", T+"labels.h union_taint"), ("encoding", S+"taintdag/encoding.cpp encode/decode"), ("runtime union callback", S+"polytracker/polytracker.cpp __polytracker_union_table")],
     [("label table", "one 64-bit record per label", T+"labels.h")],
     ["label returned by each union/load operation", "labels section of the finished file"])
prop("C02", "Bytes recorded as affecting control flow are exactly those branched on",
     "After a run, an input byte is marked as affecting control flow if and only if it contributes to some value a branch was reported on; the same holds for every intermediate label reachable from such a value. Marking never alters what a label stands for. Reporting a branch visits each reachable label not yet marked once, however many other labels share it, so its cost stays proportional to those labels.",
     ["inputs", "histories"], "all label graphs and all sequences of branch reports interleaved with new labels",
     "Marking walks an arbitrary shared graph with an early stop at already marked labels; missing one child or stopping early only shows on particular graph shapes and orders.",
     [T+"labels.h", T+"labeldeq.h", S+"polytracker/polytracker.cpp", "polytracker/taint_dag.py"],
     [("propagation", T+"labels.h affects_control_flow"), ("work queue", T+"labeldeq.h LabelDeq"), ("branch callback", S+"polytracker/polytracker.cpp __polytracker_log_conditional_branch")],
     [("control-flow bit", "bit 62 of each label record", T+"taint.h")],
     ["labels section of the finished file", "time per branch report on deeply shared graphs"])
prop("C03", "Input bytes get exactly their own source and offset as taint",
     "Every byte a program obtains from a tracked source, through any of the supported reading calls, carries a label standing for exactly that source and the byte's position in it, and the returned size or character carries what the call promises. Bytes not delivered by the call keep their labels, failed or empty reads create no taint, and data from descriptors that are not tracked (never opened by path, closed, or numbers reused after closing) carries no taint from this read nor left over from before. The list of sources names every opened file, enabled standard stream, argument and connection once, in order.",
     ["inputs", "histories", "configurations"], "all sequences of opens, seeks, reads (sequential, positioned, buffered, line, character, mapped, socket), closes and descriptor reuse, on regular files and streams, for all settings of the source options",
     "Offsets depend on buffering, seeks, short reads, append/stream state and descriptor reuse across the whole history.",
     [S+"taint_sources/taint_sources.cpp", S+"taint_sources/argv.cpp", S+"taintdag/polytracker.cpp", T+"taint_source.h", T+"stream_offset.h", S+"taintdag/util.cpp"],
     [("read wrappers", S+"taint_sources/taint_sources.cpp"), ("source labels", S+"taintdag/polytracker.cpp create_source_taint"), ("stream offsets", T+"stream_offset.h"), ("descriptor to source", T+"taint_source.h mapping_idx")],
     [("sources section", "name, descriptor, size per source", T+"taint_source.h"), ("stream offset", "bytes consumed so far per non-seekable source", T+"stream_offset.h")],
     ["shadow labels of every program buffer after each call", "sources and labels sections", "source-label index section"])
prop("C04", "Every tainted output byte is recorded at its position, and nothing else",
     "For every byte written to a tracked descriptor or stream by a supported output call, the file holds one record with that output, the position the byte has in it and the label of the byte if and only if the byte is tainted. Failed or partial writes record exactly the bytes accepted, appending and seeking are reflected in the positions, and writes to untracked descriptors record nothing.",
     ["inputs", "histories", "configurations"], "all sequences of writes, seeks, appends and closes on files, pipes, sockets and standard streams",
     "The position depends on the file mode, buffering and all previous writes.",
     [S+"taint_sources/write_taints.cpp", S+"taintdag/polytracker.cpp", T+"sink.h"],
     [("write wrappers", S+"taint_sources/write_taints.cpp"), ("sink log", S+"taintdag/polytracker.cpp taint_sink")],
     [("sink section", "offset, label, output index records", T+"sink.h")],
     ["sinks section of the finished file compared with the recorded write history"])
prop("C05", "Tracked programs behave like untracked ones",
     "A program run under tracking observes the same results from every wrapped library call as it would natively: return values, error codes, contents of its memory, files it creates (contents and permissions), stream positions and exit status. The tracker itself never terminates or crashes a program whose calls are valid, including failing calls, resource exhaustion and disconnecting peers, unless a fixed capacity of the recording (C09) is exhausted.",
     ["programs", "inputs", "fault_sequences"], "all sequences of wrapped calls with valid arguments, including boundary sizes, non-ASCII bytes, failing calls and vanished peers",
     "There are about a hundred wrappers with value-dependent re-implementations (comparison, search, formatting, number parsing); tests exercise a few values of a few of them.",
     [S+"taint_sources/taint_sources.cpp", S+"taint_sources/write_taints.cpp", S+"taint_sources/memory_taints.cpp", S+"taint_sources/string_taints.cpp", S+"compiler-rt/lib/dfsan/dfsan_custom.cpp"],
     [("libc wrappers", S+"compiler-rt/lib/dfsan/dfsan_custom.cpp __dfsw_*"), ("PolyTracker wrappers", S+"taint_sources/*.cpp __dfsw_*")],
     [], ["return value, errno, memory and file diffs of the same call sequence with and without tracking"])
prop("C06", "Library calls propagate labels byte by byte as the data moves",
     "Copying, moving, duplicating, concatenating, filling, growing and formatting calls give each destination byte the label of the data it came from, and labels of all other bytes stay as they were. Values computed from bytes (parsed numbers, combined loads, label queries) carry the union of the labels of the bytes they depend on. Calls that fill memory with data from the system remove taint from exactly the bytes they fill, and results that carry no input data carry no taint.",
     ["programs", "inputs"], "all sequences of wrapped memory, string, number and formatting calls on buffers with arbitrary labels, lengths and overlaps",
     "Propagation depends on lengths, terminators, truncation, overlap and formats; the repository's tests of it need the full compiler toolchain and a handful of inputs.",
     [S+"compiler-rt/lib/dfsan/dfsan_custom.cpp", S+"compiler-rt/lib/dfsan/dfsan.cpp", S+"taint_sources/memory_taints.cpp", S+"taint_sources/string_taints.cpp"],
     [("wrappers", S+"compiler-rt/lib/dfsan/dfsan_custom.cpp"), ("shadow set/read/union-load", S+"compiler-rt/lib/dfsan/dfsan.cpp"), ("realloc", S+"taint_sources/memory_taints.cpp"), ("strcat", S+"taint_sources/string_taints.cpp")],
     [("shadow memory", "one 32-bit label per application byte", S+"compiler-rt/lib/dfsan/dfsan_platform.h")],
     ["shadow labels of all program buffers after each call"])
prop("C07", "What the runtime records is what the reader reports",
     "For every recorded run the Python reader reports exactly what the file holds: all sources with names and sizes, every label with its kind, operands and control-flow mark, every output record, function, event and log entry, in order. Derived views (the input labels and sources behind a label, the input bytes behind each output byte, the input bytes that affect control flow) agree with an independent decoding of the same file.",
     ["inputs", "histories"], "all files the runtime can produce, including empty sections, maximum field values and arbitrary byte names",
     "Encoders are in C++ and decoders in Python; tests check each side against hand-made samples.",
     ["polytracker/taint_dag.py", T+"outputfile.h", T+"encoding.h", "polytracker/inputs.py"],
     [("file reader", "polytracker/taint_dag.py TDFile"), ("section writer", T+"outputfile.h OutputFile"), ("trace view", "polytracker/taint_dag.py TDProgramTrace")],
     [("section table", "tag, alignment, offset, size per section", T+"outputfile.h")],
     ["polytracker.taint_dag objects compared field by field with an independent decoder"])
prop("C08", "Every run leaves a complete, loadable recording",
     "However a tracked program of one process ends on its own (returning, exiting at any depth or from any thread while others still run, failing an assertion, running exit handlers), it ends as it would untracked and the output file has a valid header, correct section sizes and all records made up to that point; if it is killed, the file still opens and everything recorded is in place. The output path and the standard-stream and argument options take effect exactly as set, and calls made before initialization are harmless.",
     ["crash_points", "configurations", "programs"], "all ways and points of termination and all option settings",
     "Finalization happens in exit handlers; whether it runs and sees all data depends on the exit path and the point in the history.",
     [S+"polytracker/main.cpp", S+"polytracker/polytracker.cpp", T+"outputfile.h", T+"storage.h", S+"taint_sources/taint_sources.cpp"],
     [("start and settings", S+"polytracker/main.cpp taint_start"), ("finalization", T+"outputfile.h ~OutputFile"), ("assert hook", S+"taint_sources/taint_sources.cpp __dfsw___assert_fail")],
     [("header", "magic and section table", T+"outputfile.h")],
     ["output file after process end", "process exit status and streams"])
prop("C09", "Running out of a fixed capacity never corrupts what was recorded",
     "When a fixed capacity (sources, labels, names, functions, output records, log space) is exhausted, everything recorded before stays intact, no section grows past its space or into another, and no record is made that is wrong: the runtime either stops with an error or leaves the excess out entirely. Requests that fit exactly are recorded in full.",
     ["inputs", "histories"], "all request sizes around every capacity boundary, in any mix of record kinds",
     "Default capacities are huge, so tests never reach a boundary; at the boundary arithmetic and failure handling decide.",
     [T+"section.h", T+"labels.h", T+"string_table.h", T+"taint_source.h", T+"sink.h", T+"bitmap_section.h", T+"control_flow_log.h", S+"taintdag/fnmapping.cpp", S+"taintdag/fntrace.cpp"],
     [("allocation", T+"section.h SectionBase::write"), ("bulk labels", T+"labels.h create_source_labels"), ("strings", T+"string_table.h add_string"), ("bit ranges", T+"bitmap_section.h set_range")],
     [("used size", "bytes used per section", T+"section.h")],
     ["return values, error callback and raw section memory of small-capacity sections", "source table after more opens than fit"])
prop("C10", "Concurrent tracking loses, duplicates and tears nothing",
     "When threads read, combine labels, write outputs, branch, enter and leave functions and open sources at the same time, the recording equals one in which each call happened atomically at some point between its start and end: every label, record and event of every thread is present exactly once, intact, and in each thread's own order, bulk labels of one read stay contiguous, and each name maps to one index. The runtime's shared state is free of data races.",
     ["schedules"], "all interleavings of the runtime entry points from any number of threads",
     "Tests are single threaded; lost updates and torn records need particular interleavings.",
     [T+"section.h", T+"labels.h", T+"bitmap_section.h", T+"stream_offset.h", S+"taintdag/fnmapping.cpp", T+"control_flow_log.h"],
     [("section lock", T+"section.h SectionBase::write"), ("atomic bitmap", T+"bitmap_section.h set_bits"), ("stream offsets", T+"stream_offset.h increase"), ("function map lock", S+"taintdag/fnmapping.cpp add_mapping")],
     [("section cursor", "next free byte of a section", T+"section.h")],
     ["per-thread call logs checked against the finished file", "ThreadSanitizer reports"])
prop("C11", "Function and control-flow logs replay the execution exactly",
     "The function trace holds every reported entry and exit in order with names mapped one-to-one to indices, and the control-flow log holds every function entry, exit and tainted branch in order with exact identifiers and labels. Reading the log back yields, for each event, the call stack at that point, for any nesting, recursion or identifier value; an exit that skips frames (as after a non-local jump) drops the skipped frames, and an exit without entry never makes reading fail.",
     ["histories", "inputs"], "all sequences of entry, exit and branch events over all identifier and label values",
     "Variable-length encoding and call-stack reconstruction depend on values and nesting history.",
     [T+"control_flow_log.h", S+"taintdag/fnmapping.cpp", S+"taintdag/fntrace.cpp", "polytracker/taint_dag.py"],
     [("log encoder", T+"control_flow_log.h"), ("log reader", "polytracker/taint_dag.py TDControlFlowLogSection"), ("function mapping", S+"taintdag/fnmapping.cpp")],
     [("control-flow log", "tag + varint records", T+"control_flow_log.h"), ("events", "kind + function index", T+"fntrace.h")],
     ["functions, events and control-flow-log sections", "iteration of the Python log reader"])
prop("C12", "Input-to-output mapping and blind spots are exact",
     "For every recording, the mapping lists for each input byte exactly the output bytes whose taint includes it, and the reported blind spots (cavities) of an input that was read are exactly the maximal ranges of its bytes that neither reach any output nor affect control flow, also when the same path was opened several times (a byte used through any of the openings is no blind spot). Results do not depend on the order or multiplicity of records.",
     ["inputs", "histories"], "all label graphs, output records and input sizes, including empty files, untouched inputs and several sources",
     "The result is a whole-graph reachability computation; tests use single hand-made files.",
     ["polytracker/mapping.py", "polytracker/taint_dag.py", "polytracker/inputs.py"],
     [("mapping", "polytracker/mapping.py InputOutputMapping"), ("reachability", "polytracker/mapping.py dfs_walk/mapping"), ("cavities", "polytracker/mapping.py file_cavities")],
     [], ["InputOutputMapping results compared with an independent set computation"])
prop("C13", "The taint forest mirrors the recorded label graph",
     "The forest view contains one node per recorded label with the correct parents, source byte and control-flow mark; iterating it visits every node once, children before the nodes they derive from being the reverse of creation order, and ancestor queries return exactly the source bytes the label stands for. The exported graph has exactly the forest's edges.",
     ["inputs", "histories"], "all label graphs with any mix of source, range and union labels",
     "Range labels expand into chains and unions share parents; tests use tiny graphs.",
     ["polytracker/taint_dag.py", "polytracker/taint_forest.py"],
     [("forest", "polytracker/taint_dag.py TDTaintForest"), ("graph export", "polytracker/taint_forest.py to_graph")],
     [], ["TDTaintForest nodes compared with an independent decoding"])
prop("C14", "Analysis containers compute exact regions, graphs and caches",
     "Taint collections, and the records of what a function used, report exactly the contiguous regions, membership, sizes and substring positions of the bytes they hold; graph utilities (dominators, distances, ancestors, descendants, roots, paths) agree with their textbook definitions on every directed graph; and the cache evicts exactly the least recently used entry and never returns a wrong value.",
     ["inputs", "histories"], "all byte-offset sets over several inputs, all small directed graphs, all operation sequences on the cache",
     "Edge cases (gaps, several inputs, cycles, unreachable nodes, eviction order) are numerous and tests sample few.",
     ["polytracker/tracing.py", "polytracker/inputs.py", "polytracker/graphs.py", "polytracker/cache.py", "polytracker/cfg.py"],
     [("taint regions", "polytracker/tracing.py Taints/TaintedRegion"), ("graphs", "polytracker/graphs.py DiGraph"), ("cache", "polytracker/cache.py LRUCache")],
     [], ["results of the public methods compared with brute-force definitions"])
prop("C15", "Grammar matching accepts exactly the language",
     "Matching a string or byte string against a grammar succeeds if and only if it is in the language the grammar generates from its start production (a production without rules stands for the empty string; every production derives something). A match of a string with a single derivation returns a parse tree whose leaves spell the string and whose every production node has the children of one of its rules (grammars without empty rules). Simplifying a grammar does not change its language.",
     ["inputs", "programs"], "all context-free grammars (including empty, recursive, ambiguous and unit rules) and all strings",
     "Chart parsing with empty and left-recursive rules has many interacting cases.",
     ["polytracker/grammars.py", "polytracker/parsing.py"],
     [("chart parser", "polytracker/grammars.py EarleyParser"), ("grammar", "polytracker/grammars.py Grammar/Production/Rule"), ("simplify", "polytracker/grammars.py Grammar.simplify")],
     [("chart", "Earley state sets", "polytracker/grammars.py")],
     ["match result and tree compared with an independent recognizer"])
prop("C16", "An extracted grammar and parse tree cover the traced input exactly",
     "For a trace of a parser that consumes a non-empty input front to back, looking ahead by at most one byte, the parse tree built from it has leaves that, concatenated, are exactly the input; calls and blocks are nested and ordered as traced, and each byte hangs under the block that used it last (or none if unused). For other traces the tree is either refused or has the same leaves. Simplifying a tree keeps its leaves, and every grammar extracted from a tree, simplified or not, accepts the input; for a trace that uses each byte once, so does the grammar taken from the trace without a tree.",
     ["inputs", "histories", "programs"], "all nestings of calls and basic blocks and all assignments of consumed input bytes to them",
     "Overlapping, skipped, repeated and out-of-order consumption combine; tests use one example each.",
     ["polytracker/parsing.py", "polytracker/grammars.py", "polytracker/tracing.py"],
     [("tree construction", "polytracker/parsing.py trace_to_non_generalized_tree"), ("grammar from tree", "polytracker/grammars.py parse_tree_to_grammar"), ("extraction", "polytracker/grammars.py extract")],
     [], ["leaves of the returned trees", "grammar match of the original inputs"])
prop("C17", "The runtime has no memory errors or undefined behaviour",
     "No sequence of valid calls into the runtime makes it read or write outside its own and the caller's objects, use freed or uninitialized memory, leak per operation without bound, or execute undefined arithmetic.",
     ["inputs", "histories", "programs"], "all call sequences and sizes, including zero lengths, boundary values and exhausted sections",
     "Out-of-bounds and lifetime errors are usually silent without instrumentation.",
     [T, S+"taintdag", S+"taint_sources", S+"polytracker"],
     [("runtime", S+"taintdag/*.cpp"), ("wrappers", S+"taint_sources/*.cpp"), ("label queue", T+"labeldeq.h")],
     [], ["AddressSanitizer and UndefinedBehaviorSanitizer reports while the same workloads run"])
prop("C18", "The commands print exactly what the recording holds",
     "For every recording, the info command prints the number of labels and, for each option given, one line per source, function, output record, label, function event and control-flow event with its values, in file order and nothing else; the mapping command prints the input-to-output mapping; the cavities command prints one line per blind spot and, when asked to show bytes, exactly the bytes of the blind spot with up to ten around it, marked at the right columns; the forest command exports a graph with one node per label and the recorded derivations as edges.",
     ["inputs", "histories"], "all recordings and all combinations of options",
     "The commands are what users read; tests call none of them on more than one file.",
     ["polytracker/taint_dag.py", "polytracker/mapping.py", "polytracker/taint_forest.py", "polytracker/graphs.py", "polytracker/plugins.py"],
     [("info", "polytracker/taint_dag.py TDInfo"), ("mapping", "polytracker/mapping.py MapInputsToOutputs"), ("cavities", "polytracker/mapping.py FileCavities"), ("forest", "polytracker/taint_forest.py ExportTaintForest"), ("dispatch", "polytracker/plugins.py add_command_subparsers")],
     [], ["standard output of the commands and the exported file compared with an independent decoding"])
prop("C19", "Comparing two traces reports exactly what differs",
     "For two traces of one program, the diff lists exactly the input bytes touched by one and not the other (also when their regions overlap only in part), exactly the functions called in one only, and per function called in both the bytes by which it differs; it is true if and only if any of these differ, and the printed report and picture say the same: each region is shown with its file's bytes around it, marked at the right columns, and each byte's pixel has the colour of the traces that touched it. The function named as the possible cause is the nearest common dominator whose bytes differ.",
     ["inputs", "histories"], "all pairs of call graphs and of bytes touched per function, over one or several inputs, present on disk or not",
     "The result depends on how regions of many functions overlap across two traces; no test compares traces.",
     ["polytracker/diffing.py", "polytracker/visualizations.py", "polytracker/tracing.py", "polytracker/graphs.py"],
     [("byte and function differences", "polytracker/diffing.py TraceDiff"), ("dominators", "polytracker/diffing.py ControlFlowDiff"), ("report", "polytracker/diffing.py TraceDiff.__str__/print_file_context"), ("picture", "polytracker/visualizations.py file_diff")],
     [], ["results, report text and pixels compared with set differences"])
prop("C20", "Navigating a trace answers with exactly what was traced",
     "For every trace, however calls nest, recurse, follow one another or are cut off, each call is reported with the block event that made it, the calls it made and the blocks it entered itself (none of those its callees entered), in order, the function it entered and its return; each block event with the next block of the same call, the next one that used input, the bytes it used and how often the block had been entered before in the same call. Where a call returns to a block before another call is made, iterating a call yields its blocks and calls in traced order, its bytes are exactly those it and its callees used, and the next function entered after it is found. Per input, the bytes never used, first used out of order and the jumps back are exactly those of the accesses. The static graphs have exactly the blocks, functions, edges and roots of the program.",
     ["inputs", "histories", "programs"], "all nestings of calls and blocks, cut off at any point, all access sequences and all control-flow graphs",
     "Walking a flat event list back and forth across nested calls goes wrong only for particular nestings, which tests do not sample.",
     ["polytracker/tracing.py", "polytracker/inputs.py", "polytracker/graphs.py"],
     [("callers and entries", "polytracker/tracing.py FunctionEntry"), ("blocks and counts", "polytracker/tracing.py BasicBlockEntry"), ("calls and bytes", "polytracker/tracing.py FunctionInvocation"), ("input properties and graphs", "polytracker/tracing.py ProgramTrace")],
     [], ["answers about every event compared with the generator's own notes"])
prop("C21", "The Datalog form of a grammar derives exactly what the grammar derives",
     "For every trace, the Datalog program written for it is valid (every relation declared once and used with its columns, all variables well-formed and bound) and describes the grammar taken from that trace: applied to the facts of any string (each byte's relation from its position to the next, the true relation at every position), the relation of each production holds of exactly the spans of the string the production derives. Different productions and bytes have different relations, and the start relation is output.",
     ["inputs", "programs"], "all traces whose grammar has every production it uses, with blocks using any number of bytes and functions of any name; all strings",
     "Whether the relations agree depends on rule lengths, empty rules, recursion and names together, and no test runs a program.",
     ["polytracker/datalog.py", "polytracker/grammars.py"],
     [("clauses", "polytracker/datalog.py DatalogRuleList/DatalogClause"), ("names", "polytracker/datalog.py get_valid_datalog_name"), ("grammar", "polytracker/datalog.py DatalogGrammar")],
     [], ["text of the program, evaluated to its least model on generated strings"])
prop("C22", "The command line and the prompt run exactly what they are asked to",
     "The polytracker program runs the command or subcommand named on its command line once, with the arguments given and defaults for the others, then each extension of it in the order they were defined, and exits with what the command returned (nothing or a true value: success; a false value other than a number: failure); a line it cannot parse runs nothing. Plugins' commands, subcommands and extensions take part by being defined. At the interactive prompt every statement, of one line or several, has the effect it has in Python on the session's variables, the value of an expression is printed, a registered command typed alone is run if it needs no arguments and returns nothing, an expensive one whose result is not kept is run only after consent, and no error ends the session.",
     ["inputs", "programs", "histories"], "all families of commands, subcommands and extensions with distinct names, all command lines for them, all sequences of statements and commands typed",
     "What runs depends on how registration, inherited parsers and statements of several lines combine; no test drives them.",
     ["polytracker/plugins.py", "polytracker/__main__.py", "polytracker/repl.py"],
     [("registration and dispatch", "polytracker/plugins.py PluginMeta/AbstractCommand/add_command_subparsers"), ("exit status", "polytracker/__main__.py main"), ("prompt", "polytracker/repl.py PolyTrackerREPL.run/run_python")],
     [], ["calls made to generated commands, variables, printed text and exit status"])
prop("C23", "Instrumented programs are made from the right code by the right steps",
     "Instrumenting a build target makes, next to where the command is run, a program linked from that target's own bitcode: extracted from the recorded binary, given the branch logging if asked for, optimized, then instrumented with exactly the passes and ignore lists asked for, in their order, and linked by the target's own compiler with its own options and libraries (its sources and output replaced) and the runtime's libraries. Each step runs once per target; when a step fails, nothing after it runs, no program is left in its place and the command does not succeed. The commands for single steps do the same step. A build command is run exactly as given under the recorder, with a fresh journal at the path asked for.",
     ["inputs", "fault_sequences", "configurations"], "all journals of compile and link commands with distinct target names without dots, all options, and failures of any step; tools replaced by stand-ins that record what they are given",
     "The commands only run with a full compiler installation, so no test drives them; what is right depends on journal, options and failures together.",
     ["polytracker/build.py", "polytracker/plugins.py"],
     [("finding the target", "polytracker/build.py _find_target/_read_blight_journal"), ("steps", "polytracker/build.py InstrumentTargets.run/_instrument_bitcode/_preopt_instrument_bitcode"), ("linking", "polytracker/build.py _lower_bitcode"), ("build", "polytracker/build.py _handle_cmd")],
     [], ["arguments, environment and working directory of every tool called; which files each output was made from"])
prop("C24", "Running in a container passes everything through unchanged",
     "Running PolyTracker in Docker starts the image of this version (or the tag asked for), and no other, once, with the command's arguments, mounts, environment values, working directory, terminal and standard streams exactly as given, and gives the container's exit status. An image that is missing is first built from the sources, or refused if building is not allowed or fails; an image older than any of the sources is refused unless asked otherwise, and at a terminal rebuilt, tagged and run as the user answers. The commands that look for, pull, rebuild and run the image call exactly what that takes, report success only if it succeeded, and use or tag the latest image only with consent.",
     ["inputs", "configurations", "fault_sequences"], "all sets of images, arguments, environments, mounts, answers and failures of docker, run from a source tree; docker's client, build service and command replaced by stand-ins",
     "No test starts a container; what is right depends on images, ages, options and answers together.",
     ["polytracker/containerization.py"],
     [("run", "polytracker/containerization.py DockerContainer.run"), ("age", "polytracker/containerization.py DockerContainer.out_of_date_sources/last_build_time"), ("commands", "polytracker/containerization.py DockerPull/DockerRebuild/DockerRun")],
     [], ["arguments, directory and streams of every docker command; images built and tagged"])
prop("C25", "Batch runs find, change and verify exactly the blind spots of each file",
     "Running cavity detection, mutation or verification over many files handles each file once, whatever the number of files and workers, and keeps going when the tool or the analysis of one fails. Detection records for each file exactly its cavities (name, first and last offset) or the code of what failed, keeps the tool's output, the recording unless it is to be dropped, and notes of what ran. Mutation changes cavity bytes only, by the method asked for, and never the original. Verification of all cavities says OK exactly if the tool makes the same output of the mutated file; verification byte by byte changes each cavity byte once and the sampled share of the others, one at a time, and counts equal, different and missing outputs as they were. Summaries add up to the results.",
     ["inputs", "fault_sequences", "schedules"], "all sets of files with distinct stems (names without commas, double quotes or line ends), cavities, tools, methods and failures; docker and the tools in it replaced by stand-ins; summaries of at least one verified cavity and one other byte",
     "The scripts only run with docker images of instrumented programs, so no test drives them; what goes wrong depends on files, failures and workers together.",
     ["build_in_docker/file_cavity_detection.py", "build_in_docker/mutate_cavities.py", "build_in_docker/verify_cavities.py", "build_in_docker/cavity_results.py", "eval/verification_to_csv.py"],
     [("detection and queue", "build_in_docker/file_cavity_detection.py file_cavity_detection/process_paths"), ("mutation", "build_in_docker/mutate_cavities.py"), ("verification", "build_in_docker/verify_cavities.py"), ("summaries", "build_in_docker/cavity_results.py, eval/verification_to_csv.py")],
     [], ["every run of docker and the tools with the bytes given to them; files, rows and counts left behind"])
prop("C26", "Library calls of instrumented programs reach the code that tracks them",
     "When a program is instrumented with the shipped ABI list, alone or together with any of the shipped lists for other libraries, every call of a C library function for which the runtime has a wrapper, direct or through a pointer, reaches exactly that wrapper; every wrapper such a program needs is in the runtime, so it links; no listed C or mathematics library function is taken for an instrumented one; the calls that the passes insert reach the runtime; and the results of the C library's character classification and conversion, number conversion and basic arithmetic functions carry the taint of their arguments. A list for another library takes none of this away.",
     ["programs", "configurations"], "all ways of calling the functions of the C and mathematics libraries that are in a shipped list or have a wrapper, with all combinations of the shipped lists",
     "The lists are 4,700 lines read only when a program is instrumented, which the tests do not do; a missing, shadowed or mistyped entry silently turns tracking of a function off.",
     ["polytracker/custom_abi/dfsan_abilist.txt", "polytracker/custom_abi", S+"taint_sources/taint_sources.cpp", S+"taint_sources/write_taints.cpp", S+"compiler-rt/lib/dfsan/dfsan_custom.cpp", S+"polytracker/polytracker.cpp"],
     [("treatment of functions", "polytracker/custom_abi/dfsan_abilist.txt"), ("wrappers", S+"taint_sources/*.cpp, "+S+"compiler-rt/lib/dfsan/dfsan_custom.cpp __dfsw_*"), ("inserted calls", S+"polytracker/polytracker.cpp __polytracker_*")],
     [], ["for every call in an instrumented program: which of library function, wrapper and instrumented function ran, warnings, and the label of the result"])
X = "polytracker/scripts/"
prop("C27", "The list tools name exactly a library's functions and the lists' conflicts",
     "For every ELF object, archive and shared library, create_stublist prints, once and in order, the lines that leave each function the library defines for others (global or weak, of any size and name) uninstrumented and discarded, and nothing else; build_lib prints the uninstrumented lines of the functions of those C, gcc and, if asked for, C++ libraries that are in the directories given, and reports the missing ones; libcxx_tracklist prints the functions a library needs from outside and those of its ABI library. list_diff prints exactly the entries of the second list whose functions are not in the first. track_list_diff reports exactly the functions that one list treats more than once or, treated once in each, the two treat differently (uninstrumented counts for neither), fails if and only if it reports any, and, when one list is to decide, comments out the other's treatments of the functions that conflict and changes nothing else. poly-link runs llvm-link once with the arguments given and fails if it fails.",
     ["inputs", "configurations"], "all libraries (kinds, symbol types, bindings, sizes, names, versions) and all pairs of lists",
     "No test runs these scripts, and what they print decides which functions are tracked; a function lost to an unusual size, binding or name only shows when its calls stop being tracked.",
     [X+"create_stublist.py", X+"build_lib.py", X+"libcxx_tracklist.py", X+"list_diff.py", X+"track_list_diff.py", X+"poly-link.py"],
     [("functions of a library", X+"create_stublist.py, build_lib.py, libcxx_tracklist.py defined_function_list"), ("conflicts", X+"track_list_diff.py analyze_abi_file, list_diff"), ("resolution", X+"track_list_diff.py auto_resolve_conflicts")],
     [], ["output and exit status of each tool", "contents of both lists before and after", "arguments of llvm-link"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
