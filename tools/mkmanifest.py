"""Writes MANIFEST.json."""
import json, os
T = "trace monitor: "
CHECKS = {
 "C01": (T + "shadow-label model replayed over logged runs of the real runtime", "Random programs; every label observed is expanded through the recorded label table and compared with an independent set model. Sampled, not exhaustive."),
 "C02": (T + "marks recomputed from logged branches; CPU-time watch on shared graphs", "Marks in the finished file equal the closure of the labels branched on, for random graphs and branch orders; work bound observed on graphs whose unshared size is exponential."),
 "C03": (T + "input model replayed over logged reads", "Every byte delivered by any reading call is compared with the source and offset the model derives from the descriptor history."),
 "C04": (T + "output model against the recorded sinks", "Multiset of (output, offset, taint) records equals the one derived from the logged writes."),
 "C05": ("differential monitoring: same program tracked and untracked", "Return values, errno, memory, positions, files, streams and exit status agree step by step on random programs with valid calls."),
 "C07": (T + "independent decoder against the Python reader, on recorded runs and generated files", "Every field and derived view the reader reports is compared with an independent decoding of the same bytes; files come from random tracked runs and from a generator of well-formed files with extreme values."),
 "C08": ("crash-point and exit-path monitoring: recordings of one program ended in many ways compared section by section", "Random programs ended by return, exit, assertion, handlers, signals and kills at the same point, also with busy threads; all sections equal those of the returning run, which is checked against the model. All option combinations and calls before initialization sampled."),
 "C09": ("assertion monitors at capacity: section models under AddressSanitizer; trace monitor of runs over the real limits", "Random operation sequences on small sections with a model of their contents, red zones around their memory; programs that open, name, enter and write more than fits, their recordings checked against a model that knows the space."),
 "C10": ("offline checker of per-thread call logs against the recording; ThreadSanitizer", "Up to 8 threads on the real runtime with delays injected at locks and by signals; exactly-once, contiguity, per-thread and real-time order, unique indices checked per run. The same workload under ThreadSanitizer; small sections shared by threads over many rounds."),
 "C11": (T + "event model against the recorded logs and their Python reader", "Functions, events and control-flow log of random runs equal the logged calls; call stacks reported by the reader equal a replayed stack."),
 "C12": (T + "set model of reachability against mapping and cavities", "Mapping and cavities (library and command) recomputed from an independent decoding for random runs and generated files."),
 "C13": (T + "label graph model against the forest and its exported graph", "All nodes, parents, marks, iteration order and exported edges compared for random runs and generated files."),
 "C14": ("assertion monitors: brute-force definitions evaluated next to the real containers", "Random operation sequences on taint sets, regions, graphs, caches, ordered sets and trace properties; each result compared with its definition."),
 "C15": ("assertion monitors: independent recognizer evaluated next to the real matcher", "Random grammars (empty, recursive, ambiguous, unit rules) and derived, near-miss and random strings; parse trees of unambiguous strings validated; language before and after simplification compared."),
 "C16": (T + "recorded runs of generated parsers against the trees and grammars extracted from them", "Random call nests and a list/object parser on random documents; leaves, nesting, order, byte attribution and acceptance by six extracted grammars checked per trace."),
 "C17": ("AddressSanitizer, UBSan and MemorySanitizer on the runtime under random programs; heap watch over repeated calls", "The runtime and its libc wrappers, compiled with sanitizers on a stand-in for dfsan, run random programs of all kinds; any report in the repository's code is a violation. Repeated rounds of every kind of call must not grow the heap."),
 "C18": (T + "output of the commands against an independent decoding", "Every command run on random recordings with random options; each printed line and exported edge compared."),
 "C19": (T + "answers, report text and pixels against set differences", "Random pairs of traces of one program behind the trace interface; every answer, report line and pixel compared."),
 "C20": (T + "answers about every event against the generator's own notes", "Random call nests, access sequences and control flow graphs behind the trace interface; every answer about every event compared."),
 "C21": (T + "least model of the written program against the grammar's derivations", "Programs for traces of random parsers (long tokens, awkward names, recursion, empty rules) run by a small evaluator on the input and edited inputs; every relation compared."),
 "C22": (T + "calls, variables and output of generated command families and typed sessions", "Random commands, subcommands and extensions with command lines; random sessions typed at the prompt through a pipe next to the same statements in Python."),
 "C23": (T + "lineage of every output recorded by stand-in tools; faults injected at each step", "Random build journals, options and failing steps; each output carries what it was made from, which is compared stage by stage. The real compilers are not run."),
 "C24": (T + "stand-ins for docker recording what they are given, faults injected", "Random images, ages, options, environments and answers; every docker command, build and tag compared with what was asked for. Docker itself is not run."),
 "C25": (T + "recorded runs of stand-in tools against the files' known contents, faults injected", "Random sets of files, blind spots, tools, failures and workers through the real scripts; what every tool run was given and what is left behind compared with the plan. Docker itself is not run."),
 "C26": (T + "recorders in place of every library function, wrapper and instrumented function of instrumented programs", "Programs calling every listed or wrapped C library function, instrumented with combinations of the shipped lists and run; what each call reached is compared with the runtime built from the tree. The instrumentation is clang 18's, as the repository's pass needs LLVM 12."),
 "C27": (T + "printed and rewritten lists against the generated libraries and lists", "Random assembled objects, archives and shared libraries, directories of them, and pairs of lists given to the real scripts; every line compared with what was generated."),
 "C06": (T + "byte-level propagation model", "Labels of all program memory compared after each call."),
}
NA = []
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] in CHECKS:
        t, n = CHECKS[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd="python3 checks/check.py " + p["id"],
                           thorough_cmd="VERIF_TIER=thorough python3 checks/check.py " + p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=t, level="exploration", level_note=n))
    else:
        NA.append(dict(property=p["id"], reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=NA,
               notes="No hooks in /repo: the monitors observe the runtime through its own entry points, its shadow memory and its output file."),
          open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
