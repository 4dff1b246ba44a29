"""C17: the runtime under AddressSanitizer, UBSan and MemorySanitizer, and a heap
watch over repeated operations.

Only reports whose innermost code outside libraries lies in the repository count:
a report that starts in the driver is a fault of the driver and makes the run
inconclusive.  MemorySanitizer knows nothing about the C++ library it links, so
from it only reports count that start on a line of the repository and whose value
comes from a variable or allocation made there."""
import os
import re
import shutil

import c09
import gen
import runner
from driver import Check

PROFILES = [("mix", 3), ("in", 2), ("out", 2), ("str", 3), ("dag", 1), ("cf", 1), ("log", 1), ("det", 1)]
LIBFRAME = re.compile(r"/usr/|/lib/|/c\+\+/|compiler-rt/lib/(asan|msan|ubsan|sanitizer_common)/|\(BuildId")


def frames(text):
    return re.findall(r"#\d+ 0x[0-9a-f]+ in (.*)", text)


def where(frame):
    m = re.search(r"(/[^ ()]+):(\d+)(?::\d+)?\s*$", frame)
    return m.group(1) if m else None


def owner(fr):
    """'repo', 'driver' or None: whose code the innermost non-library frame is."""
    for f in fr:
        p = where(f)
        if p is None:
            continue
        p = os.path.normpath(p)
        if p.startswith(runner.REPO + "/"):
            return "repo"
        if p.startswith(runner.VERIF + "/"):
            return "driver"
    return None


def split_reports(text, kind):
    pat = r"(?m)^(?==+\d+==\s*(?:ERROR|WARNING))|^(?=\S+:\d+:\d+: runtime error:)"
    parts = [p for p in re.split(pat, text) if "ERROR:" in p or "WARNING:" in p or "runtime error:" in p]
    out = []
    for p in parts:
        if kind == "memory":
            head, _, origin = p.partition("Uninitialized value was")
            fr = frames(head)
            src = origin.split("Uninitialized value was")[-1]
            of = [f for f in frames(src)]
            first = where(fr[0]) if fr else None
            mine = bool(first) and os.path.normpath(first).startswith(runner.REPO + "/") and owner(of[:3]) == "repo" and "created by" in src
            out.append(("repo" if mine else None, p, fr))
            continue
        stack = re.split(r"(?m)^(?:freed by|previously allocated|allocated by|0x[0-9a-f]+ is located|Address 0x)", p)[0]
        fr = frames(stack)
        o = owner(fr)
        m = re.match(r"(\S+?):\d+:\d+: runtime error:", p)
        if m and o is None:
            o = "repo" if os.path.normpath(m.group(1)).startswith(runner.REPO + "/") else None
        out.append((o, p, fr))
    return out


def summary(p, fr):
    m = re.search(r"(ERROR|WARNING): (\w+Sanitizer: [^\n]{0,120})", p) or re.search(r"()(\S+: runtime error: [^\n]{0,160})", p)
    at = next((f for f in fr if (where(f) or "").startswith(runner.REPO)), fr[0] if fr else "?")
    return "%s at %s" % (m.group(2) if m else p[:160], re.sub(r"<.*>", "<..>", at)[:200])


def run_one(exe, kind, case, timeout=120):
    d = runner.case_dir()
    try:
        opts = "log_path=%s/report:exitcode=97:allocator_may_return_null=1:detect_leaks=0:handle_abort=0:" % d
        env = {"ASAN_OPTIONS": opts + "detect_stack_use_after_return=1", "MSAN_OPTIONS": opts + "halt_on_error=0",
               "UBSAN_OPTIONS": "log_path=%s/report:print_stacktrace=1:halt_on_error=0" % d, "PTVM_NO_RLIMIT": "1"}
        r = runner.execute(exe, case, d, "t", timeout=timeout, env_extra=env)
        text = ""
        for f in sorted(os.listdir(d)):
            if f.startswith("report"):
                with open(os.path.join(d, f), "rb") as fh:
                    text += fh.read().decode("latin-1") + "\n"
        return r, split_reports(text, kind)
    finally:
        shutil.rmtree(d, ignore_errors=True)


_exes = {}


def san_case(profile, seed, nops, kind):
    case = gen.make(profile, seed, nops)
    if kind == "memory":  # results of libc calls MemorySanitizer does not know would look uninitialized
        case["script"] = ["note x" if "_unlocked" in l.split(" ")[0] else l for l in case["script"]]
    return case


def _one(job):
    kind, profile, seed, nops = job
    case = san_case(profile, seed, nops, kind)
    r, reps = run_one(_exes[kind], kind, case)
    V = [summary(p, fr) for o, p, fr in reps if o == "repo"]
    other = [summary(p, fr) for o, p, fr in reps if o == "driver"]
    hist = {}
    for i in r.order:
        o = case["script"][i].split(" ")[0]
        hist[o] = hist.get(o, 0) + 1
    labels = max([int(t[1:]) for i in r.order for t in r.trace[i] if t[:1] == "^" and t[1:].isdigit()] or [0])
    last = case["script"][r.last_idx] if r.last_idx is not None else "start"
    return job, V, other, hist, labels, r.end, r.harness_error, last


# One self-contained round of calls per workload; repeated, it must not keep memory.
LEAKS = {
    "open-read-close": ["open f0 x696e30 0", "read r0 f0 s0+0 64", "pread r1 f0 s0+0 9 3", "close f0"],
    "openat-open64": ["open64 f0 x696e30 0", "openat f1 -100 x696e30 0", "read r0 f1 s0+0 10", "close f0", "close f1"],
    "fopen-fread": ["fopen F0 x696e30 x72", "fread r0 F0 s0+0 1 50", "fgetc r1 F0", "fgets r2 F0 s1+0 20", "fclose F0"],
    "fopen64-write": ["fopen64 F0 x6f31 x77", "fwrite r0 F0 s0+0 1 50", "putc r1 F0 r3", "fputc r1 F0 r3", "fclose F0"],
    "failed-open": ["open f0 x6e6f7065 0", "fopen F0 x6e6f7065 x72", "openat f1 -100 x6e6f7065 0", "close -1"],
    "write": ["open f0 x6f31 577 420", "write r0 f0 s0+0 64", "close f0"],
    "getdelim": ["fopen F0 x696e30 x72", "getdelim r0 F0 s30 10 -1", "getdelim r0 F0 s30 10 -1", "getdelim r0 F0 s30 10 -1", "fclose F0"],
    "heap": ["malloc s10 100", "realloc s10 900", "memset r0 s10+0 r3 900", "realloc s10 10", "free s10", "calloc s10 3 50", "free s10"],
    "strings": ["strcpy r0 s1+0 s2+0", "strcat r0 s1+0 s2+0", "strdup s10 s1+0", "free s10", "strlen r0 s1+0", "snprintf r0 s1+0 40 x25642573 5 r3 s2+0",
                "strtol r0 s2+0 10 1", "strtod r0 s2+0 1", "memcmp r0 s0+0 s1+0 10", "strchr r0 s1+0 65", "strncpy r0 s1+0 s2+0 9"],
    "labels": ["u r5 r3 r4", "ut r5 r4 r3", "ua r6 r5 r3", "br r6", "brw r5", "tcf r7 r5 12", "rdl r8 s0+0 8", "uload r9 s0+0 4", "setl s0+0 4 r5", "addl s0+0 4 r6"],
    "functions": ["fe r8 x6162", "fes r9 x6364", "fx r9", "fx r8", "ent 7", "lev 7", "lev 9"],
    "sockets": ["connect f0 0", "accept f1 0 0 1", "send r0 f0 s0+0 9 0", "recv r0 f1 s1+0 9 64", "close f0", "close f1"],
    "threads": ["thread _ null"],
    "system": ["stat r0 x696e30 s0+0", "gettimeofday r0 s0+0", "time r0 null", "getcwd r0 s0+0 200", "gethostname r0 s0+0 64"],
    "mmap": ["open f0 x696e30 0", "mmap s20 f0 100 1 2 0", "munmap s20", "close f0"],
}
# branches on values with wide ancestry, fresh each time
LEAKS["wide-branch"] = (["pread r0 f9 s0+0 26 0", "pread r0 f9 s0+26 26 0", "pread r0 f9 s0+52 26 0"] + ["ld r%d s0+%d" % (10 + i, i) for i in range(78)] +
                        ["u r%d r%d r%d" % (100 + i, 10 + i, 10 + (i + 29) % 78) for i in range(64)] +
                        ["u r%d r%d r%d" % (200 + w + i, (200 + 2 * w if w < 32 else 100) + 2 * i, (200 + 2 * w if w < 32 else 100) + 2 * i + 1)
                         for w in (32, 16, 8, 4, 2, 1) for i in range(w)] + ["br r201"])
LEAK_FILES = {"in0": (b"line one\nline two\n" * 12).hex(), "lbl": bytes(range(65, 91)).hex()}
LEAK_SETUP = ["buf s0 256", "buf s1 256", "buf s2 64", "open f9 x6c626c 0", "read _ f9 s0+0 26", "ld r3 s0+1", "ld r4 s0+9", "poke s2+0 x3132616200",
              "poke s1+0 x00", "listen 0"]
WARM, ROUNDS = 200, 600


def leak_case(name):
    body = LEAKS[name]
    script = LEAK_SETUP + ["loop %d" % WARM] + body + ["next", "heap", "loop %d" % ROUNDS] + body + ["next", "heap", "loop %d" % ROUNDS] + body + ["next", "heap", "return 0"]
    return dict(script=script, files=dict(LEAK_FILES), argv=[], env={})


def _leak(name):
    case = leak_case(name)
    r, reps = run_one(_exes["address"], "address", case, timeout=400)
    heap = [int(t[5:]) for i in sorted(r.trace) for t in r.trace[i] if t.startswith("heap=")]
    return name, heap, [summary(p, fr) for o, p, fr in reps if o == "repo"], r.end, r.describe_exit(), r.harness_error


def build(ck, kinds):
    for kind in kinds:
        try:
            _exes[kind] = runner.build(["ptvm_san"], sub=kind, defs=["-DPT_SAN=" + kind])["ptvm_san"]
        except runner.BuildError as e:
            ck.log("%s: %s; without the wrappers of dfsan_custom.cpp instead" % (kind, str(e)[-300:].strip()))
            _exes[kind] = runner.build(["ptvm_san_core"], sub=kind, defs=["-DPT_SAN=" + kind])["ptvm_san_core"]
            ck.assumptions.append("the wrappers of dfsan_custom.cpp did not link with the stand-in for dfsan and were left out of the %s run" % kind)


def run(prop, replay=None):
    ck = Check(prop)
    ck.rule = ("A case is a random program of valid calls run on the runtime compiled with AddressSanitizer and UBSan, or with MemorySanitizer. Two cases "
               "count as different when their counts of calls by kind differ; all are non-trivial: each reaches the runtime's tables with tainted data.")
    ck.assumptions += ["the sanitized runtime runs on a stand-in for the dfsan shadow memory (two sanitizer runtimes cannot share a process)",
                       "dfsan's own allocator and shadow code are not covered"]
    build(ck, ["address", "memory"])
    ck.log("built")
    if replay is not None:
        if "section" in replay:
            c09.again(ck, replay)
        elif "leak" in replay:
            judge_leak(ck, _leak(replay["leak"]))
        else:
            r, reps = run_one(_exes[replay["kind"]], replay["kind"], replay["case"])
            for o, p, fr in reps:
                if o == "repo":
                    ck.violation(summary(p, fr), replay)
        ck.evaluations = 1
        ck.finish()
    jobs = []
    for kind, scale in (("address", ck.n(130, 1600)), ("memory", ck.n(25, 300))):
        for profile, w in PROFILES:
            jobs += [(kind, profile, "%d-%d-%d" % (ck.seed, 260, i), 260) for i in range(scale * w)]
    jobs += [("address", p, "%d-long-%d" % (ck.seed, i), 3000) for p in ("dag", "cf", "log", "in", "out") for i in range(ck.n(4, 60))]
    jobs.sort(key=lambda j: -j[3])
    calls = {}
    for job, V, other, hist, labels, end, herr, last in runner.pmap(_one, jobs):
        ck.evaluations += 1
        ck.count("runs_under_" + job[0])
        ck.count("labels_created", labels)
        if other or herr:
            ck.inconclusive += 1
            if ck.inconclusive < 4:
                ck.log("inconclusive", job, other[:1], herr)
        if end is None and not V:
            ck.count("ended_early")
            ck.log("ended early without a report", job, last)
        for o, n in hist.items():
            calls[o] = calls.get(o, 0) + n
        ck.distinct.add(tuple(sorted(hist.items())))
        if V:
            ck.violation("[%s %s %s] %s" % (job[0], job[1], job[2], V[0]), dict(kind=job[0], case=san_case(job[1], job[2], job[3], job[0])))
            if len(ck.violations) >= 8:
                break
    ck.cov["calls_by_kind"] = dict(sorted(calls.items(), key=lambda x: -x[1]))
    ck.cov["calls_monitored"] = sum(calls.values())
    ck.log("random programs done")
    ck.cov["heap_growth_per_600_rounds"] = {}
    for res in runner.pmap(_leak, sorted(LEAKS), chunk=1):
        ck.evaluations += 1
        judge_leak(ck, res)
    c09.sections(ck, c09.KINDS, per=(300, 6000), only="Sanitizer|runtime error")
    ck.sample(dict(leak_workload="open-read-close", lines=LEAKS["open-read-close"]))
    ck.finish()


def judge_leak(ck, res):
    name, heap, reps, end, how, herr = res
    for s in reps:
        ck.violation("[repeated %s] %s" % (name, s), dict(leak=name))
    if len(heap) != 3:
        ck.inconclusive += 1
        ck.log("heap watch %s: %s %s %s" % (name, end, how, herr))
        return
    g1, g2 = heap[1] - heap[0], heap[2] - heap[1]
    ck.cov.setdefault("heap_growth_per_600_rounds", {})[name] = [g1, g2]
    ck.distinct.add(("leak", name))
    # tables may double now and then; a leak grows by at least a byte per round, every time
    if g1 >= ROUNDS and g2 >= ROUNDS:
        ck.violation("%d rounds of %s leave %d, the next %d bytes of memory allocated" % (ROUNDS, name, g1, g2), dict(leak=name))
