"""C08: recordings are complete however a program ends, options are honoured."""
import os
import random
import shutil
import struct

import compare
import gen
import model
import pyside
import rt
import runner
import tdag
from driver import Check

RULE = ("A case is a random program run under the real runtime once with a plain return (the reference, checked against the model) "
        "and once per other way to end; each recording is compared with the reference byte by byte, section by section. Two cases "
        "count as different when the way of ending, its position or the program differ; all record labels, outputs and events.")
FINISH = ["exit 3", "exit 0", "threadexit 5", "deepexit 40 2", "sigexit 10 6", "sigexit 15 1", "mainend", "assert", "onabort", "handler-return", "handler-exit",
          "handler-threadexit"]
KILL = ["_exit 4", "quick_exit 2", "abort", "kill 9", "kill 15", "kill 11", "kill 13"]
BUSY = ["return 0", "exit 3", "threadexit 5", "sigexit 10 6", "assert", "onabort", "kill 9"]
STATUS = {"mainend": 0, "assert": -6, "onabort": 7, "abort": -6, "handler-return": 8, "handler-exit": 9, "handler-threadexit": 10}


def status(e):
    if e in STATUS:
        return STATUS[e]
    a = e.split()
    return -int(a[1]) if a[0] == "kill" else int(a[-1])


def sections(td):
    return {t: (td.sections[t][0], td.sections[t][1]) for t in td.order}


def beyond(td, path):
    """Bytes recorded behind the end of a section: [(tag, file position)]."""
    spans = sorted((o, o + s, t) for t, (o, s) in sections(td).items())
    fd = os.open(path, os.O_RDONLY)
    out = []
    try:
        size = os.fstat(fd).st_size
        for i, (b, e, t) in enumerate(spans):
            end = spans[i + 1][0] if i + 1 < len(spans) else size
            p = e
            while p < end:
                try:
                    p = os.lseek(fd, p, os.SEEK_DATA)
                except OSError:
                    break
                if p >= end:
                    break
                h = min(end, os.lseek(fd, p, os.SEEK_HOLE))
                while p < h:
                    blk = os.pread(fd, min(1 << 20, h - p), p)
                    q = blk.lstrip(b"\0")
                    if q:
                        out.append((t, p + len(blk) - len(q)))
                        p = end
                        break
                    p += len(blk)
    finally:
        os.close(fd)
    return out


def opens(path):
    """The project's reader loads the file and gives access to every part of it."""
    def go():
        from polytracker.taint_dag import TDFile, TDProgramTrace
        with open(path, "rb") as f:
            t = TDFile(f)
            list(t.fd_headers if hasattr(t, "fd_headers") else [])
            for what in ("sinks", "functions", "events"):
                v = getattr(t, what, None)
                if v is not None:
                    n = 0
                    for _ in (v() if callable(v) else v):
                        n += 1
                        if n > 50:
                            break
        if TDProgramTrace.load is not None:
            tr = TDProgramTrace.load(path)
            list(tr.inputs)
        return
        yield
    out = []
    pyside.guarded("C08", "reader", go, out)
    return [x[1] for x in out]


def base_case(seed, nops, busy=False):
    c = gen.make("det", seed, nops)
    body = [l for l in c["script"] if l.split(" ")[0] not in ("return", "exit", "threadexit")]
    if busy:
        body += ["open f298 in0 0", "buf s19 2", "pread r8100 f298 s19+0 2 3", "ld r8101 s19+0", "pread r8102 f298 s19+0 2 40", "ld r8103 s19+0",
                 "u r8104 r8101 r8103", "br r8104", "open f299 /dev/null 1"]
    return c, body


def with_end(c, body, end):
    if end == "onabort":
        s = body + ["onabort 7", "assert"]
    elif end.startswith("handler-"):
        k = len(body) * 2 // 3
        s = body[:k] + ["onexit", "%s %d" % (end[8:], STATUS[end]), "handler"] + body[k:]
    else:
        s = body + [end]
    return dict(c, script=s)


def raw_equal(ref, td, what, growing=()):
    out = []
    for t in ref.order:
        ro, rs = sections(ref)[t]
        if t not in td.sections:
            return ["%s: section %s is missing" % (what, tdag.NAMES[t])]
        o, s = sections(td)[t]
        if o != ro:
            out.append("%s: section %s is at %d instead of %d" % (what, tdag.NAMES[t], o, ro))
            continue
        if not td.unfinished and s != rs and t not in growing:
            out.append("%s: section %s has %d bytes, %d were recorded" % (what, tdag.NAMES[t], s, rs))
        if not td.unfinished and t in growing and s < rs:
            out.append("%s: section %s has %d bytes, at least %d were recorded" % (what, tdag.NAMES[t], s, rs))
        a, b = ref.m[ro:ro + rs], td.m[o:o + rs]
        if a != b:
            i = next(i for i in range(len(a)) if a[i] != b[i])
            out.append("%s: section %s differs from the same run ended by return, at byte %d of %d" % (what, tdag.NAMES[t], i, rs))
    if td.m[:8] != ref.m[:8]:
        out.append("%s: file header %r instead of %r" % (what, td.m[:8], ref.m[:8]))
    return out


def ending(job):
    seed, nops, ends, busy_ends = job
    c, body = base_case(seed, nops, bool(busy_ends))
    d = runner.case_dir()
    V = []   # (text, case)
    info = dict(runs=0, recorded=0, ways={}, inconclusive=0)
    ref = None
    try:
        rc = with_end(c, body, "return 0")
        r = rt.run_tracked(_exes["ptvm"], rc, os.path.join(d, "r00"))
        if r.harness_error or r.timeout:
            info["inconclusive"] += 1
            return V, info
        if r.rc != 0 or not r.tdag:
            V.append(("ended by return: the program %s%s" % (r.describe_exit(), "" if r.tdag else " and left no recording"), rc))
            return V, info
        try:
            ref = tdag.Tdag(r.tdag)
            m = model.Model(rc, r, ref)
            for v in m.go():
                if v.kind in ("structure", "empty-record", "malformed"):
                    V.append(("ended by return: " + v.text(), rc))
            got = dict(sources=len(ref.sources()), outputs=len(ref.sinks()), functions=len(ref.functions()), events=len(ref.events()), log=len(ref.cflog()))
            want = dict(sources=len(m.sources), outputs=len(m.sinks), functions=len(m.fnames), events=len(m.events), log=len(m.cflog))
            for k in got:
                if got[k] != want[k]:
                    V.append(("ended by return: %d %s in the recording, %d were made" % (got[k], k, want[k]), rc))
            if m.maxlabel >= ref.nlabels():
                V.append(("ended by return: label %d was handed out, the recording ends at %d" % (m.maxlabel, ref.nlabels()), rc))
            info["recorded"] += sum(got.values()) + ref.nlabels()
            for t, p in beyond(ref, r.tdag):
                V.append(("ended by return: data recorded at %d, behind the end of section %s" % (p, tdag.NAMES[t]), rc))
            for x in opens(r.tdag):
                V.append(("ended by return: " + x, rc))
        except tdag.Malformed as e:
            V.append(("ended by return: the recording is malformed: %s" % e, rc))
            return V, info
        if V:
            return V, info
        todo = [(e, False) for e in ends] + [(e, True) for e in busy_ends]
        for i, (e, busy) in enumerate(todo):
            b2 = body + ["busy %d r8101 r8103 f299" % (1 + i % 3)] if busy else body
            case = with_end(c, b2, e)
            t = rt.run_tracked(_exes["ptvm"], case, os.path.join(d, "e%02d" % i))
            what = "ended by %s%s" % (e, " with busy threads" if busy else "")
            if t.harness_error or t.timeout and not busy:
                if t.timeout:
                    V.append((what + ": the program does not end", case))
                else:
                    info["inconclusive"] += 1
                continue
            info["runs"] += 1
            info["ways"][what[9:]] = info["ways"].get(what[9:], 0) + 1
            if t.rc != status(e):
                V.append(("%s: the program %s instead of status %d %s" % (what, t.describe_exit(), status(e), t.err[-200:].decode("latin-1").strip()), case))
            if not t.tdag:
                V.append((what + ": no recording was left", case))
                continue
            killed = e in KILL
            try:
                td = tdag.Tdag(t.tdag, unfinished=killed)
                try:
                    grow = (tdag.T_LABELS, tdag.T_FUNCS, tdag.T_STRINGS, tdag.T_EVENTS, tdag.T_CFLOG) if busy else ()
                    for x in raw_equal(ref, td, what, grow):
                        V.append((x, case))
                    if not killed:
                        for x in td.structural_errors():
                            V.append((what + ": " + x, case))
                    if not busy:
                        for tag, p in ([] if killed else beyond(td, t.tdag)):
                            V.append(("%s: data recorded at %d, behind the end of section %s" % (what, p, tdag.NAMES[tag]), case))
                    elif not killed:
                        td.functions(), td.events(), td.cflog()
                        for l in range(1, td.nlabels()):
                            td.denote(l)
                    for x in opens(t.tdag):
                        V.append((what + ": " + x, case))
                finally:
                    td.close()
            except tdag.Malformed as ex:
                V.append(("%s: the recording is malformed: %s" % (what, ex), case))
            os.unlink(t.tdag)
            if len(V) > 4:
                break
        return V, info
    finally:
        if ref is not None:
            ref.close()
        shutil.rmtree(d, ignore_errors=True)


def options(seed):
    """Paths, standard streams, arguments."""
    r = random.Random("opt-%s" % seed)
    files = {"sub dir/keep": b"x".hex(), "in": bytes(range(65, 90)).hex()}
    case = dict(files=files, env={}, seed=seed, profile="options")
    pol = r.choice([None, "", "a.tdag", "./b", "sub dir/c.tdag", "d\u00e9j\u00e0", "old.tdag", "link.tdag", "x" * 200, "abs", "again"])
    if pol is None:
        case["default_db"] = True
    elif pol == "abs" or pol == "again":
        pass
    else:
        case["polydb"] = pol
    if pol == "old.tdag":
        files["old.tdag"] = (bytes(range(1, 250)) * r.choice([1, 40])).hex()
    if pol == "link.tdag":
        files["link.tdag"] = {"kind": "symlink", "to": "sub dir/target"}
    for k in ("POLYTRACKER_STDOUT_SINK", "POLYTRACKER_STDERR_SINK", "POLYTRACKER_STDIN_SOURCE", "POLYTRACKER_TAINT_ARGV"):
        v = r.choice([None, "", "0", "1", "1", "1"])
        if v is not None:
            case["env"][k] = v
    case["argv"] = [bytes(r.randrange(1, 256) for _ in range(r.choice([0, 1, 5, 30]))).hex() for _ in range(r.randrange(0, 9))]
    case["stdin"] = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 40]))).hex()
    case["stdin_kind"] = r.choice(["file", "pipe"])
    case["out_kind"] = r.choice(["file", "pipe"])
    s = ["buf s1 64", "buf s2 64", "open f1 in 0", "read r1 f1 s1+0 20"]
    if r.random() < 0.5:
        s += ["read r2 0 s2+0 17", "read r3 0 s2+17 40"]
    else:
        s += ["fread r2 stdin s2+0 1 60"]
    for i in range(r.randint(1, 6)):
        k, o, n = r.choice([(1, 3, 10), (2, 0, 17), (1, 0, 1), (2, 30, 9)])
        s.append(r.choice(["write r9 1 s%d+%d %d" % (k, o, n), "write r9 2 s%d+%d %d" % (k, o, n),
                           "fwrite r9 stderr s%d+%d 1 %d" % (k, o, n), "fputc r9 r1 stderr"]))
    for i in range(len(case["argv"]) + 1):
        if i < 8:
            s.append("rdl r%d s%d+0 1" % (20 + i, 40 + i))
            s.append("write r9 1 s%d+0 1" % (40 + i))
    case["script"] = s + [r.choice(["return 0", "exit 3"])]
    V = []
    d = runner.case_dir()
    try:
        if pol == "again":  # the path holds an earlier, longer recording
            case["polydb"] = os.path.join(d, "again.tdag")
            c0 = gen.make("det", "again-%s" % seed, r.choice([60, 300]))
            rt.run_tracked(_exes["ptvm"], dict(c0, polydb=case["polydb"]), os.path.join(d, "first"))
        t = rt.run_tracked(_exes["ptvm"], case, d)
        if t.harness_error or t.timeout:
            return case, V, 0
        what = "POLYDB=%r, %s" % (case.get("polydb", None if pol is None else "(absolute)"), " ".join("%s=%s" % x for x in sorted(case["env"].items())))
        if t.end is None:
            V.append("%s: the program %s %s" % (what, t.describe_exit(), t.err[-200:].decode("latin-1")))
        if not t.tdag:
            V.append("%s: there is no recording at the requested path" % what)
            return case, V, 0
        stray = [f for f in t.files if f not in files and f not in ("sub dir/target",)]
        if pol == "link.tdag" and not os.path.islink(os.path.join(t.cwd, "link.tdag")):
            V.append("%s: the link was replaced" % what)
        if pol is not None and os.path.exists(os.path.join(t.cwd, "polytracker.tdag")) and pol != "":
            stray.append("polytracker.tdag")
        if stray:
            V.append("%s: unexpected files %s" % (what, stray))
        td = tdag.Tdag(t.tdag)
        try:
            m = model.Model(case, t, td)
            V += ["%s: %s" % (what, v.text()) for v in m.go()]
            n = len(m.sources) + len(m.sinks) + td.nlabels()
            V += ["%s: data recorded at %d, behind the end of section %s" % (what, p, tdag.NAMES[tag]) for tag, p in beyond(td, t.tdag) if pol == "again"]
        finally:
            td.close()
        return case, V, n
    except tdag.Malformed as e:
        return case, ["%s: malformed: %s" % (what, e)], 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def preinit(seed):
    """Callbacks that fire before the tracker is initialized."""
    r = random.Random("pre-%s" % seed)
    c = gen.make("det", "pre-%s" % seed, 60)
    c["env"] = {}
    body = [l for l in c["script"] if l.split(" ")[0] not in ("return", "exit", "threadexit")]
    pre = []
    for _ in range(r.randint(1, 25)):
        pre.append(r.choice([
            "imm r%d %d" % (r.randrange(6), r.choice([0, 1, 77, 1 << 31])), "fe r7 x6d61696e", "fes r7 x66", "fx r7", "u r6 r1 r2", "br r1", "brw r2",
            "tcf r%d r%d %d" % (r.randrange(6), r.randrange(6), r.choice([0, 5, 1 << 31])), "ent %d" % r.randrange(9), "lev %d" % r.randrange(9)]))
    V = []
    d = runner.case_dir()
    tds = []
    try:
        never = r.random() < 0.2
        case = dict(c, script=pre + ([] if never else ["start"] + body) + ["return 0"], env={"PTVM_NO_START": "1"})
        t = rt.run_tracked(_exes["ptvm"], case, os.path.join(d, "p"))
        if t.harness_error or t.timeout:
            return case, V, 0
        if t.rc != 0:
            V.append("calls before initialization: the program %s %s" % (t.describe_exit(), t.err[-200:].decode("latin-1")))
            return case, V, 0
        n = runner.execute(_exes["ptvm_native"], case, os.path.join(d, "n"), "n", timeout=120, env_extra={"PTVM_BANNER": compare.banner(t.out).decode("latin-1")})
        for i in range(len(pre)):
            op = pre[i].split()[0]
            a, b = compare.norm(op, n.trace.get(i, [])), compare.norm(op, t.trace.get(i, []))
            if a != b:
                V.append("`%s` before initialization gives %s, untracked %s" % (pre[i], b, a))
            tok = model.Tok(t.trace.get(i, []))
            if tok.label not in (None, 0):
                V.append("`%s` before initialization gives label %d" % (pre[i], tok.label))
        if never:
            if t.tdag:
                V.append("a recording appeared without initialization")
            return case, V, len(pre)
        if not t.tdag:
            V.append("no recording after calls before initialization")
            return case, V, 0
        u = rt.run_tracked(_exes["ptvm"], dict(c, script=body + ["return 0"]), os.path.join(d, "u"))
        if u.rc != 0 or not u.tdag:
            return case, V, 0
        tds = [tdag.Tdag(u.tdag), tdag.Tdag(t.tdag)]
        V += raw_equal(tds[0], tds[1], "after calls before initialization")
        return case, V, len(pre)
    except tdag.Malformed as e:
        return case, V + ["malformed: %s" % e], 0
    finally:
        for x in tds:
            x.close()
        shutil.rmtree(d, ignore_errors=True)


def bad_paths():
    """A recording that cannot be created stops the program instead of being lost."""
    V = []
    for pol in ("no/such/dir/x.tdag", "sub", "in/x"):
        d = runner.case_dir()
        try:
            case = dict(files={"sub/keep": "00", "in": "00"}, polydb=pol, script=["note hello", "return 0"])
            t = runner.execute(_exes["ptvm"], case, d, "t", timeout=60)
            if t.rc is None or t.rc <= 0 or t.order:
                V.append(("POLYDB=%s cannot be created, yet the program %s after %d steps" % (pol, t.describe_exit(), len(t.order)), case))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return V


_exes = None


def run(prop, replay=None):
    global _exes
    ck = Check(prop)
    ck.rule = RULE
    ck.assumptions = ["programs of one process (a forked child leaves without running exit handlers)", "the machine itself does not lose power: what a killed process stored in the shared mapping is in the file"]
    _exes = runner.build(["ptvm", "ptvm_native"])
    ck.log("built")
    if replay is not None:
        V = []
        if replay.get("kind") == "ending":
            V, _ = ending(tuple(replay["job"]))
            V = [x[0] for x in V]
        elif replay.get("kind") == "options":
            V = options(replay["seed"])[1]
        elif replay.get("kind") == "preinit":
            V = preinit(replay["seed"])[1]
        else:
            V = [x[0] for x in bad_paths()]
        for v in V[:3]:
            ck.violation(v, replay)
        ck.evaluations = 1
        ck.finish()
    r = random.Random("c08-%d" % ck.seed)
    jobs = []
    for i in range(ck.n(400, 4000)):
        ends = FINISH + KILL
        r.shuffle(ends)
        jobs.append(("%d-%d" % (ck.seed, i), r.choice([20, 60, 160, 400]), ends[:8], r.sample(BUSY, 2) if i % 3 == 0 else []))
    ways = {}
    for job, (V, info) in zip(jobs, runner.pmap(ending, jobs)):
        ck.evaluations += info["runs"]
        ck.inconclusive += info["inconclusive"]
        ck.count("records_compared", info["recorded"])
        for w, n in info["ways"].items():
            ways[w] = ways.get(w, 0) + n
            ck.distinct.add((job[0], w))
        for text, case in V[:1]:
            ck.violation("[%s] %s" % (job[0], text), dict(kind="ending", job=list(job), case=case))
        if len(ck.violations) >= 6:
            break
    ck.cov["runs_by_ending"] = ways
    ck.sample(dict(endings=jobs[0][2], program=base_case(jobs[0][0], jobs[0][1])[1][:12]))
    ck.log("endings done")
    seeds = ["%d-%d" % (ck.seed, i) for i in range(ck.n(600, 6000))]
    for s, (case, V, n) in zip(seeds, runner.pmap(options, seeds)):
        ck.evaluations += 1
        if n:
            ck.distinct.add(("opt", case.get("polydb", "-"), tuple(sorted(case["env"].items())), len(case["argv"])))
        ck.count("option_runs")
        for v in V[:1]:
            ck.violation("[options %s] %s" % (s, v), dict(kind="options", seed=s))
        if len(ck.violations) >= 6:
            break
    ck.log("options done")
    for s, (case, V, n) in zip(seeds[:ck.n(250, 2500)], runner.pmap(preinit, seeds[:ck.n(250, 2500)])):
        ck.evaluations += 1
        ck.count("calls_before_initialization", n)
        if n:
            ck.distinct.add(("pre", s))
        for v in V[:1]:
            ck.violation("[before initialization %s] %s" % (s, v), dict(kind="preinit", seed=s))
        if len(ck.violations) >= 6:
            break
    for v, case in bad_paths():
        ck.violation(v, dict(kind="path", case=case))
    ck.evaluations += 3
    ck.finish()
