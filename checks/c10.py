"""C10: threads on the real runtime.  harness/stress.cpp notes what every thread did;
this checks the notes against the finished recording (exactly once, intact, ordered),
and runs the same workload under ThreadSanitizer."""
import hashlib
import os
import re
import shutil
import signal
import subprocess
from collections import Counter, defaultdict

import runner
import tdag
from driver import Check

RULE = ("A case is a run of 2 to 8 threads that read, combine labels, write, branch, enter and leave functions and open and close sources at once, with delays "
        "injected at locks and by signals at arbitrary points. Two cases count as different when the order in which the threads' records ended up in the "
        "recording differs; all are non-trivial: several threads were inside the runtime at the same time.")
FILES = 14
U64 = (1 << 64) - 1


class Op:
    __slots__ = ("t", "k", "t0", "t1", "a", "b", "r", "lab")

    def __init__(self, line):
        f = line.split(" ")
        self.t, self.k = int(f[0]), f[1]
        self.t0, self.t1, self.a, self.b, self.r = map(int, f[2:7])
        self.lab = [int(x) for x in f[7].split(",")] if f[7] else []

    def __str__(self):
        return "thread %d %s(%d, %d) = %d" % (self.t, self.k, self.a, self.b, self.r)


def execute(exe, job, timeout=120, env_extra=None, keep=None):
    seed, threads, nops, delay, mix = job
    d = runner.case_dir()
    w = os.path.join(d, "w")
    os.makedirs(w)
    try:
        for t in range(threads):
            for k in range(FILES):
                with open(os.path.join(w, "t%d_%d" % (t, k)), "wb") as f:
                    f.write(bytes((t * 31 + k * 7 + i) % 256 for i in range(40 + k)))
        with open(os.path.join(w, "shared"), "wb") as f:
            f.write(bytes(i % 251 for i in range(500)))
        env = dict(runner.HERE_ENV, POLYDB=os.path.join(d, "out.tdag"))
        env.update({k: v.replace("@", d) for k, v in (env_extra or {}).items()})
        log = os.path.join(d, "log")
        p = subprocess.Popen([exe, str(seed), str(threads), str(nops), str(delay), str(mix), log], cwd=w, env=env, stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        hang = False
        try:
            _, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            hang = True
            os.killpg(p.pid, signal.SIGKILL)
            _, err = p.communicate()
        ops = None
        if os.path.exists(log):
            with open(log) as f:
                lines = f.read().split("\n")
            if len(lines) > 1 and lines[-2] == "end":
                ops = [Op(x) for x in lines[:-2]]
        return keep(d, p.returncode, hang, err.decode("latin-1"), ops, threads)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Bad(Exception):
    pass


def order(what, seq):
    """seq: operations in recorded order; one that ended before another began comes first."""
    latest = None
    for o in seq:
        if latest is not None and o.t1 < latest.t0:
            raise Bad("%s: %s is recorded after %s, which began %d ns after it had ended" % (what, o, latest, latest.t0 - o.t1))
        if latest is None or o.t0 > latest.t0:
            latest = o


def own_order(what, seq, per):
    """Each thread's records appear in its own order."""
    pos = defaultdict(int)
    for o in seq:
        want = per[o.t][pos[o.t]] if pos[o.t] < len(per[o.t]) else None
        if want is not o:
            raise Bad("%s: records of thread %d are out of order or lost: found %s, expected %s" % (what, o.t, o, want))
        pos[o.t] += 1
    for t, l in per.items():
        if pos[t] != len(l):
            raise Bad("%s: of %d records of thread %d only %d are present; first missing: %s" % (what, len(l), t, pos[t], l[pos[t]]))


def check(td, ops, threads):
    """-> info; raises Bad."""
    for e in td.structural_errors():
        raise Bad(e)
    by = defaultdict(list)
    for o in ops:
        by[o.k].append(o)
    # --- sources
    src = td.sources()
    names = [n for n, fd, sz in src]
    opened = by["open"] + by["fopen"]
    failed = [o for o in opened if o.r < 0]
    if failed:
        raise Bad("%s failed" % failed[0])
    want = Counter([b"shared", b"fi", b"fo"] + [b"o%d" % i for i in range(threads)] + [b"t%d_%d" % (o.t, o.a) for o in opened])
    if Counter(names) != want:
        raise Bad("sources recorded differ from those opened: missing %s, extra %s" % (list((want - Counter(names)))[:4], list((Counter(names) - want))[:4]))
    idx = {n: i for i, n in enumerate(names)}
    bysrc = {}
    for o in opened:
        i = idx[b"t%d_%d" % (o.t, o.a)]
        bysrc[i] = o
        if src[i][1] != o.r or src[i][2] != 40 + o.a:
            raise Bad("source %r is recorded with descriptor %d and size %d, opened as %d with %d bytes" % (names[i], src[i][1], src[i][2], o.r, 40 + o.a))
    seq = [bysrc[i] for i in sorted(bysrc)]
    per = defaultdict(list)
    for o in ops:
        if o.k in ("open", "fopen"):
            per[o.t].append(o)
    own_order("sources", seq, per)
    order("sources", seq)
    # --- source labels
    raws = td.all_raw()
    n = len(raws)
    owner = {}
    pos = defaultdict(int)
    stream = []
    for o in ops:
        if o.k not in ("read", "pread", "sread"):
            continue
        if o.r < 0:
            raise Bad("%s failed" % o)
        for i, l in enumerate(o.lab):
            if not 0 < l < n:
                raise Bad("%s: byte %d has label %d, of %d recorded" % (o, i, l, n))
            if l in owner:
                raise Bad("label %d was given to a byte of %s and to one of %s" % (l, owner[l], o))
            owner[l] = o
            if l != o.lab[0] + i:
                raise Bad("%s: labels %s of one read are not contiguous" % (o, o.lab))
        dec = [td.decode(raws[l]) for l in o.lab]
        if o.k == "read":
            s, off = idx[b"t%d_%d" % (o.t, o.a)], pos[(o.t, o.a)]
            pos[(o.t, o.a)] += o.r
        elif o.k == "pread":
            s, off = idx[b"shared"], o.a
        else:
            s, off = idx[b"fi"], dec[0][2] if dec and dec[0][0] == "src" else None
            stream.append((off, o))
        for i, x in enumerate(dec):
            if x != ("src", s, off + i if off is not None else None):
                raise Bad("%s: byte %d is recorded as %s, expected byte %s of source %d" % (o, i, x, off + i if off is not None else "?", s))
    at = 0
    for off, o in sorted(stream, key=lambda x: x[0]):
        if off != at:
            raise Bad("stream positions %s: %s starts at %d, the reads before it end at %d" % ("overlap" if off < at else "leave a gap", o, off, at))
        at += o.r
    order("labels of reads", [o for _, o in sorted([(o.lab[0], o) for o in ops if o.k in ("read", "pread", "sread") and o.lab], key=lambda x: x[0])])
    order("stream reads", [o for _, o in sorted(stream, key=lambda x: x[0])])
    # --- unions
    made = {}
    for o in by["union"]:
        if not 0 < o.r < n:
            raise Bad("%s: no such label (%d recorded)" % (o, n))
        if td.denote(o.r) != td.denote(o.a) | td.denote(o.b):
            raise Bad("%s: label %d stands for %s instead of the bytes of both" % (o, o.r, td.explain(td.denote(o.r))))
        made.setdefault(o.r, []).append(o)
    for l in range(1, n):
        d = td.decode(raws[l])
        if d[0] == "src":
            if l not in owner:
                raise Bad("label %d records byte %d of source %d but no read returned it" % (l, d[2], d[1]))
        elif d[0] == "none":
            raise Bad("label %d has no record" % l)
        elif l not in made:
            raise Bad("label %d (%s) was returned by no union" % (l, d))
    bits = td.index_bits()
    if bits != set(owner):
        raise Bad("the index of source labels is wrong for %s" % sorted(bits ^ set(owner))[:6])
    # --- control flow
    closure = set()
    st = [o.a for o in by["br"]]
    while st:
        l = st.pop()
        if l in closure:
            continue
        closure.add(l)
        d = td.decode(raws[l])
        if d[0] == "range":
            st.extend(range(d[1], d[2] + 1))
        elif d[0] == "union":
            st.extend(d[1:])
    marked = {l for l in range(n) if raws[l] & tdag.CF_BIT}
    if marked != closure:
        raise Bad("control-flow marks are missing on %s and wrong on %s" % (sorted(closure - marked)[:6], sorted(marked - closure)[:6]))
    # --- outputs
    sinks = td.sinks()
    outs = defaultdict(list)
    for i, (s, off, l) in enumerate(sinks):
        outs[s].append((off, l, i))
    for t in range(threads):
        s = idx[b"o%d" % t]
        off, wantl = 0, []
        for o in ops:
            if o.t == t and o.k == "write":
                if o.r != o.b:
                    raise Bad("%s wrote less" % o)
                wantl += [(off + i, l) for i, l in enumerate(o.lab) if l]
                off += o.b
        got = [x[:2] for x in outs.pop(s, [])]
        if got != wantl:
            k = next((i for i, (a, b) in enumerate(zip(got, wantl)) if a != b), min(len(got), len(wantl)))
            raise Bad("outputs of thread %d differ at record %d: %s, expected %s (%d records, expected %d)" % (t, k, got[k:k + 1], wantl[k:k + 1], len(got), len(wantl)))
    sw = {}
    for o in by["swrite"]:
        if o.r == o.b:
            sw[o.lab[0]] = o
        # a write the full stream refused left nothing
    shared = outs.pop(idx[b"fo"], [])
    where = {l: (off, i) for off, l, i in shared}
    if len(where) != len(shared) or len(shared) != sum(o.b for o in sw.values()):
        raise Bad("the shared output has %d records of %d bytes, %d bytes were written" % (len(shared), len(where), sum(o.b for o in sw.values())))
    spans = []
    for l, o in sw.items():
        for i in range(o.b):
            if l + i not in where:
                raise Bad("%s: byte %d is not recorded" % (o, i))
            if where[l + i][0] != where[l][0] + i:
                raise Bad("%s: byte %d is recorded at %d, the first at %d" % (o, i, where[l + i][0], where[l][0]))
        spans.append((where[l][0], o))
    spans.sort(key=lambda x: x[0])
    at = 0
    for off, o in spans:
        if off != at:
            raise Bad("output positions %s: %s starts at %d, the writes before it end at %d" % ("overlap" if off < at else "leave a gap", o, off, at))
        at += o.b
    order("shared output", [o for _, o in spans])
    if outs:
        raise Bad("outputs are recorded for source %d, which was never written" % list(outs)[0])
    # --- functions
    fn = td.functions()
    wantn = {}
    for o in by["fep"] + by["fes"]:
        name = b"p%d_%d" % (o.t, o.a) if o.k == "fep" else b"s_%d" % o.a
        if wantn.setdefault(name, o.r) != o.r:
            raise Bad("function %r got the indices %d and %d" % (name, wantn[name], o.r))
        if o.r >= len(fn) or fn[o.r] != name:
            raise Bad("%s: index %d is recorded as %r" % (o, o.r, fn[o.r] if o.r < len(fn) else None))
    if len(fn) != len(wantn) or set(fn) != set(wantn):
        raise Bad("%d functions are recorded, %d were entered" % (len(fn), len(wantn)))
    ev = td.events()
    priv = {}
    per = defaultdict(list)
    for o in ops:
        if o.k in ("fep", "fxp"):
            priv[(0 if o.k == "fep" else 1, o.r)] = o
            per[o.t].append(o)
    seq, sh = [], Counter()
    for e in ev:
        if e in priv:
            seq.append(priv[e])
        else:
            sh[e] += 1
    if sh != Counter((0, o.r) for o in by["fes"]):
        raise Bad("events of shared functions: %s" % list(((Counter((0, o.r) for o in by["fes"])) - sh) + (sh - Counter((0, o.r) for o in by["fes"])))[:4])
    own_order("function events", seq, per)
    order("function events", seq)
    # --- control-flow log
    kinds = {"ent": 0, "lev": 1, "tcf": 2}
    ids = {}
    per = defaultdict(list)
    for o in ops:
        if o.k in kinds:
            ids[o.a] = o
            per[o.t].append(o)
    seq = []
    for e in td.cflog():
        o = ids.get(e[1])
        if o is None or kinds[o.k] != e[0] or (e[0] == 2 and e[2] != o.b):
            raise Bad("control-flow log has %s, the program did %s" % (e, o))
        seq.append(o)
    own_order("control-flow log", seq, per)
    order("control-flow log", seq)
    # --- how concurrent it was
    inter = [owner[l].t if l in owner else made[l][0].t for l in range(1, n)]
    switches = sum(a != b for a, b in zip(inter, inter[1:])) + sum(a.t != b.t for a, b in zip(seq, seq[1:]))
    al = sorted(ops, key=lambda o: o.t0)
    overlap, end, who = 0, 0, None
    for o in al:
        if o.t0 < end and who != o.t:
            overlap += 1
        if o.t1 > end:
            end, who = o.t1, o.t
    sig = hashlib.sha1(bytes(inter) + b"|" + bytes(o.t for o in seq)).hexdigest()
    return dict(switches=switches, overlap=overlap, sig=sig, ops=len(ops), labels=n, kinds=Counter(o.k for o in ops), dup=sum(len(v) - 1 for v in made.values()))


def judge_plain(d, rc, hang, err, ops, threads):
    if hang:
        return ["hang"], None
    path = os.path.join(d, "out.tdag")
    if rc != 0 or ops is None:
        return ["the program ended with status %s: %s" % (rc, err[-200:].strip())], None
    try:
        td = tdag.Tdag(path)
        try:
            return [], check(td, ops, threads)
        finally:
            td.close()
    except (Bad, tdag.Malformed) as e:
        return [str(e)[:400]], None
    except OSError as e:
        return ["the run left no recording: %s" % e], None


def frames(text):
    return re.findall(r"(?m)^    #\d+ (.*)", text)


def judge_tsan(d, rc, hang, err, ops, threads):
    text = ""
    for f in sorted(os.listdir(d)):
        if f.startswith("report"):
            text += open(os.path.join(d, f), "rb").read().decode("latin-1")
    out = []
    other = 0
    for rep in re.split(r"(?m)^=+\n", text):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", rep)
        if not m:
            continue
        # the two accesses; where memory or threads come from does not matter
        body = re.split(r"(?m)^  (?:Location is|Thread T|Mutex M|As if synchronized)", rep)[0]
        mine = [f for f in frames(body) if runner.REPO + "/" in f]
        if not mine:
            other += 1
            continue
        at = [re.sub(r"\(stress\+.*", "", re.sub(r"<.*>", "<..>", f))[:160] for f in mine]
        out.append("%s at %s%s" % (m.group(1).strip(), at[0], " and %s" % next((x for x in at[1:] if x != at[0]), "") if len(set(at)) > 1 else ""))
    return out, dict(ran=rc in (0, 66) and not hang, other=other, ops=len(ops or []), err=err[-300:])


_exe = {}


def section_run(exe, kind, seed, start, count, tsan):
    d = runner.case_dir()
    try:
        env = dict(runner.HERE_ENV)
        if tsan:
            env["TSAN_OPTIONS"] = TSAN["TSAN_OPTIONS"].replace("@", d)
        p = subprocess.run([exe, kind, str(seed), str(start), str(count)], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=100 * count + 60)
        V = judge_tsan(d, 0, False, "", None, 0)[0] if tsan else []
        out = p.stdout.decode("latin-1")
        return out, V
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _section(job):
    how, kind, seed, start, count = job
    out, V = section_run(_exe["sections-" + how], kind, seed, start, count, how == "tsan")
    rounds = sum(int(x) for x in re.findall(r"^ok .* ops=(\d+)", out, re.M))
    for line in out.splitlines():
        if line.startswith("BAD "):
            V.append(line[4:])
        elif line.startswith("DIED ") and not V and " 66 " not in line:
            o2, V2 = section_run(_exe["sections-" + how], kind, seed, int(line.split()[2]), 1, how == "tsan")
            V += V2
            if "DIED " in o2 or "BAD " in o2:
                V.append(o2.strip()[:200])
    return job, V, rounds


TSAN = {"TSAN_OPTIONS": "log_path=@/report:exitcode=66:halt_on_error=0:history_size=4:second_deadlock_stack=1"}


def _plain(job):
    r = execute(_exe["plain"], job, keep=judge_plain)
    if r[0] == ["hang"]:  # a slow machine is not a hang
        r = execute(_exe["plain"], job, timeout=600, keep=judge_plain)
        if r[0] == ["hang"]:
            r = (["the threads never finish"], None)
    return (job,) + r


def _tsan(job):
    return (job,) + execute(_exe["tsan"], job, timeout=300, env_extra=TSAN, keep=judge_tsan)


def run(prop, replay=None):
    ck = Check(prop)
    ck.rule = RULE
    ck.assumptions = ["schedules are sampled: real threads on this machine with injected delays",
                      "threads share labels through properly synchronised memory, as a program without data races of its own does",
                      "ThreadSanitizer runs use a stand-in for the dfsan shadow memory"]
    _exe["plain"] = runner.build(["stress"])["stress"]
    ck.log("built")
    try:
        _exe["tsan"] = runner.build(["stress"], sub="thread", defs=["-DPT_SAN=thread"])["stress"]
    except runner.BuildError as e:
        ck.log("no ThreadSanitizer build: %s" % str(e)[-300:])
        ck.assumptions.append("the ThreadSanitizer build failed; only the recordings were checked")
    for how, kw in (("plain", {}), ("tsan", dict(sub="thread", defs=["-DPT_SAN=thread"]))):
        try:
            _exe["sections-" + how] = runner.build(["sections"], **kw)["sections"]
        except runner.BuildError as e:
            ck.log("the section harness does not build (%s): %s" % (how, str(e)[-300:]))
            ck.assumptions.append("the section harness did not build (%s) and was left out" % how)
    ck.log("built for ThreadSanitizer")
    if replay is not None:
        job = tuple(replay["job"])
        for i in range(30):  # schedules vary
            V = dict(plain=_plain, tsan=_tsan, section=_section)[replay["how"]](job)[1]
            if V:
                ck.violation(V[0], replay)
                break
        ck.evaluations = i + 1
        ck.finish()
    jobs = []
    for i in range(ck.n(240, 3000)):
        jobs.append((ck.seed * 100000 + i, [8, 4, 2, 8, 6, 3][i % 6], [3000, 1500, 3000, 1500][i // 6 % 4], [0, 1, 2, 3][i % 4], [0, 1, 2, 3, 0][i % 5]))
    kinds = Counter()
    for job, V, info in runner.pmap(_plain, jobs, jobs=3, chunk=1):
        ck.evaluations += 1
        if V:
            ck.violation("[threads %s] %s" % (job, V[0]), dict(how="plain", job=job))
            if len(ck.violations) >= 6:
                break
        elif info:
            ck.distinct.add(info["sig"])
            for k in ("switches", "overlap", "ops", "labels"):
                ck.count({"switches": "records_next_to_one_of_another_thread", "overlap": "calls_overlapping_another_thread",
                          "ops": "calls_checked", "labels": "labels_checked"}[k], info[k])
            kinds.update(info["kinds"])
            ck.sample(dict(threads=job[1], operations=job[2], delays=job[3], overlapping=info["overlap"], switches=info["switches"]))
    ck.cov["calls_by_kind"] = dict(kinds)
    ck.log("recordings done")
    if "tsan" in _exe:
        jobs = [(ck.seed * 1000 + i, [4, 6, 3][i % 3], [1200, 600][i % 2], [0, 1, 2][i // 2 % 3], [0, 1, 2, 3][i % 4]) for i in range(ck.n(120, 1200))]
        seen = set()
        for job, V, info in runner.pmap(_tsan, jobs, jobs=3, chunk=1):
            ck.evaluations += 1
            ck.count("runs_under_ThreadSanitizer")
            ck.count("calls_under_ThreadSanitizer", info["ops"])
            if not info["ran"]:
                ck.inconclusive += 1
                ck.log("ThreadSanitizer run did not finish", job, info["err"])
            for v in V:
                if v not in seen:
                    seen.add(v)
                    ck.violation("[ThreadSanitizer %s] %s" % (job, v), dict(how="tsan", job=job))
            if len(ck.violations) >= 8:
                break
    ck.log("ThreadSanitizer runs done")
    jobs = [("plain", k, ck.seed, 10 * i, 10) for k in ("mtbitmap", "mtmix") for i in range(ck.n(60, 1500)) if "sections-plain" in _exe]
    jobs += [("tsan", k, ck.seed, 2 * i, 2) for k in ("mtbitmap", "mtmix") for i in range(ck.n(4, 60)) if "sections-tsan" in _exe]
    for job, V, rounds in runner.pmap(_section, jobs, jobs=2, chunk=1):
        ck.evaluations += 1
        ck.count("rounds_on_small_sections", rounds)
        for v in V[:1]:
            ck.violation("[sections shared by threads %s] %s" % (job[1:], v), dict(how="section", job=job))
        if len(ck.violations) >= 8:
            break
    ck.finish()
