"""C09: capacities.  Small sections with a model next to each (harness/sections.cpp,
under ASan) and the real runtime driven into its real limits."""
import os
import random
import re
import shutil
import subprocess

import model
import runner
import tdag
from driver import Check

KINDS = ["strings", "sources", "functions", "labels", "farlabels", "encoding", "sinks", "events", "cflog", "offsets", "deq", "bitmap", "layout"]
RULE = ("A case is either a random operation sequence on one section given a small block of memory (between ASan red zones) with a model of its contents, "
        "or a program that drives the real runtime over one of its real limits, its recording checked against a model that knows the space of each section "
        "from the file layout. Sequences count as different by section kind and number of operations made; all reach or approach a capacity.")


def hx(b):
    return "x" + b.hex()


class Full(model.Model):
    """The run model, with the limits of the recording."""

    def __init__(self, case, run, td, finished=True):
        super().__init__(case, run, td, finished)
        spans = sorted((o, t) for t, (o, s, a) in td.sections.items())
        self.cap = {t: (spans[i + 1][0] if i + 1 < len(spans) else td.file_size) - o for i, (o, t) in enumerate(spans)}
        self.names = 0
        self.over = 0

    def room(self, name):
        need = (len(name) + 3) // 2 * 2
        if len(name) > 65535 or need > self.cap[tdag.T_STRINGS] - self.names:
            self.over += 1
            return False
        self.names += need
        return True

    def add_source(self, name, sizes, fd):
        if not self.room(name):
            self.fdsrc.pop(fd, None)
            return None
        if len(self.sources) >= self.cap[tdag.T_SOURCES] // 16:
            self.over += 1
        return super().add_source(name, sizes, fd)

    def fits_function(self, n):
        return n in self.fidx or (len(self.fnames) < min(65535, self.cap[tdag.T_FUNCS] // 4) and len(n) <= 65535 and
                                  (len(n) + 3) // 2 * 2 <= self.cap[tdag.T_STRINGS] - self.names)

    def op_fe(self, a, t):
        n = bytes.fromhex(a[1][1:])
        if not self.fits_function(n):
            self.over += 1
            return
        if n not in self.fidx:
            self.room(n)
        super().op_fe(a, t)

    op_fes = op_fe

    def final(self):
        k = self.cap[tdag.T_SINKS] // 16
        if len(self.sinks) > k:
            self.over += len(self.sinks) - k
            self.sinks = self.sinks[:k]
        super().final()


# ---------------------------------------------------------------- real limits
FILES = {"in0": bytes(range(200)).hex(), "in1": b"abcdefgh".hex(), "lbl": bytes(range(1, 129)).hex()}


def case_sources(rng):
    s = ["buf s0 256", "open f40 x6c626c 0", "read _ f40 s0+0 20", "open f41 x6f31 577 420"]
    openfd = []
    n = 2
    limit = 253 + rng.randrange(12)
    step = 0
    while n < limit or step < limit:
        step += 1
        r = rng.random()
        if r < 0.55 or not openfd:
            k = rng.randrange(20)
            if k in openfd:
                s.append("close f%d" % k)
                openfd.remove(k)
            kind = rng.choice(["open", "open64", "openat"])
            path = "./" * rng.randrange(3) + rng.choice(["in0", "in1", "lbl"])
            s.append("%s f%d %s%s 0" % (kind, k, "-100 " if kind == "openat" else "", hx(path.encode())))
            openfd.append(k)
            n += 1
        elif r < 0.75:
            s.append("read r0 f%d s0+%d %d" % (rng.choice(openfd), rng.randrange(200), rng.randrange(1, 9)))
        elif r < 0.9:
            s.append("write r0 f41 s0+%d %d" % (rng.randrange(200), rng.randrange(1, 30)))
        else:
            k = rng.choice(openfd)
            s.append("close f%d" % k)
            openfd.remove(k)
    for k in openfd:
        s.append("pread r0 f%d s0+%d 4 1" % (k, rng.randrange(200)))
    s += ["write r0 f41 s0+0 250", "return 0"]
    return s


def names_until(rng, room, cap=1 << 20):
    """Calls that leave `room` bytes of the name table."""
    s = []
    left = cap
    i = 0
    while left > room:
        L = rng.choice([65535, 65534, rng.randrange(5000, 65536), rng.randrange(5000, 65536)])
        need = (L + 3) // 2 * 2
        if need > left - room or left - room - need < 14:
            need = min(left - room, 65536)
            if left - room - need in range(1, 14):
                need -= 20
            L = need - 2 - rng.randrange(2)
        i += 1
        s.append("%s r%d %s" % (rng.choice(["fe", "fes"]), i % 30, hx((b"%d." % i).ljust(L, b"n"))))
        left -= need
        if rng.random() < 0.3:
            s.append("fx r%d" % (i % 30))
    return s


def case_names(rng):
    room = rng.choice([0, 2, 4, 6, 40])
    s = ["buf s0 256"] + names_until(rng, room)
    for L in [rng.randrange(0, 3), rng.randrange(30, 50), rng.randrange(0, 6), 0, 1]:
        s.append("fe r5 %s" % hx(bytes(rng.randrange(97, 123) for _ in range(L))) if L else "fe r5 x")
    return s + ["fe r6 x7a7a7a7a7a7a7a", "return 0"]


def case_names_open(rng):
    room = rng.choice([0, 4, 6, 8, 30])
    s = ["buf s0 256"] + names_until(rng, room)
    for i, p in enumerate(rng.sample(["in0", "./in0", "././././././././in1", "in1", "lbl", ".//lbl"], 6)):
        s += ["open f%d %s 0" % (i, hx(p.encode())), "read r0 f%d s0+%d 5" % (i, 10 * i)]
    s += ["open f9 x6f31 577 420", "write r0 f9 s0+0 80", "u r1 r2 r3"]
    s += ["close f%d" % i for i in rng.sample(range(6), 3)]
    return s + ["open f11 x696e30 0", "read r0 f11 s0+90 5", "ld r2 s0+1", "ld r3 s0+21", "u r1 r2 r3", "br r1", "return 0"]


def case_functions(rng):
    s = ["buf s0 256"]
    for i in range(65534):
        s.append("fe r%d %s" % (i % 50, hx(b"%x" % i)))
        if i % 9000 == 0:
            s.append("fx r%d" % (i % 50))
            s.append("fe r51 %s" % hx(b"%x" % (i // 2)))
    s += ["fe r1 x7a", "fx r1", "fe r2 x30", "fe r3 x7a"]
    return s + ["fe r4 x7a7a", "fe r5 x31", "return 0"]


def case_sinks(rng):
    n = (1 << 20) // 128
    s = ["buf s0 128", "open f0 x6c626c 0", "read _ f0 s0+0 128", "open f1 x6f31 577 420", "open f2 x6f32 577 420", "write r0 f2 s0+3 %d" % rng.randrange(1, 120)]
    s += ["write r0 f1 s0+0 128"] * (n - 2) + ["write r0 f2 s0+0 100", "write r0 f1 s0+0 100"] + ["write r0 f1 s0+0 %d" % rng.randrange(1, 128) for _ in range(4)]
    return s + ["write r0 f2 s0+0 128", "return 0"]


MAKE = {"sources": case_sources, "names": case_names, "names-open": case_names_open, "functions": case_functions, "sinks": case_sinks}
_exe = None


def make(kind, seed):
    return dict(script=MAKE[kind](random.Random("c09-%s-%s" % (kind, seed))), files=dict(FILES), argv=[], env={})


def _limit(job):
    return (job,) + judge(make(*job))


def judge(case):
    d = runner.case_dir()
    try:
        r = runner.execute(_exe, case, d, "t", timeout=300)
        if r.timeout or r.harness_error:
            return [], 0, r.harness_error or "timeout"
        if not r.tdag:
            return ["the run left no recording"], 0, None
        td = tdag.Tdag(r.tdag)
        try:
            m = Full(case, r, td)
            V = [v.text() for v in m.go()]
            if r.end is None:
                line = case["script"][r.last_idx] if r.last_idx is not None else "start"
                a = line.split(" ")
                ok = a[0] in ("fe", "fes") and not m.fits_function(bytes.fromhex(a[2][1:]))
                if not ok:
                    V.append("the program %s at '%s' though there was room" % (r.describe_exit(), line[:80]))
                elif r.rc is None or r.rc < 0:
                    V.append("the program %s when it ran out of room" % r.describe_exit())
                else:
                    m.over += 1
            return [v[:300] for v in V], m.over, None
        except tdag.Malformed as e:
            return ["the recording is malformed: %s" % e], 0, None
        finally:
            td.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- small sections
_sect = None


def section_run(kind, seed, start, count):
    d = runner.case_dir()
    try:
        env = dict(os.environ, ASAN_OPTIONS="log_path=%s/report:exitcode=97:detect_leaks=0:allocator_may_return_null=1" % d,
                   UBSAN_OPTIONS="log_path=%s/report:print_stacktrace=1:halt_on_error=1:exitcode=97" % d)
        p = subprocess.run([_sect, kind, str(seed), str(start), str(count)], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=80 * count + 60)
        rep = ""
        for f in sorted(os.listdir(d)):
            if f.startswith("report"):
                rep += open(os.path.join(d, f), "rb").read().decode("latin-1")
        return p.stdout.decode("latin-1"), rep
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _section(job):
    kind, seed, start, count = job
    out, rep = section_run(*job)
    shapes, bad, ops, full = [], [], 0, 0
    for line in out.splitlines():
        m = re.match(r"ok (\S+) (\d+) ops=(\d+) full=(\d)", line)
        if m:
            shapes.append((kind, int(m.group(3)), m.group(4)))
            ops += int(m.group(3))
            full += int(m.group(4))
        elif line.startswith("BAD "):
            bad.append((int(line.split()[2]), line[4:]))
        elif line.startswith("DIED "):
            n = int(line.split()[2])
            o2, r2 = section_run(kind, seed, n, 1)  # not a slow moment of the machine
            if "DIED " in o2 or "BAD " in o2:
                m = re.search(r"ERROR: (AddressSanitizer: \S+ [^\n]{0,60})|(\S+: runtime error: [^\n]*)", r2)
                at = re.search(r"#\d+ 0x\w+ in (.{0,160}?) (/repo/\S+)", r2)
                bad.append((n, line[5:] + " " + (m.group(0)[:160] if m else "") + (" at %s %s" % (re.sub(r"<.*>", "<..>", at.group(1))[:80], at.group(2)) if at else "")))
    return job, shapes, bad, ops, full


def sections(ck, kinds, per=(800, 12000), only=""):
    """Random sequences on small sections; -> False if the harness does not build.
    only: the reports that count (a regular expression)."""
    global _sect
    try:
        _sect = runner.build(["sections"], sub="address", defs=["-DPT_SAN=address"])["sections"]
    except runner.BuildError as e:
        ck.log("the section harness does not build: %s" % str(e)[-400:])
        ck.assumptions.append("the section harness did not build against this tree; only the real runtime was driven into its limits")
        return False
    per = ck.n(*per)
    jobs = [(k, ck.seed, i, 50) for k in kinds for i in range(0, per, 50)]
    for job, shapes, bad, ops, full in runner.pmap(_section, jobs, chunk=1):
        ck.evaluations += len(shapes) + len(bad)
        ck.distinct.update(shapes)
        ck.count("operations_on_small_sections", ops)
        ck.count("sequences_that_reached_capacity", full)
        for n, text in [x for x in bad if re.search(only, x[1])][:1]:
            ck.violation(text, dict(section=job[0], seed=job[1], number=n))
        if len(ck.violations) >= 8:
            break
    return True


def again(ck, replay):
    """Repeats one sequence."""
    global _sect
    _sect = runner.build(["sections"], sub="address", defs=["-DPT_SAN=address"])["sections"]
    for _, text in _section((replay["section"], replay["seed"], replay["number"], 1))[2]:
        ck.violation(text, replay)
    ck.evaluations = 1


def run(prop, replay=None):
    global _exe, _sect
    ck = Check(prop)
    ck.rule = RULE
    ck.assumptions = ["the label, event and control-flow log limits of a real recording (16 GB, 16 GB, 1 GB) are reached only on small sections, not on the full-size file"]
    if replay is not None:
        if "section" in replay:
            again(ck, replay)
        else:
            _exe = runner.build(["ptvm"])["ptvm"]
            for v in judge(make(replay["limit"], replay["seed"]))[0][:1]:
                ck.violation(v, replay)
        ck.evaluations = 1
        ck.finish()
    _exe = runner.build(["ptvm"])["ptvm"]
    ck.log("built")
    plan = [("functions", 1, 4), ("sinks", 1, 6), ("sources", 60, 800), ("names", 10, 120), ("names-open", 10, 120)]
    jobs = [(k, "%d-%d" % (ck.seed, i)) for k, q, t in plan for i in range(ck.n(q, t))]
    for job, V, over, inc in runner.pmap(_limit, jobs, chunk=1):
        ck.evaluations += 1
        if inc:
            ck.inconclusive += 1
            ck.log("inconclusive", job, inc)
        if over:
            ck.count("runs_over_the_limit_of_" + job[0])
            ck.distinct.add(("limit",) + job)
        if V:
            ck.violation("[limit of %s, %s] %s" % (job[0], job[1], V[0]), dict(limit=job[0], seed=job[1]))
            if len(ck.violations) >= 8:
                break
    ck.log("real limits done")
    ck.sample(dict(kind="sources", first_steps=make("sources", "%d-0" % ck.seed)["script"][:14]))
    sections(ck, KINDS)
    ck.finish()
