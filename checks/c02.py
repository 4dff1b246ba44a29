"""C02: marks of random runs (runtime.py), and the work a branch does on shared graphs."""
import random
import shutil

import runner
import runtime

DEPTH = 66
BASE = ["buf s0 256", "open f0 x6c626c 0", "read _ f0 s0+0 128"]


def padovan(rng):
    """Every label is shared by two later ones: about 1.32^n paths, n labels."""
    a = rng.sample(range(0, 120, 2), 3)
    s = list(BASE) + ["ld r%d s0+%d" % (10 + i, x) for i, x in enumerate(a)]
    for i in range(3, DEPTH):
        x, y = 10 + i - 2, 10 + i - 3
        s.append("pread _ f0 s0+200 1 %d" % rng.randrange(100))  # neighbouring labels would become ranges
        s.append("%s r%d r%d r%d" % (rng.choice(["u", "ua", "ut"]), 10 + i, *((x, y) if rng.random() < 0.5 else (y, x))))
    return s, 10 + DEPTH - 1


def ladder(rng):
    """Two chains, each step of which joins both: 2^n paths."""
    s = list(BASE) + ["ld r10 s0+%d" % rng.randrange(0, 60, 2), "ld r11 s0+%d" % rng.randrange(62, 120, 2)]
    k = 12
    lo, hi = 10, 11
    for i in range(26):
        s += ["pread _ f0 s0+200 1 %d" % i, "ld r5 s0+200", "u r6 r%d r5" % hi, "u r%d r%d r%d" % (k, lo, hi)]
        if rng.random() < 0.5:
            s += ["pread _ f0 s0+202 1 %d" % rng.randrange(100)]
        s += ["u r%d r%d r6" % (k + 1, lo)]
        lo, hi = k, k + 1
        k += 2
    return s, hi


SHAPES = {"padovan": padovan, "ladder": ladder}
LIMIT = 30000  # microseconds; a visit per label takes some ten


def make(shape, seed):
    rng = random.Random("c02-%s-%s" % (shape, seed))
    s, top = SHAPES[shape](rng)
    return dict(script=s + ["cpu", "br r%d" % top, "cpu", "br r%d" % top, "brw r%d" % (top - 1), "cpu", "return 0"], files={"lbl": bytes(range(128)).hex()}, argv=[], env={})


_exe = None


def _work(job):
    case = make(*job)
    best = None
    labels = 0
    for _ in range(3):  # the least disturbed run counts
        d = runner.case_dir()
        try:
            r = runner.execute(_exe, case, d, "t", timeout=300)
            cpu = [int(t[4:]) for i in sorted(r.trace) for t in r.trace[i] if t.startswith("cpu=")]
            labels = max([int(t[1:]) for i in r.order for t in r.trace[i] if t[:1] == "^" and t[1:].isdigit()] or [0])
            if len(cpu) == 3:
                t = [cpu[1] - cpu[0], cpu[2] - cpu[1]]
                best = t if best is None or t[0] < best[0] else best
            elif r.timeout:
                best = best or [300000000, 0]
                break
            if best and max(best) < LIMIT:
                break
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return job, best, labels


def work(ck, exes):
    global _exe
    _exe = exes["ptvm"]
    jobs = [(s, "%d-%d" % (ck.seed, i)) for s in SHAPES for i in range(ck.n(12, 100))]
    slow = 0
    for job, t, labels in runner.pmap(_work, jobs, jobs=4, chunk=1):
        ck.evaluations += 1
        judge(ck, job, t, labels)
        if t:
            slow = max(slow, max(t))
            ck.count("branches_timed")
    ck.cov["longest_branch_us"] = slow


def judge(ck, job, t, labels):
    if t is None:
        ck.inconclusive += 1
    elif max(t) >= LIMIT:
        ck.violation("[%s] a branch took %d us on a graph of %d labels, a second one %d us: labels are visited once per path, not once" % (job, t[0], labels, t[1]), dict(work=job))


def run(prop, replay=None):
    global _exe
    if replay is not None and "work" in replay:
        from driver import Check
        ck = Check(prop)
        _exe = runner.build(["ptvm"])["ptvm"]
        judge(ck, *_work(tuple(replay["work"])))
        ck.evaluations = 1
        ck.finish()
    runtime.run(prop, replay=replay, extra=work)
