"""C07, C12, C13, C18 and the reading half of C11: the Python side against an independent
decoder, on recordings of real runs and on files written to the format."""
import collections
import hashlib
import os
import random

os.environ["TQDM_DISABLE"] = "1"
import gen
import pyside
import rt
import runner
import tdag
from driver import Check

PLAN = {  # property: (runs per profile quick, thorough; files quick, thorough)
    "C07": ((90, 900), (1500, 20000)),
    "C12": ((90, 900), (1800, 24000)),
    "C13": ((90, 900), (1500, 20000)),
    "C18": ((30, 300), (1200, 16000)),
    "C11": ((0, 0), (0, 0)),
}
PROFILES = ["mix", "cf", "in", "out", "log", "dag"]
_prop = _exes = None


def shape(v):
    d = collections.Counter(v.td.decode(x)[0] for x in v.raw)
    k = (len(v.sources).bit_length(), tuple(sorted((a, b.bit_length()) for a, b in d.items())), len(v.sinks).bit_length(),
         sum(1 for x in v.raw if v.td.cf(x)).bit_length(), len(v.td.events()).bit_length(), len(v.td.cflog()).bit_length())
    return hashlib.sha1(repr(k).encode()).hexdigest()[:16]


def _file(job):
    prop, seed = job
    rng = random.Random("%s-%s" % (prop, seed))
    p = os.path.join(runner.scratch(), "f%d.tdag" % os.getpid())
    inputs = []
    if prop == "C18" and rng.random() < 0.6:
        for i in range(rng.randint(1, 3)):
            f = os.path.join(runner.scratch(), "i%d-%d" % (os.getpid(), i))
            with open(f, "wb") as o:
                o.write(bytes(rng.choice([rng.randrange(256), rng.randrange(32, 127), rng.choice(b'"\\\n\t\r\0')]) for _ in range(rng.randint(0, 90))))
            inputs.append(f.encode())
    far = prop == "C07" and rng.random() < 0.03
    if far:
        pyside.far(p, rng)
        td = tdag.Tdag(p)
        v, out = pyside.View(td), []
        pyside.guarded(prop, "reader", lambda: pyside.reader(v, p), out)
        sh = shape(v)
        td.close()
        os.unlink(p)
        return job, out, sh, dict(labels=v.n, sources=1, sinks=len(v.sinks), log=0)
    pyside.synth(p, rng, big_offsets=prop not in ("C12", "C18"), inputs=inputs, deep=prop != "C18")
    td = tdag.Tdag(p)
    try:
        bad = td.structural_errors()
        if bad:
            return job, [(prop, "harness: " + bad[0])], None, None
        V, v = pyside.check_file(prop, td, p, rng)
        return job, V, shape(v), dict(labels=v.n, sources=len(v.sources), sinks=len(v.sinks), log=len(td.cflog()))
    finally:
        td.close()
        os.unlink(p)


def _run(job):
    prop, profile, seed, nops = job
    case = gen.make(profile, seed, nops)
    res = {}

    def keep(td, run, m, info):
        out, v = pyside.check_file(prop, td, run.tdag, random.Random(seed))
        res.update(out=out, shape=shape(v), stat=dict(labels=v.n, sources=len(v.sources), sinks=len(v.sinks), log=len(td.cflog())))
        return []
    V, info = rt.evaluate(_exes, case, native=False, keep=keep)
    if info["inconclusive"]:
        return job, [], None, None
    # what the run itself showed: it failed, left a file the decoder rejects, or recorded
    # something the readers would then be wrong about
    out = (res.get("out") or []) + [(prop, v.text()) for v in V if v.prop == prop]
    return job, out, res.get("shape"), res.get("stat")


def _one(job):
    return _file(job) if len(job) == 2 else _run(job)


def run(prop, replay=None):
    global _prop, _exes
    ck = Check(prop)
    ck.rule = ("A case is one recording: of a random program run on the real runtime, or written to the file format with values "
               "real runs seldom reach. Cases differ when the log-scale counts of sources, label kinds, marks, output records, "
               "events or log entries differ.")
    ck.assumptions = ["files written here satisfy what the runtime guarantees (labels refer to earlier labels, marks closed under operands)"]
    import polytracker.mapping
    import polytracker.taint_dag  # noqa: F401  (before forking)
    _exes = runner.build(["ptvm", "ptvm_native"])
    ck.log("built")
    runs, files = PLAN[prop]
    if replay is not None:
        jobs = [tuple(replay["job"])]
    else:
        jobs = [(prop, pr, "%d-py-%d" % (ck.seed, i), 900 if i % 10 == 0 else 220) for pr in PROFILES for i in range(ck.n(*runs) // 3)]
        jobs += [(prop, "%d-%d" % (ck.seed, i)) for i in range(ck.n(*files))]
    for job, V, sh, stat in runner.pmap(_one, jobs):
        ck.evaluations += 1
        if sh is None:
            ck.inconclusive += 1
        else:
            ck.distinct.add(sh)
            for k, x in stat.items():
                ck.count(k + "_compared", x)
            ck.count("runs" if len(job) == 4 else "files")
            if len(ck.samples) < 2 or (len(job) == 2 and len(ck.samples) < 4):
                ck.sample(dict(job=list(job), **stat))
        for p, text in V[:1]:
            if p == prop:
                ck.violation("%s: %s" % ("/".join(map(str, job[1:])), text), dict(job=list(job)))
        if len(ck.violations) >= 8:
            break
    ck.finish()
