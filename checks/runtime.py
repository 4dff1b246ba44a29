"""C01-C06 and the runtime half of C11: random programs on the real runtime."""
import json

import c09
import gen
import model
import rt
import runner
from driver import Check

PLAN = {  # property: [(profile, quick cases, thorough cases, operations)]
    "C01": [("dag", 1100, 12000, 260), ("dag", 36, 600, 3000), ("mix", 200, 1200, 260), ("cf", 200, 1200, 260)],
    "C02": [("cf", 1200, 12000, 260), ("cf", 36, 600, 3000), ("log", 200, 1200, 260), ("mix", 200, 1200, 260)],
    "C03": [("in", 1300, 12000, 260), ("in", 30, 400, 1500), ("mix", 300, 3000, 260)],
    "C04": [("out", 1300, 12000, 260), ("out", 30, 400, 1500), ("mix", 300, 3000, 260)],
    "C05": [("str", 600, 6000, 260), ("in", 450, 5000, 260), ("out", 450, 5000, 260), ("mix", 400, 5000, 260), ("log", 60, 600, 260)],
    "C06": [("str", 1200, 12000, 260), ("mix", 400, 4000, 260), ("dag", 150, 1000, 260)],
    "C11": [("log", 1000, 10000, 260), ("log", 36, 600, 3000), ("cf", 150, 1200, 260)],
}
# small sections and tables the property rests on, driven through sequences no recording of a test's size reaches
SECTIONS = {"C01": ["labels", "farlabels", "encoding"], "C02": ["deq", "farlabels"], "C03": ["sources"], "C04": ["offsets", "sinks"], "C11": ["functions", "events", "cflog"]}
RULE = ("A case is a random program of wrapped library calls and runtime events, run on the real runtime. After each call every "
        "byte and label that changed is logged and replayed against an independent model. Two cases count as different when the "
        "counts of the calls they made (log scale) or the size of the label graph differ; all are non-trivial: each creates "
        "tainted data and has its labels compared.")

_exes = _prop = _keep = None


def _one(job):
    profile, seed, nops = job
    case = gen.make(profile, seed, nops)
    V, info = rt.evaluate(_exes, case, native=_prop == "C05", keep=_keep)
    V = [(v.text(), v.kind) for v in V if v.prop == _prop]
    info["fp"] = rt.fingerprint(info) if not info["inconclusive"] else None
    info["head"] = case["script"][:14] if seed.endswith("-0") else None
    return job, V, info


def reduce_case(exes, prop, case, native, budget=24):
    """Drops trailing steps that the violation does not need (best effort)."""
    def fails(c):
        V, info = rt.evaluate(exes, c, native=native)
        return any(v.prop == prop for v in V)

    V, _ = rt.evaluate(exes, case, native=native)
    idx = [v.idx for v in V if v.prop == prop and v.idx is not None]
    if idx and min(idx) + 1 < len(case["script"]):
        c = dict(case, script=case["script"][:min(idx) + 1])
        if fails(c):
            return c
    return case


def run(prop, keep=None, extra=None, replay=None):
    global _exes, _prop, _keep
    ck = Check(prop)
    ck.rule = RULE
    ck.assumptions = ["calls are made through the runtime's own entry points by a driver program; the LLVM pass that inserts them needs LLVM 12 and is not exercised"]
    _prop, _keep = prop, keep
    _exes = exes = runner.build(["ptvm", "ptvm_native"])
    ck.log("built")
    if replay is not None:
        if "section" in replay:
            c09.again(ck, replay)
            ck.finish()
        if "case" in replay:
            V, info = rt.evaluate(exes, replay["case"], native=True, keep=keep)
            for v in V:
                if v.prop == prop:
                    ck.violation(v.text(), replay)
            ck.evaluations = 1
            ck.finish()
        raise SystemExit("nothing to replay")
    jobs = []
    for profile, q, th, nops in PLAN[prop]:
        jobs += [(profile, "%d-%d-%d" % (ck.seed, nops, i), nops) for i in range(ck.n(q, th))]
    jobs.sort(key=lambda j: -j[2])
    calls = {}
    shapes = set()
    for job, V, info in runner.pmap(_one, jobs):
        ck.evaluations += 1
        if info["inconclusive"]:
            ck.inconclusive += 1
        else:
            ck.distinct.add(info["fp"])
            for o, c in info["cov"].items():
                calls[o] = calls.get(o, 0) + c
            shapes |= info.get("shape_set", set())
            ck.count("labels_compared", info["checked"])
            for k in ("sinks", "branched", "events", "sources", "native"):
                ck.count({"native": "steps_compared_with_untracked_run"}.get(k, k), info.get(k) or 0)
            if info["head"]:
                ck.sample(dict(profile=job[0], seed=job[1], first_steps=info["head"]))
        if V:
            case = gen.make(*job)
            if len(ck.violations) < 3:
                case = reduce_case(exes, prop, case, prop == "C05")
            ck.violation("[%s %s] %s" % (job[0], job[1], V[0][0]), dict(profile=job[0], seed=job[1], nops=job[2], case=case))
            if len(ck.violations) >= 8:
                break
    ck.cov["calls_monitored"] = sum(calls.values())
    ck.cov["calls_by_kind"] = dict(sorted(calls.items(), key=lambda x: -x[1]))
    ck.cov["union_shapes_seen"] = len(shapes)
    ck.log("random programs done")
    if prop == "C05":
        # numbered arguments, tracked separately: see known-findings.txt
        case = dict(gen.make("str", "numbered", 1), script=["malloc s10 200", "snprintf r0 s10+0 100 x%s 7 5 7" % b"%2$d-%1$d".hex()])
        for v in rt.evaluate(exes, case, native=True)[0]:
            if v.prop == prop:
                ck.violation(v.text(), dict(case=case), key="printf-numbered" if v.idx == 1 else None)
    if extra:
        extra(ck, exes)
    if prop in SECTIONS:
        c09.sections(ck, SECTIONS[prop], per=(300, 6000))
    ck.finish()
