"""C11: what the runtime logs (runtime.py) and what the Python reader makes of it."""
import os
import random

os.environ["TQDM_DISABLE"] = "1"
import model
import pyside
import readers
import runner
import runtime


def keep(td, run, m, info):
    out, _ = pyside.check_file("C11", td, run.tdag, random.Random(1))
    return [model.Violation("C11", text, None, None, "reader") for _, text in out]


def extra(ck, exes):
    for job, V, sh, stat in runner.pmap(readers._one, [("C11", "%d-%d" % (ck.seed, i)) for i in range(ck.n(1500, 20000))]):
        ck.evaluations += 1
        ck.distinct.add("file" + sh)
        ck.count("log_entries_in_files", stat["log"])
        for p, text in V[:1]:
            ck.violation("file %s: %s" % (job[1], text), dict(job=list(job)))


def run(prop, replay=None):
    import polytracker.taint_dag  # noqa: F401
    if replay is not None and "job" in replay:
        return readers.run(prop, replay)
    runtime.run(prop, keep=keep, extra=extra, replay=replay)
