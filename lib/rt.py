"""Runs generated scripts on the real runtime under the trace monitor (model.py)
and next to an untracked run (compare.py); shared by the runtime checks."""
import hashlib
import shutil

import compare
import gen
import model
import runner
import tdag

READS = {"read", "pread", "pread64", "fread", "fread_unlocked", "fgetc", "fgetc_unlocked", "getc", "getc_unlocked", "_IO_getc",
         "getchar", "getchar_unlocked", "fgets", "getdelim", "__getdelim", "mmap", "recv", "recvfrom", "recvmsg", "open", "open64", "openat",
         "fopen", "fopen64", "close", "fclose", "accept", "accept4", "connect", "munmap"}
WRITES = {"write", "fwrite", "putc", "fputc", "_putc", "send"}
LABELS = {"u", "ua", "ut", "uload", "addl", "rdl"}
BRANCH = {"br", "brw", "tcf"}
LOGS = {"ent", "lev", "fe", "fes", "fx", "tcf"}


def death_props(op, signal):
    p = {"C05", "C08"}
    if op in READS:
        p.add("C03")
    if op in WRITES:
        p.add("C04")
    if op in LABELS:
        p |= {"C01", "C06"}
    if op in BRANCH:
        p.add("C02")
    if op in LOGS:
        p.add("C11")
    if not p - {"C05", "C08"}:
        p.add("C06")
    if signal:
        p.add("C17")
    return p


def run_tracked(exe, case, d, timeout=40):
    t = runner.execute(exe, case, d, "t", timeout=timeout)
    if t.timeout:  # a slow machine is not a hang: once more, with much more time
        shutil.rmtree(t.dir, ignore_errors=True)
        t = runner.execute(exe, case, d, "t", timeout=timeout * 4)
    return t


def evaluate(exes, case, native=True, keep=None):
    """-> (violations, info).  `keep(td, run, model)` runs while the file exists."""
    d = runner.case_dir()
    V = []
    info = dict(cov={}, checked=0, shapes=0, native=0, labels=0, sinks=0, inconclusive=None)
    try:
        t = run_tracked(exes["ptvm"], case, d)
        if t.harness_error:
            info["inconclusive"] = t.harness_error
            return V, info
        n = None
        if native:
            n = runner.execute(exes["ptvm_native"], case, d, "n", timeout=120,
                               env_extra={"PTVM_BANNER": compare.banner(t.out).decode("latin-1")})
            if n.timeout or n.harness_error:
                info["inconclusive"] = "native run: %s" % (n.harness_error or "timeout")
                n = None
        if n is not None:
            info["native"] = len(n.order)
            V += compare.compare(case, n, t)
        died = t.end is None
        if died and n is None:
            # only a death the untracked program does not share is the tracker's doing
            n = runner.execute(exes["ptvm_native"], case, d, "n", timeout=120)
        if died and n is not None and n.end is not None:
            op = case["script"][t.last_idx].split(" ")[0] if t.last_idx is not None else "start"
            for p in sorted(death_props(op, t.rc is not None and t.rc < 0 and not t.timeout)):
                V.append(model.Violation(p, "the tracked program %s here; untracked it carries on %s" % (
                    t.describe_exit(), t.err[-200:].decode("latin-1").strip()), t.last_idx,
                    case["script"][t.last_idx] if t.last_idx is not None else "start", "died"))
        if not t.tdag:
            if not died:
                V.append(model.Violation("C08", "the run left no recording", None, None, "nofile"))
            return V, info
        td = None
        try:
            td = tdag.Tdag(t.tdag, unfinished=died)
            if died:
                td.label_limit = count_labels(td)
            m = model.Model(case, t, td, finished=not died)
            V += m.go()
        except tdag.Malformed as e:
            for p in ("C07", "C08"):
                V.append(model.Violation(p, "the recording is malformed: %s" % e, None, None, "malformed"))
            return V, info
        finally:
            if td is not None and keep is None:
                td.close()
        info.update(cov=dict(m.cov), checked=m.checked_bytes, shape_set=m.shapes, labels=m.maxlabel, sinks=len(m.sinks),
                    branched=len(m.branched), events=len(m.events) + len(m.cflog), sources=len(m.sources))
        if keep is not None:
            try:
                if not died:
                    V += keep(td, t, m, info)
            finally:
                td.close()
        return V, info
    finally:
        shutil.rmtree(d, ignore_errors=True)


def count_labels(td):
    """Labels written so far in a file that was never finalized."""
    lo, hi = 1, 1
    off, size = td.sec(tdag.T_LABELS)
    while td.raw(hi):
        lo, hi = hi, hi * 2
    while lo + 1 < hi:
        mid = (lo + hi) // 2
        if td.raw(mid):
            lo = mid
        else:
            hi = mid
    return hi


def fingerprint(info):
    """Distinct behaviour: which operations ran (log scale) on how big a graph."""
    k = sorted((o, c.bit_length()) for o, c in info["cov"].items())
    k.append(("labels", (info.get("labels") or 0).bit_length()))
    k.append(("checked", info["checked"].bit_length()))
    return hashlib.sha1(repr(k).encode()).hexdigest()
