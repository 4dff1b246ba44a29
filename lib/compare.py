"""Transparency oracle: the same script run natively and tracked must be
indistinguishable to the program and to its environment."""
import re

from model import Violation

# tokens that describe tracking (labels) or process-local numbers, not behaviour
SKIP_PREFIX = ("name:", "b:", "accl")
# calls whose data legitimately differs between two executions
VOLATILE = {"gettimeofday", "clock_gettime", "time", "getrusage", "getpeername", "getsockname"}
NORET = {"fe", "fes"}   # the index handed out by the tracker itself


def norm(op, toks):
    out = []
    for t in toks:
        c = t[:1]
        if c in "^Rz" or t.startswith("fd") or t.startswith("cl") or t.startswith("left"):
            continue
        if t.startswith(SKIP_PREFIX):
            continue
        if c == "l" and ":" in t:
            continue
        if c == "=" and op in NORET:
            continue
        if c == "s" and ":" in t:
            t = ":".join(t.split(":")[:4])
        if op in VOLATILE and (c == "m" or (op == "time" and c == "=")):
            continue
        out.append(t)
    return out


BANNER = re.compile(rb"(?:(?:POLYDB|POLYTRACKER_[A-Z_]+): [^\n]*\n)+")


def banner(out):
    """What the tracker printed about itself at start-up."""
    m = BANNER.search(out)
    return m.group(0) if m else b""


def compare(case, n, t):
    """Violations of C05 given the native run n and the tracked run t."""
    V = []

    def bad(what, idx=None):
        line = case["script"][idx] if idx is not None and idx < len(case["script"]) else None
        V.append(Violation("C05", what, idx, line))

    for i in n.order:
        op = case["script"][i].split(" ")[0]
        if i not in t.trace:
            break
        a, b = norm(op, n.trace[i]), norm(op, t.trace[i])
        if a != b:
            da = [x for x in a if x not in b]
            db = [x for x in b if x not in a]
            bad("native run gave %s, tracked run gave %s" % (" ".join(da)[:160] or "(nothing)", " ".join(db)[:160] or "(nothing)"), i)
            if len(V) > 5:
                break
    if n.timeout or n.end is None and n.rc not in (0,) and not n.order:
        return V
    if t.rc != n.rc:
        bad("natively the program %s, tracked it %s%s" % (
            n.describe_exit(), t.describe_exit(), (" (%s)" % t.err[-200:].decode("latin-1").strip()) if t.err else ""),
            t.last_idx)
    elif set(t.order) != set(n.order):
        miss = sorted(set(n.order) - set(t.order))
        bad("tracked run skipped step(s) %s" % miss[:5], miss[0] if miss else None)
    if not V:
        for f in sorted(set(n.files) | set(t.files)):
            x, y = n.files.get(f), t.files.get(f)
            if x == y:
                continue
            if x is None or y is None:
                bad("file %s exists only %s" % (f, "tracked" if x is None else "natively"))
            elif x[0] != y[0]:
                bad("file %s has mode %o natively, %o tracked" % (f, x[0], y[0]))
            else:
                bad("file %s differs: %r natively, %r tracked" % (f, x[1][:60] if isinstance(x[1], bytes) else x[1], y[1][:60] if isinstance(y[1], bytes) else y[1]))
        if n.out != t.out:
            bad("stdout is %r natively, %r tracked" % (n.out[:80], t.out[:80]))
        if n.err != t.err:
            bad("stderr is %r natively, %r tracked" % (n.err[:80], t.err[:80]))
    return V
