"""Compares polytracker's Python reader and analyses with the independent decoder
(tdag.py), for recordings of real runs and for files written here."""
import contextlib
import io
import os
import re
import signal
import struct
import traceback
from argparse import Namespace
from collections import Counter, defaultdict
from itertools import islice
from pathlib import Path

import tdag

M62 = (1 << 62) - 1


class Timeout(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    """Turns code under test that never returns into an exception (CPU time: a busy
    machine is not a hang; real time only for what waits without computing)."""
    def onalarm(*_):
        raise Timeout()
    old = signal.signal(signal.SIGPROF, onalarm), signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.setitimer(signal.ITIMER_REAL, 5 * max(seconds, 60))
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGPROF, old[0])
        signal.signal(signal.SIGALRM, old[1])


@contextlib.contextmanager
def quiet():
    with open(os.devnull, "w") as n, contextlib.redirect_stderr(n):
        yield


def guarded(prop, what, fn, out, seconds=60):
    """Runs one comparison; an exception or a hang of the code under test counts."""
    try:
        with limit(seconds), quiet():
            for text in fn():
                out.append((prop, "%s: %s" % (what, text)))
                if len(out) > 20:
                    break
    except tdag.Malformed:
        raise
    except Timeout:
        out.append((prop, "%s: did not finish within %d s" % (what, seconds)))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else "?"
        out.append((prop, "%s: raised %s: %s (%s)" % (what, type(e).__name__, e, where)))


def name(b):
    return b.decode("utf-8", "surrogateescape")


class View:
    """Everything an analysis needs, from the independent decoder."""

    def __init__(self, td):
        self.td = td
        self.n = td.nlabels()
        self.raw = td.all_raw()
        self.sources = td.sources()
        self.sinks = td.sinks()
        self.den = {}

    def set_of(self, label):
        """frozenset of (source index, offset)"""
        s = self.den.get(label)
        if s is None:
            m = self.td.denote(label)
            s = self.den[label] = frozenset(self.td._bitlist[i] for i in bits(m))
        return s

    def key(self, idx):
        nm, fd, size = self.sources[idx]
        return (fd, str(Path(name(nm))))


def bits(m):
    while m:
        b = m & -m
        yield b.bit_length() - 1
        m ^= b


# ---- C07 ---------------------------------------------------------------------
def reader(v, path):
    from polytracker import taint_dag as T
    td = v.td
    with open(path, "rb") as f:
        t = T.TDFile(f)
        if t.filemeta.section_count != td.count:
            yield "section count %r, file has %r" % (t.filemeta.section_count, td.count)
        got = [(str(p), h.fd, h.size, h.invalid_size(), h.invalid_fd()) for p, h in t.fd_headers]
        want = [(str(Path(name(n))), fd, sz, sz == (1 << 64) - 1, fd == -1) for n, fd, sz in v.sources]
        if got != want:
            yield first_diff("sources", got, want)
        got = [n for n, _ in t.fn_headers]
        want = [name(n) for n in td.functions()]
        if got != want:
            yield first_diff("functions", got, want)
        if t.label_count != v.n:
            yield "%r labels, file has %r" % (t.label_count, v.n)
        got = list(t.input_labels())
        want = sorted(td.index_bits())
        if got != want:
            yield first_diff("source labels", got, want)
        got = list(t.nodes)
        if len(got) != v.n - 1:
            yield "%d nodes, file has %d" % (len(got), v.n - 1)
        for l in range(1, v.n):
            for how, nd in (("read", got[l - 1] if l - 1 < len(got) else None), ("decoded", t.decode_node(l))):
                d = describe(T, nd)
                w = td.decode(v.raw[l]) + (td.cf(v.raw[l]),)
                if d != w:
                    yield "label %d %s as %r, file has %r" % (l, how, d, w)
                    break
        if not isinstance(t.decode_node(0), T.TDUntaintedNode) or t.decode_node(0).affects_control_flow:
            yield "label 0 read as %r" % t.decode_node(0)
        got = [(s.fdidx, s.offset, s.label) for s in t.sinks]
        if got != v.sinks:
            yield first_diff("output records", got, v.sinks)
        got = [(e.kind, e.fnidx) for e in t.events]
        if got != td.events():
            yield first_diff("events", got, td.events())


def describe(T, n):
    cf = n.affects_control_flow if n is not None else None
    if isinstance(n, T.TDSourceNode):
        return ("src", n.idx, n.offset, cf)
    if isinstance(n, T.TDRangeNode):
        return ("range", n.first, n.last, cf)
    if isinstance(n, T.TDUnionNode):
        return ("union", min(n.left, n.right), max(n.left, n.right), cf)
    return (type(n).__name__, cf)


def first_diff(what, got, want):
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            return "%s[%d] is %r, file has %r" % (what, i, g, w)
    return "%d %s, file has %d" % (len(got), what, len(want))


def trace_view(v, path, rng):
    from polytracker import taint_dag as T
    tr = T.TDProgramTrace.load(path)
    want = Counter()
    seen = []
    for l in sorted(v.td.index_bits()):
        i = v.td.decode(v.raw[l])[1]
        if i not in seen:
            seen.append(i)
    got = [(i.uid, i.path, i.size) for i in tr.inputs]
    want = [v.key(i) + (v.sources[i][2],) for i in seen]
    if sorted(got) != sorted(want):
        yield "inputs %r, file has %r" % (sorted(got)[:6], sorted(want)[:6])
    got = [(o.source.uid, o.source.path, o.offset, o.label) for o in tr.output_taints]
    want = [v.key(i) + (o, l) for i, o, l in v.sinks]
    if got != want:
        yield first_diff("output taints", got, want)
    hashes = {}
    for o in islice(tr.output_taints, 200):
        hashes.setdefault(hash(o), o)
    # the input bytes behind labels, singly and together
    labels = list(range(1, v.n))
    picks = [[l] for l in labels] if len(labels) <= 60 else [[l] for l in rng.sample(labels, 60)]
    for _ in range(8):
        if labels:
            picks.append(rng.sample(labels, min(len(labels), rng.randint(1, 6))))
    for p in picks:
        got = {(o.source.uid, o.source.path, o.offset) for o in tr.taints([tr.tforest.get_node(l) for l in p])}
        want = {v.key(i) + (o,) for l in p for i, o in v.set_of(l)}
        if got != want:
            yield "bytes behind labels %r: missing %r, extra %r" % (p, sorted(want - got)[:4], sorted(got - want)[:4])


def cf_inputs(v, path):
    from polytracker import taint_dag as T
    tr = T.TDProgramTrace.load(path)
    got = [(o.source.uid, o.source.path, o.offset) for o in tr.inputs_affecting_control_flow()]
    want = set()
    for l in range(1, v.n):
        d = v.td.decode(v.raw[l])
        if d[0] == "src" and v.td.cf(v.raw[l]):
            want.add(v.key(d[1]) + (d[2],))
    if set(got) != want or len(got) != len(want):
        yield "inputs affecting control flow: missing %r, extra %r" % (sorted(want - set(got))[:5], sorted(set(got) - want)[:5])


# ---- C12 ---------------------------------------------------------------------
def mapping(v, path):
    from polytracker.mapping import InputOutputMapping
    from polytracker.taint_dag import TDFile
    with open(path, "rb") as f:
        m = InputOutputMapping(TDFile(f)).mapping()
        want = want_mapping(v)
        got = {k: set(x) for k, x in m.items()}
        for k in set(got) | set(want):
            if got.get(k, set()) != want.get(k, set()) or (k in got) != (k in want):
                yield "input byte %s: maps to %r, the records say %r" % (k, sorted(got.get(k, ()))[:4], sorted(want.get(k, ()))[:4])


def want_mapping(v):
    want = defaultdict(set)
    for i, o, l in v.sinks:
        for si, so in v.set_of(l):
            want[(Path(name(v.sources[si][0])), so)].add((Path(name(v.sources[i][0])), o))
    return dict(want)


def want_cavities(v):
    live, size = defaultdict(set), {}
    for l in range(1, v.n):
        d = v.td.decode(v.raw[l])
        if d[0] == "src":
            nm, fd, sz = v.sources[d[1]]
            p = Path(name(nm))
            size[p] = max(size.get(p, 0), d[2] + 1, 0 if sz == (1 << 64) - 1 else sz)
            if v.td.cf(v.raw[l]):
                live[p].add(d[2])
    for i, o, l in v.sinks:
        for si, so in v.set_of(l):
            live[Path(name(v.sources[si][0]))].add(so)
    out = {}
    for p, n in size.items():
        r, start = [], None
        for i in range(n + 1):
            dead = i < n and i not in live[p]
            if dead and start is None:
                start = i
            elif not dead and start is not None:
                r.append((start, i))
                start = None
        out[p] = r
    return out


def cavities(v, path):
    from polytracker.mapping import FileCavities, InputOutputMapping
    from polytracker.taint_dag import TDFile
    want = want_cavities(v)
    with open(path, "rb") as f:
        got = {k: [tuple(x) for x in c] for k, c in InputOutputMapping(TDFile(f)).file_cavities().items()}
    if got != want:
        for p in set(got) | set(want):
            if got.get(p) != want.get(p):
                yield "blind spots of %s: %r, the records say %r" % (p, (got.get(p) or got.get(p, "no entry"))[:5], (want.get(p) or want.get(p, "no entry"))[:5])
    # the command prints the same, one line per range
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        FileCavities.run(object.__new__(FileCavities), Namespace(POLYTRACKER_TF=path, print_bytes=False))
    got = sorted(buf.getvalue().splitlines())
    lines = sorted("%s,%d,%d" % (p, a, b) for p, r in want.items() for a, b in r)
    if got != lines and not any("\n" in str(p) or "\r" in str(p) for p in want):
        yield "cavities command printed %r, expected %r" % ([x for x in got if x not in lines][:4], [x for x in lines if x not in got][:4])


# ---- C13 ---------------------------------------------------------------------
def forest(v, path, rng):
    from polytracker import taint_dag as T
    tr = T.TDProgramTrace.load(path)
    fo = tr.taint_forest
    td = v.td
    if sum(max(0, d[2] - d[1]) for d in map(td.decode, v.raw) if d[0] == "range") > 100000:
        return  # unfolds to more nodes than can be looked at here
    touched = rng.sample(range(v.n), min(v.n, rng.choice([0, 0, 1, 3, 20])))
    for l in touched:  # asking for nodes first must not change what iteration yields
        fo.get_node(l)
    bound = v.n + sum(max(0, d[2] - d[1]) for d in map(td.decode, v.raw) if d[0] == "range") + 10
    nodes = list(islice(fo.nodes(), bound + 1))
    labels = [n.label for n in nodes]
    if len(nodes) > bound:
        yield "iteration goes on past every possible node"
        return
    if len(set(labels)) != len(labels):
        yield "iteration visits label %r twice" % [l for l, c in Counter(labels).items() if c > 1][:3]
    if sorted(l for l in labels if l >= 0) != list(range(v.n)):
        yield "iteration misses labels %r" % sorted(set(range(v.n)) - set(labels))[:5]
    if any(a <= b for a, b in zip(labels, labels[1:])):
        yield "iteration is not in order of decreasing label: %r" % labels[:10]
    by = {n.label: n for n in nodes}
    if len(fo) != len(by):
        yield "the forest has %d nodes, its length is %d" % (len(by), len(fo))
    edges = set()
    owner = {}
    for l in range(1, v.n):
        n = by.get(l)
        if n is None:
            continue
        d, cf = td.decode(v.raw[l]), td.cf(v.raw[l])
        if fo.get_node(l) != n or fo.get_node(l).parent_labels != n.parent_labels:
            yield "label %d: get_node and iteration disagree" % l
        if bool(n.affected_control_flow) != cf:
            yield "label %d: control-flow mark %r, file has %r" % (l, n.affected_control_flow, cf)
        if d[0] == "src":
            if n.parent_labels is not None or n.parent_one is not None or n.parent_two is not None or not n.is_canonical():
                yield "source label %d has parents %r" % (l, n.parent_labels)
            if n.source is None or (n.source.uid, n.source.path, n.source.size) != v.key(d[1]) + (v.sources[d[1]][2],):
                yield "label %d: source %r" % (l, n.source and (n.source.uid, n.source.path, n.source.size))
            else:
                bo = tr.file_offset(n)
                if (bo.source, bo.offset, bo.length) != (n.source, d[2], 1):
                    yield "label %d: file offset %r, file has %r" % (l, bo.offset, d[2])
            continue
        if n.source is not None:
            yield "label %d has a source but is a %s" % (l, d[0])
        leaves, stack, steps = [], list(n.parent_labels or ()), 0
        while stack and steps < 4 * bound:
            steps += 1
            x = stack.pop()
            if x >= 0:
                leaves.append(x)
                continue
            s = by.get(x)
            if s is None or s.parent_labels is None:
                yield "label %d: intermediate node %d is %s" % (l, x, "missing" if s is None else "without parents")
                break
            if owner.setdefault(x, l) != l:
                yield "intermediate node %d belongs to labels %d and %d" % (x, owner[x], l)
            if bool(s.affected_control_flow) != cf:
                yield "label %d: intermediate node %d has mark %r" % (l, x, s.affected_control_flow)
            stack += s.parent_labels
        want = list(range(d[1], d[2] + 1)) if d[0] == "range" else [d[1], d[2]]
        if sorted(leaves) != want:
            yield "label %d stands for labels %r in the forest, %r in the file" % (l, sorted(leaves)[:8], want[:8])
    for n in nodes:
        if n.parent_labels is not None:
            if (n.parent_one.label, n.parent_two.label) != tuple(n.parent_labels):
                yield "label %d: parents %r but nodes %r" % (n.label, n.parent_labels, (n.parent_one.label, n.parent_two.label))
            edges |= {(p, n.label) for p in n.parent_labels}
    stray = [l for l in labels if l < 0 and l not in owner]
    if stray:
        yield "intermediate nodes %r belong to no label" % stray[:4]
    g = fo.to_graph()
    if set(g.nodes) != set(labels):
        yield "graph has %d nodes, forest %d" % (len(g.nodes), len(labels))
    if set(g.edges) != edges:
        yield "graph edges: missing %r, extra %r" % (sorted(edges - set(g.edges))[:4], sorted(set(g.edges) - edges)[:4])
    again = [n.label for n in islice(fo.nodes(), bound + 1)]
    if again != labels:
        yield "a second iteration differs from the first"


# ---- C18 ---------------------------------------------------------------------
_cli = None


def command(*argv):
    """Runs `polytracker ARGV` in this process; -> what it prints."""
    global _cli
    if _cli is None:
        import argparse
        import sys
        import runner
        # the project is not installed here; its version is all that is looked up
        d = os.path.join(runner.scratch(), "meta", "polytracker-0.dist-info")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: polytracker\nVersion: 0\n")
        sys.path.append(os.path.dirname(d))
        import polytracker  # noqa: F401  (registers the commands)
        from polytracker.plugins import add_command_subparsers
        _cli = argparse.ArgumentParser()
        add_command_subparsers(_cli)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try:
            args = _cli.parse_args(list(argv))
        except SystemExit as e:
            raise Exception("arguments %r refused: %s" % (argv, e))
        args.func(args)
    return buf.getvalue()


def values(line):
    return [x if x in ("True", "False") else int(x) for x in re.findall(r"-?\d+|True|False", line)]


def info(v, path, rng):
    td = v.td
    sane = not any(b"\n" in n or b"\r" in n for n in [s[0] for s in v.sources] + td.functions()) and not any(
        c in name(n) for n in [s[0] for s in v.sources] + td.functions() for c in "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
    if not sane:
        return
    parts = {"-f": ["%d: %s" % (i, Path(name(s[0]))) for i, s in enumerate(v.sources)],
             "-x": ["%d: %s" % (i, name(n)) for i, n in enumerate(td.functions())]}

    def node(l):
        d, cf = td.decode(v.raw[l]), str(td.cf(v.raw[l]))
        return [cf] + sorted(d[1:]) if d[0] == "union" else [cf] + list(d[1:])

    def norm(l, x):  # the operands of a union may be printed in either order
        return x[:-2] + sorted(x[-2:]) if td.decode(v.raw[l])[0] == "union" else x
    if len(td.cflog()) and not on_stack(td.cflog()):
        log = None
    else:
        log = replay_log(td.cflog())
    words = {0: "enter", 1: "leave", 2: "tainted"}
    opts = ["-f", "-x", "-s", "-n", "-t"] + (["-c"] if log is not None else [])
    picks = [[]] + [[o] for o in opts] + [rng.sample(opts, rng.randint(2, len(opts)))]
    for pick in picks:
        text = command("info", path, *pick)
        lines = text.splitlines()
        if not lines or values(lines[0]) != [v.n]:
            yield "info prints %r, the file holds %d labels" % (lines[:1], v.n)
        want = 1
        for o in ["-f", "-x", "-s", "-n", "-t", "-c"]:
            if o not in pick:
                continue
            size = {"-f": len(v.sources), "-x": len(td.functions()), "-s": len(v.sinks), "-n": v.n - 1, "-t": len(td.events()), "-c": len(log or ())}[o]
            got = lines[want:want + size]
            want += size
            if len(got) != size:
                yield "info %s prints %d lines, the file holds %d" % (" ".join(pick), len(lines), want)
                return
            for i, g in enumerate(got):
                if o in parts:
                    ok, w = g == parts[o][i], parts[o][i]
                elif o == "-s":
                    x, of, l = v.sinks[i]
                    w = [x, of, l] + node(l)
                    ok = norm(l, values(g)) == w
                elif o == "-n":
                    w = [i + 1] + node(i + 1)
                    ok = norm(i + 1, values(g)) == w
                elif o == "-t":
                    k, fn = td.events()[i]
                    w = ["ENTRY" if k == 0 else "EXIT", fn]
                    ok = values(g) == [fn] and w[0].lower() in g.lower()
                else:
                    k, st, l = log[i]
                    w = [words[k]] + ([l] if k == 2 else []) + st
                    ok = values(g) == w[1:] and words[k] in g.lower()
                if not ok:
                    yield "info %s prints %r, the file says %r" % (o, g, w)
                    break
        if len(lines) != want:
            yield "info %s prints %d lines, the file holds %d" % (" ".join(pick), len(lines), want)


def mapping_cmd(v, path):
    text = command("mapping", path)
    try:
        got = eval(text.replace("<class 'set'>", "set"), {"defaultdict": defaultdict, "PosixPath": Path, "Path": Path, "set": set, "frozenset": frozenset})
        got = {k: set(x) for k, x in got.items()}
    except (SyntaxError, NameError, TypeError, ValueError, AttributeError):
        yield "mapping prints no table: %r" % text[:80]
        return
    want = want_mapping(v)
    for k in set(got) | set(want):
        if got.get(k) != want.get(k):
            yield "mapping prints %s -> %r, the records say %r" % (k, sorted(got.get(k, ()))[:4], sorted(want.get(k, ()))[:4])


ESC = {0: "\\0", 9: "\\t", 10: "\\n", 13: "\\r", 34: '\\"', 92: "\\\\"}


def shown(b):
    return "".join(ESC.get(c) or (chr(c) if 32 <= c < 127 else "\\%d" % c if c < 10 else "\\x%x" % c) for c in b)


def cavities_cmd(v, path):
    want = want_cavities(v)
    if any("\n" in str(p) or "\r" in str(p) for p in want):
        return
    plain = sorted("%s,%d,%d" % (p, a, b) for p, r in want.items() for a, b in r)
    got = sorted(command("cavities", path).splitlines())
    if got != plain:
        yield "cavities prints %r, expected %r" % ([x for x in got if x not in plain][:3], [x for x in plain if x not in got][:3])
    if not all(os.path.isfile(p) for p in want):
        return
    lines = []
    for p, r in want.items():
        data = p.read_bytes()
        for a, b in r:
            x, y, z = shown(data[max(a - 10, 0):a]), shown(data[a:b]), shown(data[b:b + 10])
            lines.append(("%s,%d,%d" % (p, a, b), '\t"%s%s%s"' % (x, y, z), "\t " + " " * len(x) + "^" * len(y)))
    out = command("cavities", path, "-b").split("\n")
    if out[-1:] == [""]:
        out.pop()
    got = [tuple(out[i:i + 3]) for i in range(0, len(out), 3)]
    if sorted(got) != sorted(lines):
        yield "cavities -b prints %r, expected %r" % ([x for x in got if x not in lines][:1], [x for x in lines if x not in got][:1])


def forest_cmd(v, path, rng):
    if v.n > 150:
        return
    from polytracker import taint_dag as T
    fo = T.TDProgramTrace.load(path).taint_forest
    nodes = list(islice(fo.nodes(), 20000))
    dot = path + ".dot"
    command("forest", path, dot)
    try:
        with open(dot) as f:
            text = f.read()
    finally:
        if os.path.exists(dot):
            os.unlink(dot)
    got_nodes, got_edges, depth, hidden = [], [], 0, False
    invis = []
    for line in text.splitlines():
        line = line.strip()
        if line.endswith("{"):
            depth += 1
            invis.append(False)
        elif line == "}":
            depth -= 1
            invis.pop()
        elif line.startswith("edge [") and "invis" in line:
            invis[-1] = True
        else:
            m = re.match(r'"?(-?\d+)"?\s*->\s*"?(-?\d+)"?', line)
            if m and not any(invis) and "invis" not in line:
                got_edges.append((int(m.group(1)), int(m.group(2))))
            elif not m and (m := re.match(r'"?(-?\d+)"?\s*\[', line)):
                got_nodes.append(int(m.group(1)))
    # numbers of unfolded ranges are arbitrary: compare below the recorded labels
    if len(got_nodes) != len(set(got_nodes)) or sorted(n for n in got_nodes if n >= 0) != list(range(v.n)):
        yield "exported nodes %r, the file holds %d labels" % (sorted(got_nodes)[:9], v.n)
    up = defaultdict(list)
    for a, b in got_edges:
        up[b].append(a)
    for l in range(v.n):
        d = v.td.decode(v.raw[l]) if l else ("none",)
        want = [] if d[0] in ("src", "none") else list(range(d[1], d[2] + 1)) if d[0] == "range" else sorted(d[1:])
        leaves, stack, steps = [], list(up[l]), 0
        while stack and steps < 10000:
            steps += 1
            x = stack.pop()
            if x >= 0:
                leaves.append(x)
            else:
                stack += up[x]
        if sorted(leaves) != want:
            yield "exported edges derive label %d from %r, the file from %r" % (l, sorted(leaves)[:8], want[:8])
            break


# ---- C11 ---------------------------------------------------------------------
def replay_log(log, names=None):
    """Call stack semantics: leave/branch of a function on the stack first leaves
    what is above it.  -> [(kind, stack, label)]"""
    out, st = [], []
    for e in log:
        f = e[1] if names is None else names[e[1]]
        if e[0] == 0:
            st = st + [f]
            out.append((0, st, None))
        else:
            while st and st[-1] != f:
                out.append((1, st, None))
                st = st[:-1]
            if e[0] == 1:
                out.append((1, st, None))
                st = st[:-1]
            else:
                out.append((2, st, e[2]))
    while st:
        out.append((1, st, None))
        st = st[:-1]
    return out


def on_stack(log):
    """True if every leave and branch names a function that is on the stack."""
    st = []
    for e in log:
        if e[0] == 0:
            st.append(e[1])
        else:
            while st and st[-1] != e[1]:
                st.pop()
            if not st:
                return False
            if e[0] == 1:
                st.pop()
    return True


def cflog(v, path, rng):
    from polytracker import taint_dag as T
    log = v.td.cflog()
    exact = on_stack(log)
    with open(path, "rb") as f:
        t = T.TDFile(f)
        sec = t._get_section(T.TDControlFlowLogSection)
        kinds = {T.TDEnterFunctionEvent: 0, T.TDLeaveFunctionEvent: 1, T.TDTaintedControlFlowEvent: 2}
        top = max([e[1] for e in log], default=0)
        runs = [None, None]
        if top < 5000:
            runs.append(["fn%d" % i for i in range(top + 1)])
        for names in runs:
            if names is not None:
                sec.function_id_mapping(names)
            want = replay_log(log, names)
            got = [(kinds[type(e)], e.callstack, getattr(e, "label", None)) for e in islice(iter(sec), len(want) * 2 + 50)]
            if not exact:  # where the log itself is not a call sequence only its entries and branches are fixed
                got = [(k, s[-1] if k == 0 else None, l) for k, s, l in got if k != 1]
                want = [(k, s[-1] if k == 0 else None, l) for k, s, l in want if k != 1]
            if got != want:
                yield first_diff("log events", got, want)


ALL = {
    "C07": [("reader", reader, 0), ("trace", trace_view, 1)],
    "C02": [("reader", cf_inputs, 0)],
    "C11": [("log reader", cflog, 1)],
    "C12": [("mapping", mapping, 0), ("cavities", cavities, 0)],
    "C13": [("forest", forest, 1)],
    "C18": [("info", info, 1), ("mapping", mapping_cmd, 0), ("cavities", cavities_cmd, 0), ("forest", forest_cmd, 1)],
}


def check_file(prop, td, path, rng):
    v = View(td)
    out = []
    for what, fn, needs in ALL[prop]:
        guarded(prop, what, (lambda: fn(v, path, rng)) if needs else (lambda: fn(v, path)), out)
    return out, v


# ---- files written here --------------------------------------------------------
def write_file(path, sources, labels, sinks, functions, events, log, bitmap=None, rng=None):
    """labels[0] is label 0.  Section order, padding and string sharing vary."""
    strings = bytearray()
    at = {}

    def string(b, share=True):
        if share and b in at:
            return at[b]
        if len(strings) % 2:
            strings.append(0)
        o = len(strings)
        strings.extend(struct.pack("<H", len(b)) + b)
        at[b] = o
        return o
    src = b"".join(struct.pack("<IiQ", string(n), fd, size) for n, fd, size in sources)
    fns = b"".join(struct.pack("<I", string(n)) for n in functions)
    if bitmap is None:
        bitmap = [l for l, x in enumerate(labels) if x >> 63]
    top = max(bitmap, default=-1)
    bm = bytearray((top // 64 + 1) * 8)
    for b in bitmap:
        bm[b // 8] |= 1 << (b % 8)
    body = {
        1: src, 2: struct.pack("<%dQ" % len(labels), *labels), 3: bytes(strings),
        4: b"".join(struct.pack("<qIBxxx", o, l, i) for i, o, l in sinks), 5: bytes(bm), 6: fns,
        7: b"".join(struct.pack("<BxH", k, f) for k, f in events), 8: b"".join(enc_log(e) for e in log)}
    order = [1, 3, 2, 4, 5, 6, 7, 8]
    if rng is not None and rng.random() < 0.5:
        rng.shuffle(order)
    pos = 8 + 24 * 8
    hdr, out = b"", []
    for tag in order:
        pos = (pos + 7) // 8 * 8 + (8 * rng.choice([0, 0, 1, 50, 600]) if rng is not None else 0)
        hdr += struct.pack("<IIQQ", tag, 8, pos, len(body[tag]))
        out.append((pos, body[tag]))
        pos += len(body[tag])
    with open(path, "wb") as f:
        f.write(b"TDAG" + struct.pack("<HH", sum(order) ^ 8, 8) + hdr)
        for p, b in out:
            f.write(b"\0" * (p - f.tell()) + b)
        f.write(b"\0" * 16)


def varint(x):
    o = bytearray()
    while x >= 0x80:
        o.append(x & 0x7F | 0x80)
        x >>= 7
    o.append(x)
    return bytes(o)


def enc_log(e):
    return bytes([e[0]]) + b"".join(varint(x) for x in e[1:])


ODD = [b"a", b"./a", b"a//b", b"in put", b"\xff\xfe\xfd", b"caf\xc3\xa9", b"x" * 300, b"argv[0]", b"<stdin>", b"/abs/p", b"a/../b", b"q\"uote,1,2", b"socket:127.0.0.1:80"]
EDGE = [0, 1, 63, 64, 127, 128, 129, 255, 256, 16383, 16384, (1 << 21) - 1, 1 << 21, (1 << 28) - 1, 1 << 28, (1 << 31) - 1, (1 << 32) - 1]


def synth(path, rng, big_offsets=True, inputs=None, deep=True):
    """A random well-formed recording.  inputs: paths (bytes) of existing files."""
    nsrc = rng.choice([1, 2, 3, 5, 12, 200, 256])
    sources = []
    for i in range(nsrc):
        nm = rng.choice(inputs) if inputs else rng.choice(ODD) if rng.random() < 0.4 else b"f%d" % rng.randint(0, max(2, nsrc // 2))
        size = rng.choice([(1 << 64) - 1, 0, rng.randint(0, 50), rng.randint(0, 50), rng.randint(0, 3000)])
        sources.append((nm, rng.choice([-1, i + 3, rng.randint(0, 9)]), size))
    labels = [0]
    n = rng.choice([1, 2, 5, 30, 120, 400])
    if deep and rng.random() < 0.03:
        n = 4000  # deeper than any recursion an analysis could get away with
    mode = rng.choice(["mixed", "chain", "ranges", "sources", "shared"])
    while len(labels) < n:
        k = rng.random()
        m = len(labels)
        if m < 4 or k < {"mixed": .4, "chain": .2, "ranges": .4, "sources": .9, "shared": .15}[mode]:
            s = rng.randrange(nsrc)
            base = rng.choice([0, 0, rng.randint(0, 60), rng.randint(0, 60)])
            if big_offsets and rng.random() < 0.15:
                base = rng.choice([(1 << 54) - 20, 1 << 31, 1 << 32, (1 << 40) + 3])
            for j in range(rng.choice([1, 1, 2, 3, 8, 20])):
                labels.append(1 << 63 | (base + j) << 8 | s)
        elif k < 0.75:
            a = m - 1 if mode == "chain" else rng.randint(max(1, m - 6), m - 1) if mode == "shared" else rng.randint(1, m - 1)
            b = rng.randint(1, m - 1)
            if a == b:
                continue
            labels.append(max(a, b) << 31 | min(a, b))
        else:
            a = rng.randint(1, m - 1)
            b = min(m - 1, a + rng.choice([1, 1, 2, 3, 5, 9, 30]))
            if a >= b:
                continue
            labels.append(a << 31 | b)
    # marks are closed downwards, as the runtime leaves them
    def kids(x):
        t = tdag.Tdag.decode(x)
        return () if t[0] in ("none", "src") else range(t[1], t[2] + 1) if t[0] == "range" else t[1:]
    if len(labels) > 1:
        for l in range(1, len(labels)):
            if rng.random() < 0.01 or (len(labels) < 40 and rng.random() < 0.1):
                st = [l]
                while st:
                    x = st.pop()
                    if not labels[x] >> 62 & 1:
                        labels[x] |= 1 << 62
                        st += kids(labels[x] & ~(1 << 62))
    sinks = []
    if len(labels) > 1:
        for _ in range(rng.choice([0, 1, 4, 30, 80])):
            if rng.random() < 0.7 or not sinks:
                lo = 1 if rng.random() < 0.7 else max(1, len(labels) - 5)
                sinks.append((rng.randrange(nsrc), rng.choice([rng.randint(0, 40), rng.randint(0, 40), 1 << 33, (1 << 54)]), rng.randint(lo, len(labels) - 1)))
            else:
                s = rng.choice(sinks)
                sinks.append(rng.choice([s, (s[0], s[1] + 1, s[2]), (rng.randrange(nsrc), s[1], s[2])]))
    functions = list(dict.fromkeys(rng.choice([b"main", b"f%d" % i, b"_Z3fooi", b"\xc3\xa9t\xc3\xa9", b"x" * 500]) for i in range(rng.choice([0, 1, 4, 40]))))
    events = []
    if functions:
        events = [(rng.randint(0, 1), rng.randrange(len(functions))) for _ in range(rng.choice([0, 3, 50]))]
    if rng.random() < 0.1:
        events.append((1, 65535))
    log = random_log(rng)
    write_file(path, sources, labels, sinks, functions, events, log, rng=rng)


def far(path, rng):
    """A piece of a very long recording: nodes and output records that name labels up to the
    largest one.  Only what is stored can be read from it, the labels named are not there."""
    def some():
        k = rng.random()
        return rng.randint(1, 0x7fffffff) if k < .4 else 0x7fffffff - rng.randint(0, 4) if k < .6 else min(0x7fffffff, max(1, (1 << rng.randint(8, 31)) - rng.randint(0, 2)))
    labels = [0]
    while len(labels) < 200:
        a, b = some(), some()
        if a != b:
            labels.append(a << 31 | b | rng.randint(0, 1) << 62)
    sinks = [(0, rng.randint(0, 9), some()) for _ in range(50)]
    write_file(path, [(b"f", 3, 10)], labels, sinks, [b"main"], [], [], rng=rng)


def random_log(rng):
    log, st = [], []
    wild = rng.random() < 0.2
    ids = [rng.choice(EDGE[:10] if rng.random() < .7 else EDGE) for _ in range(rng.choice([1, 2, 5, 9]))]
    for _ in range(rng.choice([0, 2, 10, 60, 300])):
        k = rng.random()
        if k < 0.4 or not st:
            f = rng.choice(ids)
            if wild and rng.random() < 0.2:
                log.append((rng.choice([1, 2]), f) + ((7,) if log and False else ()))
                if log[-1][0] == 2:
                    log[-1] += (rng.choice(EDGE),)
                while st and st[-1] != f:
                    st.pop()
                if log[-1][0] == 1 and st:
                    st.pop()
                continue
            st.append(f)
            log.append((0, f))
        else:
            f = st[-1] if rng.random() < 0.75 else rng.choice(st)
            if k < 0.7:
                log.append((2, f, rng.choice(EDGE + [3, 4, 5])))
                while st[-1] != f:
                    st.pop()
            else:
                log.append((1, f))
                while st[-1] != f:
                    st.pop()
                st.pop()
    return log
