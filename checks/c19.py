"""C19: comparisons of two traces and the pictures drawn from them, against set differences."""
import hashlib
import io
import os
import random
import shutil
import tempfile

os.environ["TQDM_DISABLE"] = "1"
import pyside
import runner
from c14 import runs_of
from driver import Check

KINDS = ["diff", "context", "image", "animation"]
ESC = {10: "\\n", 13: "\\r", 92: "\\\\", 9: "\\t"}


def esc(b):
    return ESC.get(b) or (chr(b) if 32 <= b <= 126 else "\\x%02x" % b)


# ---- two traces of one program -----------------------------------------------------------
def make_pair(rng, d):
    from polytracker.inputs import Input
    from polytracker.tracing import ByteOffset, Function, Taints
    from tracestub import Trace

    class F(Function):
        def __init__(self, name, idx, tr):
            super().__init__(name, idx)
            self.tr = tr
            self.bytes = set()
            self.callees = set()

        def taints(self):
            return Taints([ByteOffset(self.tr.ins[s], o) for s, o in self.bytes])

        def calls_to(self):
            return {self.tr.fns[c] for c in self.callees}

        def called_from(self):
            return {f for f in self.tr.fns.values() if self.name in f.callees}

    class T(Trace):
        def __init__(self):
            super().__init__(b"")
            self.ins = {}

        @property
        def inputs(self):
            return tuple(self.ins.values())

    nf = rng.choice([1, 2, 3, 5, 9])
    ns = rng.choice([1, 1, 2, 3])
    size = rng.choice([1, 5, 40, 200])
    files = {}
    for s in range(ns):
        data = bytes(rng.choice(rng.choice([b"ab", b"\n\t\\\r\x00\xff~ ", bytes(range(256))])) for _ in range(size))
        p = os.path.join(d, "in%d" % s)
        if rng.random() < 0.6:
            with open(p, "wb") as f:
                f.write(data)
        files[s] = (p, data)
    # static call graph with main above everything
    names = ["main"] + ["f%d" % i for i in range(1, nf)]
    calls = [set() for _ in names]
    for i in range(1, nf):
        for _ in range(rng.choice([1, 1, 2])):
            calls[rng.randrange(i)].add(i)
    for _ in range(rng.choice([0, 0, 2])):
        if nf > 1:
            calls[rng.randrange(1, nf)].add(rng.randrange(1, nf))
    base = {i: {(s, o) for s in range(ns) for o in range(size) if rng.random() < rng.choice([0.02, 0.3])} for i in range(nf)}
    for i in range(nf):                     # runs, so that differences cut them in the middle
        if rng.random() < 0.7:
            s, a = rng.randrange(ns), rng.randrange(size)
            base[i] |= {(s, o) for o in range(a, min(size, a + rng.choice([1, 3, 20, 50])))}
    out = []
    same = rng.random() < 0.12
    for k in range(2):
        t = T()
        srcs = {s for s in range(ns) if same or rng.random() < 0.85} or {0}
        t.ins = {s: Input(uid=s + 1, path=files[s][0], size=size, content=files[s][1]) for s in sorted(srcs)}
        # functions reached
        reach, todo = {0}, [0]
        while todo:
            for c in sorted(calls[todo.pop()]):
                if c not in reach and (same or rng.random() < 0.8):
                    reach.add(c)
                    todo.append(c)
        order = sorted(reach)
        rng.shuffle(order)
        for i in order:
            f = F(names[i], i + 7, t)
            f.bytes = {(s, o) for s, o in base[i] if s in srcs}
            if not same and rng.random() < 0.5:
                f.bytes = {b for b in f.bytes if rng.random() < 0.8}
                if rng.random() < 0.5:
                    s, a = rng.choice(sorted(srcs)), rng.randrange(size)
                    f.bytes |= {(s, o) for o in range(a, min(size, a + rng.choice([1, 4, 40])))}
            t.fns[names[i]] = f
        for i in order:
            t.fns[names[i]].callees = {names[c] for c in calls[i] if c in reach}
        out.append(t)
        if same:
            out = [t, None]
            u = T()
            u.ins = dict(t.ins)
            for n, f in t.fns.items():
                g = F(n, f.function_index, u)
                g.bytes, g.callees = set(f.bytes), set(f.callees)
                u.fns[n] = g
            out[1] = u
            break
    return out[0], out[1], files


def touched(t):
    return {b for f in t.fns.values() for b in f.bytes}


def dominators(t, name):
    """Strict dominators of a function below main, nearest first; None if it is not below main."""
    def reached(without):
        seen, todo = set(), ["main"]
        while todo:
            x = todo.pop()
            if x == without or x in seen:
                continue
            seen.add(x)
            todo += t.fns[x].callees
        return seen
    if name not in reached(None):
        return None
    doms = [n for n in t.fns if n != name and name not in reached(n)]
    # the nearest is dominated by all others
    above = {n: sum(1 for m in doms if m != n and n not in reached(m)) for n in doms}
    return sorted(doms, key=lambda n: -above[n])


def cf_culprit(t, u, name):
    """(known, culprit)"""
    if name not in t.fns or name not in u.fns:
        return True, None
    a, b = dominators(t, name), dominators(u, name)
    if a is None or b is None:
        return False, None
    ca, cb = [x for x in a if x in b], [x for x in b if x in a]
    if ca != cb:
        return False, None
    for n in ca:
        if t.fns[n].bytes != u.fns[n].bytes:
            return True, n
    return True, None


def chunk_lines(t, region_list, files, indent):
    """What a report says about regions [(path, offset, length)], line by line."""
    from polytracker.diffing import print_file_context
    out = []
    for p, o, ln in region_list:
        if os.path.exists(p):
            s = io.StringIO()
            print_file_context(s, path=p, offset=o, length=ln, indent=indent)
            out += s.getvalue().splitlines()
        else:
            out.append("\tTouched %d bytes at offset %d" % (ln, o))
    return out


def regions_of(bs, t):
    """Maximal runs of {(source, offset)}, as the trace's inputs."""
    return [(s, a, b - a) for s in sorted({x for x, _ in bs}) for a, b in runs_of({o for x, o in bs if x == s})]


def diff(rng, stat, d):
    from polytracker.diffing import ControlFlowDiff, TraceDiff
    t, u, files = make_pair(rng, d)
    A, B = touched(t), touched(u)
    stat["bytes"] = len(A ^ B)
    stat["fp"] = (len(A), len(B), len(A ^ B), len(t.fns), len(u.fns))
    ids = {}
    for tr in (t, u):
        for s, i in tr.ins.items():
            ids[i.path] = s
    td = TraceDiff(t, u)
    probes = ["first", "second", "hasf", "hass", "ff", "fs", "both", "bool", "int1", "int2"]
    rng.shuffle(probes)                     # answers do not depend on the order of questions
    flat = lambda it: [(ids[r.source.path], r.offset, r.length) for r in it]
    cover = lambda rs: {(s, o + k) for s, o, ln in rs for k in range(ln)}
    for p in probes:
        if p in ("first", "second"):
            got = flat(getattr(td, "input_chunks_only_in_" + p))
            want = A - B if p == "first" else B - A
            if sum(x[2] for x in got) != len(cover(got)) or cover(got) != want or any(x[2] <= 0 for x in got):
                yield "chunks only in the %s trace cover %r, the bytes only it touched are %r" % (
                    p, got[:6], regions_of(want, t)[:6])
            for s in {x for x, _, _ in got}:
                mine = [o for x, o, _ in got if x == s]
                if mine != sorted(mine):
                    yield "chunks only in the %s trace are not in order: %r" % (p, mine[:8])
        elif p == "hasf" and td.has_input_chunks_only_in_first != bool(A - B):
            yield "has_input_chunks_only_in_first is %r" % td.has_input_chunks_only_in_first
        elif p == "hass" and td.has_input_chunks_only_in_second != bool(B - A):
            yield "has_input_chunks_only_in_second is %r" % td.has_input_chunks_only_in_second
        elif p in ("ff", "fs"):
            got = sorted(f.name for f in (td.functions_only_in_first if p == "ff" else td.functions_only_in_second))
            want = sorted(set(t.fns) - set(u.fns) if p == "ff" else set(u.fns) - set(t.fns))
            if got != want:
                yield "functions only in the %s trace %r, expected %r" % ("first" if p == "ff" else "second", got, want)
        elif p == "both":
            got = [(n, {(ids[o.source.path], o.offset) for o in x.bytes_only_in_first},
                    {(ids[o.source.path], o.offset) for o in x.bytes_only_in_second}) for n, x in td.functions_in_both]
            want = [(n, t.fns[n].bytes - u.fns[n].bytes, u.fns[n].bytes - t.fns[n].bytes) for n in set(t.fns) & set(u.fns)]
            if sorted(got, key=lambda x: x[0]) != sorted(want, key=lambda x: x[0]):
                yield "per-function differences of %r are wrong" % sorted(n for n, *_ in got)
        elif p == "bool":
            differ = set(t.fns) != set(u.fns) or any(t.fns[n].bytes != u.fns[n].bytes for n in t.fns)
            if bool(td) != differ:
                yield "the diff is %r though the traces %s" % (bool(td), "differ" if differ else "are the same")
        elif p in ("int1", "int2"):
            got = td.first_intervals if p == "int1" else td.second_intervals
            have = {(ids[s.path], o) for s, tree in got.items() for iv in tree for o in range(iv.begin, iv.end)}
            if have != (A if p == "int1" else B):
                yield "intervals of the %s trace cover %d bytes of %d touched" % (
                    "first" if p == "int1" else "second", len(have), len(A if p == "int1" else B))
    for n in sorted(set(t.fns) | set(u.fns)):
        known, want = cf_culprit(t, u, n)
        c = ControlFlowDiff(t, u, n)
        got = c.first_function_with_different_control_flow
        stat["culprits"] = stat.get("culprits", 0) + (known and want is not None)
        if known and (got != want or bool(c) != (want is not None)):
            yield "the first function above %s that differs is %r, expected %r" % (n, got, want)
        elif not known and got is not None and t.fns[got].bytes == u.fns[got].bytes:
            yield "%s is reported above %s though it does not differ" % (got, n)
    yield from report(str(td), t, u, A, B, files)
    if len(ids) == 1:
        im = td.to_image()
        (s, i), = {**t.ins, **u.ins}.items()
        yield from pixels(im, i.size, lambda o: (s, o) in A, lambda o: (s, o) in B)


def report(text, t, u, A, B, files):
    """The printed report says the same."""
    path = {s: p for s, (p, _) in files.items()}
    lines = text.splitlines()
    heads = {"The reference trace touched": "first", "The diffed trace touched": "second"}
    sec = {"first": None, "second": None}
    cur = None
    rest = []
    for ln in lines:
        h = [v for k, v in heads.items() if ln.startswith(k)]
        if h:
            cur = h[0]
            if sec[cur] is not None:
                yield "section of the %s trace printed twice" % cur
            sec[cur] = []
        elif ln and not ln.startswith("\t"):
            cur = None
            rest.append([ln, []])
        elif cur:
            sec[cur].append(ln)
        elif rest:
            rest[-1][1].append(ln)
    for which, want in (("first", A - B), ("second", B - A)):
        if (sec[which] is not None) != bool(want):
            yield "the report %s the %s trace's own bytes" % ("lists" if sec[which] is not None else "does not list", which)
            continue
        if not want:
            continue
        # the regions themselves come with one tab; what could have caused them follows with more
        got = []
        skip = False
        for ln in sec[which]:
            if ln.startswith("\tFunction ") and "could contain" in ln:
                skip = True
            elif ln.startswith("\t@") or (ln.startswith("\tTouched") and not skip):
                skip = False
                got.append(ln)
            elif not skip and not ln.startswith("\t\t"):
                got.append(ln)
        mine = t if which == "first" else u
        for s, o, n in regions_of(want, mine):
            if os.path.exists(path[s]) and "\t@%d" % o not in got:
                # adjacent regions may be listed separately, the first one starts here
                yield "the report does not show offset %d of the %s trace's own bytes" % (o, which)
                break
    heads = [r[0] for r in rest]
    if ("Both traces consumed the exact same input byte regions" in heads) != (A == B):
        yield "the report says %r though the bytes touched are %s" % (heads[:2], "the same" if A == B else "different")
    for n in sorted(set(t.fns) | set(u.fns)):
        a = [r for r in rest if r[0].startswith("Function %s was called in the reference trace but not" % n)]
        b = [r for r in rest if r[0].startswith("Function %s was called in the diffed trace but not" % n)]
        if (len(a), len(b)) != (int(n not in u.fns), int(n not in t.fns)):
            yield "report of %s as missing in one trace: %d, %d" % (n, len(a), len(b))
            continue
        for r, tr in ((a, t), (b, u)):
            if r:
                want = chunk_lines(tr, [(path[s], o, k) for s, o, k in regions_of(tr.fns[n].bytes, tr)], files, "\t")
                if sorted(r[0][1]) != sorted(want):
                    yield "bytes of %s in the report: %r" % (n, r[0][1][:4])
        a = [r for r in rest if r[0].startswith("Function %s in the reference trace had" % n)]
        b = [r for r in rest if r[0].startswith("Function %s in the diffed trace had" % n)]
        both = n in t.fns and n in u.fns
        wa = t.fns[n].bytes - u.fns[n].bytes if both else set()
        wb = u.fns[n].bytes - t.fns[n].bytes if both else set()
        if (len(a), len(b)) != (int(bool(wa)), int(bool(wb))):
            yield "report of %s as different: %d, %d, its bytes differ by %d, %d" % (n, len(a), len(b), len(wa), len(wb))
            continue
        for r, w in ((a, wa), (b, wb)):
            if r:
                want = chunk_lines(t, [(path[s], o, k) for s, o, k in regions_of(w, t)], files, "\t")
                if sorted(r[0][1]) != sorted(want):
                    yield "bytes by which %s differs in the report: %r, expected %r" % (n, r[0][1][:4], want[:4])
    differ = set(t.fns) != set(u.fns) or any(t.fns[n].bytes != u.fns[n].bytes for n in t.fns)
    if ("Traces do not differ" in text) == differ:
        yield "the report ends with %r though the traces %s" % (lines[-1:], "differ" if differ else "are the same")
    # what could have caused a difference
    for which, cause in (("first", True), ("second", True)):
        if sec[which] is None:
            continue
        k = None
        said = []
        for ln in sec[which]:
            if ln.startswith("\tFunction ") and "could contain" in ln:
                said.append([ln.split()[1], {}])
            elif said and ln.startswith("\t\tHere are the bytes"):
                k = "first" if "in the reference" in ln else "second"
                said[-1][1][k] = []
            elif said and k and (ln.startswith("\t\t\t")):
                said[-1][1][k].append(ln)
        mine, want = (t, A - B) if which == "first" else (u, B - A)
        who = [cf_culprit(t, u, n) for n, f in mine.fns.items() if f.bytes & want]
        named, should = {n for n, _ in said}, {n for _, n in who if n}
        if should - named or all(k for k, _ in who) and named - should:
            yield "the report names %r as possible causes of what only the %s trace touched, expected %r" % (sorted(named), which, sorted(should))
        for n, parts in said:
            if n not in t.fns or n not in u.fns:
                yield "the report names %s, which is not in both traces" % n
                continue
            wa, wb = t.fns[n].bytes - u.fns[n].bytes, u.fns[n].bytes - t.fns[n].bytes
            if ("first" in parts) != bool(wa) or ("second" in parts) != bool(wb):
                yield "of the bytes of %s the report lists %r, it differs by %d and %d" % (n, sorted(parts), len(wa), len(wb))
                continue
            for k2, w in (("first", wa), ("second", wb)):
                if w and all(os.path.exists(path[s]) for s, _ in w):
                    want = chunk_lines(t, [(path[s], o, c) for s, o, c in regions_of(w, t)], files, "\t\t\t")
                    if sorted(parts[k2]) != sorted(want):
                        yield "bytes of %s under the %s trace: %r" % (n, k2, parts[k2][:4])


# ---- a region with its surroundings -------------------------------------------------------
def context(rng, stat, d):
    from polytracker.diffing import print_file_context
    n = rng.choice([1, 2, 10, 33, 70, 300])
    data = bytes(rng.choice(rng.choice([b"ab", b"\n\t\\\r\x00\xff~ ", bytes(range(256))])) for _ in range(n))
    p = os.path.join(d, "ctx")
    with open(p, "wb") as f:
        f.write(data)
    for _ in range(12):
        off = rng.randrange(n)
        ln = rng.choice([1, 2, 31, 32, 33, n - off, rng.randint(1, n - off)])
        ln = max(1, min(ln, n - off))
        kw = {}
        if rng.random() < 0.6:
            kw = dict(num_bytes_context=rng.choice([0, 1, 2, 7, 32, 100]), max_highlight_bytes=rng.choice([1, 2, 8, 32, 100]))
        indent = rng.choice(["", "\t", "  "])
        s = io.StringIO()
        print_file_context(s, p, off, ln, indent=indent, **kw)
        out = s.getvalue()
        ctx, mx = kw.get("num_bytes_context", 32), kw.get("max_highlight_bytes", 32)
        shown = min(ln, mx)
        lines = out.split("\n")
        call = "context of %d+%d in %d bytes (%r)" % (off, ln, n, kw)
        stat["bytes"] = stat.get("bytes", 0) + 1
        if len(lines) != 4 or lines[3] or lines[0] != "%s@%d" % (indent, off) or not all(x.startswith(indent) for x in lines[:3]):
            yield "%s printed %r" % (call, out[:120])
            continue
        body, mark = lines[1][len(indent):], lines[2][len(indent):]
        if ln > mx:
            tail = " [ … plus %d additional byte%s … ]" % (ln - mx, "s" if ln - mx > 1 else "")
            if not body.endswith(tail):
                yield "%s: line ends with %r, expected %r" % (call, body[-40:], tail)
                continue
            body = body[:-len(tail)]
        elif " additional byte" in body and "plus" in body:
            yield "%s speaks of additional bytes" % call
        a = mark.index("^")
        if mark.strip(" ^") or "^" * (len(mark) - a) != mark[a:]:
            yield "%s: marks %r" % (call, mark)
            continue
        start = max(0, off - ctx // 2)
        pre = "".join(map(esc, data[start:off]))
        want = "".join(map(esc, data[off:off + shown]))
        if body[:a] != pre or body[a:a + len(mark) - a] != want:
            yield "%s marks %r after %r, the region is %r after %r" % (call, body[a:len(mark)], body[:a], want, pre)
            continue
        after = body[len(mark):]
        full = "".join(map(esc, data[off + shown:]))
        if not full.startswith(after):
            yield "%s shows %r after the region, the file has %r" % (call, after, full[:40])


# ---- pictures ------------------------------------------------------------------------------
def pixels(im, n, first, second):
    w, h = im.size
    if w * h < n:
        yield "picture of %d bytes has %dx%d pixels" % (n, w, h)
        return
    px = im.load()
    want = {(True, True): (255, 255, 255), (True, False): (0, 0, 255), (False, True): (255, 0, 0), (False, False): (0, 0, 0)}
    bad = [i for i in range(n) if px[i % w, i // w] != want[bool(first(i)), bool(second(i))]]
    if bad:
        yield "pixels of bytes %r of %d are wrong" % (bad[:6], n)


def image(rng, stat, d):
    from polytracker.visualizations import file_diff
    n = rng.choice([0, 1, 2, 3, 5, 17, 100, rng.randint(0, 3000)])
    a = {i for i in range(n) if rng.random() < rng.choice([0.1, 0.5, 0.9])}
    b = {i for i in range(n) if rng.random() < rng.choice([0.1, 0.5, 0.9])}
    kw = {} if rng.random() < 0.5 else dict(aspect_ratio=rng.choice([0.1, 0.5, 1.0, 1.61, 3.7, 20.0]))
    stat["bytes"] = n
    yield from pixels(file_diff(n, lambda i: i in a, lambda i: i in b, **kw), n, lambda i: i in a, lambda i: i in b)


def animation(rng, stat, d):
    from PIL import Image
    from polytracker.visualizations import temporal_animation
    from tracestub import Trace
    n = rng.choice([1, 2, 7, 30, 200])
    t = Trace(bytes(n))
    t.call("main")
    seq = [rng.randrange(n) for _ in range(rng.choice([1, 2, 9, 25]))]
    for o in seq:
        t.pos = o
        t.read(1)
    stat["bytes"] = len(seq)
    p = os.path.join(d, "a.gif")
    temporal_animation(p, t)
    im = Image.open(p)
    w, h = im.size
    if w * h < n:
        yield "animation of %d bytes has %dx%d pixels" % (n, w, h)
        return
    im.seek(im.n_frames - 1)
    px = im.convert("L").load()
    if px[seq[-1] % w, seq[-1] // w] != 0:
        yield "the last frame does not show the last access, to byte %d" % seq[-1]
    for i in range(w * h):
        if i not in seq and px[i % w, i // w] != 255:
            yield "the last frame shows byte %d, which was never accessed" % i
            break


def _one(job):
    kind, seed = job
    out, stat = [], {}
    rng = random.Random("%s-%s" % (kind, seed))
    d = tempfile.mkdtemp(prefix="c19-", dir=runner.scratch())
    try:
        pyside.guarded("C19", kind, lambda: globals()[kind](rng, stat, d), out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return job, out, stat, hashlib.sha1(repr((kind, rng.random(), stat.get("fp"))).encode()).hexdigest()[:12]


COUNTS = {"diff": (1500, 20000), "context": (600, 6000), "image": (300, 2000), "animation": (80, 600)}


def run(prop, replay=None):
    ck = Check(prop)
    ck.rule = ("A case is one pair of traces of one program (random call graphs and bytes touched per function), one file with regions "
               "shown in context, or one picture; every answer, report line and pixel is compared with set differences. Cases differ "
               "when their random draws differ.")
    ck.assumptions = ["both traces are of one program: a function has the same number in both, and all functions are called below main",
                      "the traces are stand-ins behind the abstract trace interface (the runtime's recordings do not offer function-level taint)"]
    import polytracker.diffing  # noqa: F401
    jobs = [tuple(replay["job"])] if replay else [(k, "%d-%d" % (ck.seed, i)) for k in KINDS for i in range(ck.n(*COUNTS[k]))]
    for job, V, stat, fp in runner.pmap(_one, jobs):
        ck.evaluations += 1
        ck.distinct.add(fp)
        ck.count(job[0] + "_cases")
        ck.count(job[0] + "_elements", stat.get("bytes", 0))
        if stat.get("culprits"):
            ck.count("functions_with_a_differing_dominator", stat["culprits"])
        if job[1].endswith("-3"):
            ck.sample(dict(job=list(job), elements=stat.get("bytes", 0)))
        for _, text in V[:1]:
            ck.violation("%s/%s: %s" % (job[0], job[1], text), dict(job=list(job)))
        if len(ck.violations) >= 8:
            break
    ck.finish()
