"""C20: navigating a trace (callers, calls, blocks, counts, uses) reports what was traced."""
import hashlib
import os
import random

os.environ["TQDM_DISABLE"] = "1"
import pyside
import runner
from driver import Check

ALPHA = b"abc \x00\xff,"


def classes():
    import tracestub
    from polytracker.tracing import ByteAccessType, ByteOffset, FunctionEntry, TaintAccess, Taints

    class E(tracestub.Entry):
        # polytracker's own way to find the function entered
        function = FunctionEntry.function

        def taints(self):
            return Taints(ByteOffset(self.tr.source, o) for o in self.tr.mine.get(self.uid, ()))

    class Note(tracestub.Event):
        """An event that has nothing to do with control flow."""

    class A(TaintAccess):
        def __init__(self, i, ev, where):
            super().__init__(i, ev, 1, ByteAccessType.INPUT_ACCESS)
            self.where = where

        def taints(self):
            return Taints([ByteOffset(s, o) for s, o in self.where])

    class T(tracestub.Trace):
        ENTRY = E
        notes = 0
        calls_in_block = 0

        def __init__(self, data, rng):
            super().__init__(data)
            self.rng = rng
            # what happened, kept apart from the events: per call, per block
            self.parent, self.via, self.count, self.inside, self.mine = {}, {}, {}, {}, {}
            self.log = []
            self.now = []

        def note(self):
            while self.rng.random() < self.notes:
                Note(self, self.stack[-1] if self.stack else None)

        def call(self, name):
            self.note()
            at = self.now[-1] if self.now else None
            n = len(self.events)
            self.parent[n] = None if at is None else at[0]
            self.via[n] = None if at is None else at[1]
            self.inside[n] = []
            if at is not None:
                self.inside[at[0]].append(n)
            self.now.append([n, None])
            super().call(name)

        def bb(self, name):
            self.note()
            n = len(self.events)
            f = self.now[-1]
            super().bb(name)
            key = (f[0], self.cur[-1].block.index_in_function)
            self.log.append((n, f[0], self.count.get(key, 0)))
            self.count[key] = self.count.get(key, 0) + 1
            f[1] = n
            self.inside[f[0]].append(n)

        def ret(self):
            self.note()
            self.now.pop()
            if self.stack[:-1] and self.rng.random() < self.calls_in_block:
                # the caller goes on calling, no block of it is entered in between
                e = self.stack.pop()
                b = self.cur.pop()
                import tracestub
                e.ret = tracestub.Ret(self, e, b.block)
            else:
                super().ret()
    return T, A, Note


def build(rng, multi):
    T, A, Note = classes()
    n = rng.choice([1, 4, 12, 30])
    t = T(bytes(rng.choice(ALPHA) for _ in range(n)), rng)
    t.notes = rng.choice([0, 0, 0.2])
    t.calls_in_block = rng.choice([0.3, 0.8]) if multi else 0
    budget = [rng.choice([3, 12, 40, 80])]
    names = rng.choice([1, 2, 4])
    blocks = rng.choice([1, 2, 5])
    stop = rng.random() < 0.4
    quit = [False]

    def f(d):
        t.call("f%d" % rng.randint(0, names) if d else "main")
        for _ in range(rng.randint(0, 10)):
            if budget[0] <= 0 or quit[0]:
                break
            budget[0] -= 1
            k = rng.random()
            if k < 0.4:
                t.bb("entry" if rng.random() < 0.15 else "b%d" % rng.randint(0, blocks))
            elif k < 0.6:
                t.pos = rng.randint(0, n)
                t.read(rng.choice([1, 1, 2, 3]))
            elif d < 8:
                f(d + 1)
            elif stop and rng.random() < 0.1:
                quit[0] = True
        if stop and rng.random() < 0.05:
            quit[0] = True  # the program ends here, nothing on the stack returns
        if not quit[0]:
            t.ret()
    f(0)
    return t, A, Note


def navigation(rng, stat, multi=False):
    from polytracker.tracing import BasicBlockEntry, FunctionEntry, FunctionInvocation, FunctionReturn
    from c14 import runs_of
    t, A, Note = build(rng, multi)
    ev = t.events
    flow = [e for e in ev if not isinstance(e, Note)]
    at = {e.uid: i for i, e in enumerate(flow)}
    stat["events"] = len(ev)
    entries = [e for e in ev if isinstance(e, FunctionEntry)]
    blocks = [e for e in ev if isinstance(e, BasicBlockEntry)]
    frame = {n: f for n, f, _ in t.log}
    nth = {n: c for n, _, c in t.log}

    def uid(x):
        return None if x is None else x.uid

    for e in ev:
        i = at.get(e.uid)
        if i is not None:
            for got, want, what in ((e.next_control_flow_event, flow[i + 1] if i + 1 < len(flow) else None, "next"),
                                    (e.previous_control_flow_event, flow[i - 1] if i else None, "previous")):
                if got is not want:
                    yield "the %s control flow event of event %d is %s, traced was %s" % (what, e.uid, uid(got), uid(want))
    # bytes used by each call itself and by everything it called
    used = {}
    for b in blocks:
        used.setdefault(frame[b.uid], set()).update(b.consumed)
    deep = {}
    for e in reversed(entries):
        s = set(used.get(e.uid, ()))
        for x in t.inside[e.uid]:
            if x in deep:
                s |= deep[x]
        deep[e.uid] = s
    for e in entries:
        mine = t.inside[e.uid]
        mb, mc = [x for x in mine if x in frame], [x for x in mine if x not in frame]
        if uid(e.caller) != t.via[e.uid]:
            yield "call %d was made by block event %s, reported is %s" % (e.uid, t.via[e.uid], uid(e.caller))
        if mb and uid(e.entrypoint) != mb[0]:
            yield "call %d began with block event %s, reported is %s" % (e.uid, mb[0], uid(e.entrypoint))
        if e.function is not e.fn or e.basic_block is not ev[mb[0]].block:
            yield "call %d entered %s, reported is %s at %s" % (e.uid, e.fn, e.function, e.basic_block)
        inv = FunctionInvocation(e)
        got = [x.uid for x in inv.calls()]
        if got != mc:
            yield "call %d made calls %r, reported are %r" % (e.uid, mc, got)
        got = [x.uid for x in inv.basic_blocks()]
        # a call that never returned hides what its caller did before, nothing can follow it
        if got != mb:
            yield "call %d entered blocks %r, reported are %r" % (e.uid, mb, got)
        if inv.function is not e.fn or inv.function_entry is not e or inv.function_return is not e.ret:
            yield "the invocation of call %d is of %s" % (e.uid, inv.function)
        if inv.previous_event is not e.previous_event or inv.next_event is not e.next_event:
            yield "the invocation of call %d has other neighbours than its entry" % e.uid
        via, back = t.via[e.uid], None
        if e.ret is not None and at[e.ret.uid] + 1 < len(flow) and isinstance(flow[at[e.ret.uid] + 1], BasicBlockEntry):
            back = flow[at[e.ret.uid] + 1].uid
        text = str(inv)
        shown = lambda n: "%s#%d" % (ev[n].block, nth[n])
        for n, words in ((via, "called from "), (back, "returning to ")):
            if (words in text) != (n is not None) or n is not None and words + shown(n) not in text:
                yield "call %d, %s%s, is shown as %r" % (e.uid, words, n, text)
        if not multi:
            got = [x.uid for x in inv]
            if got != mine:
                yield "in call %d happened %r, reported is %r" % (e.uid, mine, got)
            for _ in range(2):
                got = [o.offset for o in inv.taints()]
                if got != sorted(deep[e.uid]):
                    yield "call %d used the bytes %r, reported are %r" % (e.uid, sorted(deep[e.uid]), got)
            if inv.touched_taint != bool(deep[e.uid]):
                yield "call %d touched taint: %r, reported is %r" % (e.uid, bool(deep[e.uid]), inv.touched_taint)
            # the next function entered once this call is over
            if e.ret is not None:
                later = [x.uid for x in entries if x.uid > e.ret.uid]
            else:
                later = [x.uid for x in entries if x.uid > e.uid]
            if uid(t.next_function_entry(e)) != (later[0] if later else None):
                yield "after call %d function entry %s follows, reported is %s" % (e.uid, later[:1], uid(t.next_function_entry(e)))
    for n, f, count in t.log:
        b = ev[n]
        if b.entry_count() != count:
            yield "block event %d is entry %d of its block in the call, reported is %d" % (n, count, b.entry_count())
        if str(b) != "%s#%d" % (b.block, count):
            yield "block event %d is shown as %r" % (n, str(b))
        i = at[n]
        nxt = flow[i + 1] if i + 1 < len(flow) else None
        want = nxt.uid if isinstance(nxt, FunctionEntry) else None
        if uid(b.called_function) != want:
            yield "block event %d called %s, reported is %s" % (n, want, uid(b.called_function))
        rest = [x for x in t.inside[f] if x in frame and x > n]
        if uid(b.next_basic_block_in_function()) != (rest[0] if rest else None):
            yield "block event %d is followed by %s in its call, reported is %s" % (n, rest[:1], uid(b.next_basic_block_in_function()))
        rest = [x for x in rest if ev[x].consumed]
        got = uid(b.next_basic_block_in_function_that_touched_taint())
        if got != (rest[0] if rest else None):
            yield "the next block after event %d that used input is %s, reported is %s" % (n, rest[:1], got)
        want = [t.data[x:y] for x, y in runs_of(set(b.consumed))]
        if list(b.consumed_tokens) != want or b.touched_taint != bool(b.consumed):
            yield "block event %d consumed %r, reported is %r" % (n, want, b.consumed_tokens)
    for e in ev:
        if isinstance(e, FunctionReturn):
            i = at[e.uid]
            nxt = flow[i + 1] if i + 1 < len(flow) else None
            want = nxt.uid if isinstance(nxt, BasicBlockEntry) else None
            if uid(e.returning_to) != want:
                yield "event %d returned to block event %s, reported is %s" % (e.uid, want, uid(e.returning_to))
            if e.returning_from is not e.frame.fn:
                yield "event %d returned from %s, reported is %s" % (e.uid, e.frame.fn, e.returning_from)
    t.mine = {e.uid: sorted(used.get(e.uid, ())) for e in entries}
    got = ([e.uid for e in t.function_trace()], t.num_function_calls(), t.num_basic_block_entries(),
           t.num_function_calls_that_touched_taint(), uid(t.entrypoint), uid(t.next_function_entry()))
    want = ([e.uid for e in entries], len(entries), len(blocks), sum(1 for e in entries if used.get(e.uid)),
            entries[0].uid, entries[0].uid)
    if got != want:
        yield "the trace has calls, counts and entry %r, reported are %r" % (want, got)
    stat["calls"] = len(entries)
    stat["blocks"] = len(blocks)
    stat["open_calls"] = sum(1 for e in entries if e.ret is None)


def several(rng, stat):
    """Blocks that make several calls in a row."""
    yield from navigation(rng, stat, multi=True)


def uses(rng, stat):
    """Unused bytes, bytes first used out of order, and jumps back, per input."""
    from polytracker.inputs import Input
    T, A, _ = classes()
    k = rng.choice([1, 1, 2, 3])
    src = [Input(uid=i + 1, path="in%d" % i, size=rng.choice([1, 2, 5, 16]), content=b"x" * 16) for i in range(k)]
    t = T(b"x", rng)
    t.call("main")
    acc = []
    pos = [0] * k
    for _ in range(rng.choice([0, 1, 3, 10, 30])):
        where = set()
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            s = rng.randrange(k)
            if rng.random() < 0.3:
                pos[s] = rng.randrange(src[s].size)
            where.add((s, pos[s] % src[s].size))
            pos[s] += 1
        acc.append(sorted(where))
    t.access_sequence = lambda: (A(i, t.events[1], [(src[s], o) for s, o in w]) for i, w in enumerate(acc))
    for s in range(k):
        first, jumps, last = {}, [], None
        for i, w in enumerate(acc):
            for x, o in w:
                if x != s:
                    continue
                first.setdefault(o, i)
                if last is not None and o < last:
                    jumps.append((i - 1, last, o))
                last = o
        size = src[s].size
        unused = [o for o in range(size) if o not in first]
        early = [o for o in range(1, size) if o in first and o - 1 in first and first[o] < first[o - 1]]
        p = t.input_properties(src[s])
        got = (p.unused_byte_offsets, p.out_of_order_byte_offsets, p.file_seeks)
        if got != (unused, early, jumps):
            yield "accesses %r leave input %d with (unused, out of order, jumps) %r, reported is %r" % (acc, s, (unused, early, jumps), got)
        if bool(p) != (not unused and not early and not jumps):
            yield "input properties %r are %r" % (got, bool(p))
        stat["jumps"] = stat.get("jumps", 0) + len(jumps)
        stat["inputs"] = stat.get("inputs", 0) + 1


def graphs(rng, stat):
    """The control flow graph, its roots, and the graph of calls."""
    import tracestub
    T, A, _ = classes()
    t = T(b"x", rng)
    nf = rng.choice([1, 2, 4])
    # functions of different files may share a name
    fns = [tracestub.Fn("f%d" % (i // 2 if nf == 4 else i), i) for i in range(nf)]
    bs = []
    for f in fns:
        t.fns[f.function_index] = f
        for j in range(rng.choice([1, 2, 5])):
            b = tracestub.Block(f, j)
            t.blocks.setdefault(f.function_index, {})[j] = b
            bs.append(b)
    edges = set()
    for _ in range(rng.choice([0, len(bs), 2 * len(bs)])):
        a, b = rng.choice(bs), rng.choice(bs)
        a.children.add(b)
        b.predecessors.add(a)
        edges.add((a, b))
    calls = {(a, b) for a in fns for b in fns if rng.random() < 0.3}
    for f in fns:
        f.calls_to = lambda f=f: {b for a, b in calls if a is f}
    for _ in range(2):
        if set(t.cfg.nodes) != set(bs) or set(t.cfg.edges) != edges:
            yield "the control flow graph is not the one of the blocks"
        if set(t.function_cfg.nodes) != set(fns) or set(t.function_cfg.edges) != calls:
            yield "the call graph is not the one of the functions"
    roots = [b for b in bs if not any(y == b for _, y in edges)]
    if sorted(map(id, t.cfg_roots())) != sorted(map(id, roots)):
        yield "roots are %r, reported are %r" % (list(map(str, roots)), list(map(str, t.cfg_roots())))
    if t.is_cfg_connected() != (len(roots) == 1):
        yield "with %d roots the graph is reported connected: %r" % (len(roots), t.is_cfg_connected())
    for i, b in enumerate(bs):
        if len({b} & set(bs)) != 1 or any((b == c) != (b is c) for c in bs):
            yield "blocks of different functions or numbers are taken for each other"
            break
    stat["edges"] = len(edges) + len(calls)


KINDS = {"navigation": (30000, 300000), "several": (20000, 200000), "uses": (20000, 200000), "graphs": (10000, 100000)}


def _one(job):
    kind, seed = job
    out, stat = [], {}
    rng = random.Random("%s-%s" % (kind, seed))
    pyside.guarded("C20", kind, lambda: globals()[kind](rng, stat), out, seconds=120)
    return job, out, stat, hashlib.sha1(repr((kind, rng.random())).encode()).hexdigest()[:12]


def run(prop, replay=None):
    ck = Check(prop)
    ck.rule = ("A case is one generated trace (random nesting of calls and blocks, finished or cut off, with or without unrelated events in "
               "between), list of accesses or control flow graph; every answer about every event is compared with what the generator noted. "
               "Cases differ when their random draws differ.")
    ck.assumptions = ["traces come from a recorder behind polytracker's trace interface, since recordings cannot be loaded as function-level traces yet",
                      "a function that is entered enters a block; only where stated does a block make more than one call"]
    import polytracker.tracing  # noqa: F401
    jobs = [tuple(replay["job"])] if replay else [(k, "%d-%d" % (ck.seed, i)) for k, c in KINDS.items() for i in range(ck.n(*c))]
    for job, V, stat, fp in runner.pmap(_one, jobs, mem=4 << 30):
        ck.evaluations += 1
        ck.distinct.add(fp)
        ck.count(job[0] + "_traces")
        for k, v in stat.items():
            ck.count(k, v)
        if job[1].endswith("-3"):
            ck.sample(dict(job=list(job), seen=stat))
        for _, text in V[:1]:
            ck.violation("%s/%s: %s" % (job[0], job[1], text), dict(job=list(job)))
        if len(ck.violations) >= 8:
            break
    ck.finish()
