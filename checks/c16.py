"""C16: parse trees and grammars extracted from recorded parser runs."""
import hashlib
import os
import random

os.environ["TQDM_DISABLE"] = "1"
import pyside
import runner
from driver import Check

ALPHA = b'ab(),"1 \x00\xff{}[]:-+'


# ---- recorded parsers -------------------------------------------------------------------------
def descent(rng, look, seek=False, n=None):
    """A random nesting of calls and blocks that consumes a random input."""
    import tracestub
    n = n or rng.choice([1, 2, 5, 12, 24, 40])
    t = tracestub.Trace(bytes(rng.choice(ALPHA) for _ in range(n)))
    budget = [rng.choice([4, 15, 40, 90])]
    width = rng.choice([4, 8, 12])
    stop = rng.random() < 0.2

    def f(d):
        t.call("f%d" % rng.randint(0, 3) if d else "main")
        for _ in range(rng.randint(1, width)):
            if budget[0] <= 0:
                break
            budget[0] -= 1
            k = rng.random()
            if k < 0.3:
                t.bb("b%d" % rng.randint(0, 4))
            elif k < 0.6:
                t.read(rng.choice([1, 1, 1, 2, 3]))
            elif k < 0.75:
                if look:
                    t.peek(rng.randint(1, look))
                if seek and rng.random() < 0.4:
                    t.pos = rng.randint(0, n)
            elif d < 8:
                f(d + 1)
        if d or not stop:
            t.ret()
    f(0)
    return t


def json(rng):
    """A recursive-descent parser for lists, objects, strings and numbers, one byte of lookahead."""
    import tracestub

    def make(d):
        k = rng.random()
        if d > 3 or k < 0.35:
            return b"%d" % rng.randint(0, 1234)
        if k < 0.55:
            return b'"%s"' % bytes(rng.choice(b"abc \xc3") for _ in range(rng.randint(0, 4)))
        ws = b" " * rng.choice([0, 0, 1, 2])
        if k < 0.8:
            return b"[" + ws + (b"," + ws).join(make(d + 1) for _ in range(rng.randint(0, 3))) + b"]"
        return b"{" + (b"," + ws).join(b'"k%d":' % i + make(d + 1) for i in range(rng.randint(0, 3))) + ws + b"}"

    t = tracestub.Trace(make(0) + rng.choice([b"", b" ", b"trailing"]))

    def skip():
        t.call("skip")
        while t.peek(1) == b" ":
            t.bb("space")
            t.pos += 1
        t.ret()

    def string():
        t.call("string")
        t.read(1)
        while True:
            t.bb("char")
            if t.read(1) in (b'"', b""):
                break
        t.ret()

    def number():
        t.call("number")
        while t.peek(1).isdigit():
            t.bb("digit")
            t.pos += 1
        t.ret()

    def value(top=False):
        t.call("value")
        skip()
        c = t.peek(1)
        if c in (b"[", b"{"):
            t.bb("open")
            t.read(1)
            skip()
            while t.peek(1) not in (b"]", b"}", b""):
                t.bb("item")
                if c == b"{":
                    string()
                    t.bb("colon")
                    t.read(1)
                value()
                skip()
                if t.peek(1) == b",":
                    t.bb("comma")
                    t.read(1)
                skip()
            t.bb("close")
            t.read(1)
        elif c == b'"':
            t.bb("str")
            string()
        else:
            t.bb("num")
            number()
        t.ret()
    t.call("main")
    value()
    t.ret()
    return t


# ---- monitors ---------------------------------------------------------------------------------
def walk(tree, fn):
    todo = [(tree, None)]
    while todo:
        n, parent = todo.pop()
        fn(n, parent)
        todo.extend((c, n) for c in reversed(n.children))


def plain(t):
    """The tree that lists, per call, its blocks, the bytes each used and the calls each made."""
    import tracestub
    from c14 import runs_of
    from polytracker.parsing import Terminal, trace_to_tree
    within, used = {}, {}
    stack = []
    for e in t.events:
        if isinstance(e, tracestub.Entry):
            if stack:
                within[stack[-1].uid].append(e)
            stack.append(e)
            within[e.uid] = []
        elif isinstance(e, tracestub.BB):
            within[stack[-1].uid].append(e)
            if e.consumed:
                used.update((x.uid, True) for x in stack)
        else:
            stack.pop()

    def expect(entry, terminals):
        out = []
        for e in within[entry.uid]:
            if isinstance(e, tracestub.Entry):
                if e.uid in used:
                    out.append((e.uid, expect(e, terminals)))
            else:
                out.append((e.uid, []))
                if terminals:
                    out += [(t.data[a:b], []) for a, b in runs_of(set(e.consumed))]
        return out

    def shape(n):
        return [(c.value.terminal if isinstance(c.value, Terminal) else c.value.uid, shape(c)) for c in n.children]

    for terminals in (True, False):
        got = shape(trace_to_tree(t, include_terminals=terminals))
        want = [(0, expect(t.events[0], terminals))]
        if got != want:
            yield "the plain tree of %r, terminals %r, is %r, traced was %r" % (t.data, terminals, got, want)


def check(t, rng, stat, exact):
    from polytracker.grammars import extract, parse_tree_to_grammar
    from polytracker.parsing import Start, Terminal, trace_to_non_generalized_tree
    from polytracker.tracing import BasicBlockEntry, FunctionInvocation
    try:
        tree = trace_to_non_generalized_tree(t)
    except (ValueError, AssertionError) as e:
        if exact:
            yield "no tree for %r: %s" % (t.data, e)
        else:
            stat["refused"] = 1
        return
    stat["trees"] = 1
    out, faults = [], []
    owner = {}
    for ev, o in t.accesses:
        owner[o] = ev
    last = {}

    def see(n, parent):
        v = n.value
        if isinstance(v, Terminal):
            for i in range(len(v.terminal)):
                o = len(out) + i
                if exact and o < len(t.data):
                    want = owner.get(o)
                    got = parent.value if isinstance(parent.value, BasicBlockEntry) else None
                    if got is not want:
                        faults.append("byte %d was last used in %s, the tree has it under %s" % (o, want, parent.value))
            out.extend(v.terminal)
            if n.children:
                faults.append("a terminal has children")
            return
        if parent is None:
            if not isinstance(v, Start):
                faults.append("the root is %s" % v)
            return
        if isinstance(v, FunctionInvocation):
            c = v.function_entry.caller
            want = None if c is None else c.function_entry.uid
        elif isinstance(v, BasicBlockEntry):
            want = v.function_entry.uid
        else:
            faults.append("a node stands for %r" % (v,))
            return
        got = None if isinstance(parent.value, Start) else parent.value.uid
        if got != want:
            faults.append("%s is nested in event %s, it ran in event %s" % (v, got, want))
        if last.get(id(parent), -1) >= v.uid:
            faults.append("%s comes after an event that followed it" % v)
        last[id(parent)] = v.uid

    walk(tree, see)
    stat["nodes"] = len(last)
    if bytes(out) != t.data:
        faults.insert(0, "the leaves spell %r" % bytes(out))
    if tree.matches() != t.data:
        faults.insert(0, "matches() gives %r" % tree.matches())
    for f in faults[:3]:
        yield "tree of %r: %s" % (t.data, f)
    if faults:
        return
    yield from plain(t)
    copy = tree.clone()
    copy.simplify()
    if copy.matches() != t.data:
        yield "simplifying the tree of %r changes its leaves to %r" % (t.data, copy.matches())
    if tree.matches() != t.data:
        yield "simplifying a clone changed the tree of %r" % t.data

    def accepts(g, what):
        try:
            if bool(g.match(t.data)):
                return
            e = "no match"
        except ValueError as x:
            e = str(x).split("\n")[0]
        yield "%s of %r does not accept it: %s" % (what, t.data, e)

    for tr, name in ((tree, "grammar"), (copy, "grammar of the simplified tree")):
        g = parse_tree_to_grammar(tr)
        g.verify(True)
        yield from accepts(g, name)
        g = parse_tree_to_grammar(tr)
        g.simplify()
        yield from accepts(g, "simplified " + name)
    for simp in (False, True):
        yield from accepts(extract([t], simp), "extracted grammar")
    stat["grammars"] = 6


def once(rng, stat):
    import contextlib
    import io
    from polytracker.grammars import trace_to_grammar
    t = descent(rng, 0)
    yield from check(t, rng, stat, True)
    # the grammar taken from the trace itself accepts what the trace used
    used = t.data[:t.pos]
    for simp in (False, True):
        with contextlib.redirect_stdout(io.StringIO()):
            g = trace_to_grammar(t)
        if simp:
            g.simplify()
        try:
            ok = bool(g.match(used))
        except ValueError:
            ok = False
        if not ok:
            yield "the grammar taken from a trace that used %r%s does not accept it" % (used, ", simplified," if simp else "")
    stat["trace_grammars"] = 2


def lookahead(rng, stat):
    yield from check(descent(rng, 1), rng, stat, True)


def parser(rng, stat):
    yield from check(json(rng), rng, stat, True)


def wild(rng, stat):
    yield from check(descent(rng, rng.choice([0, 2, 6]), seek=rng.random() < 0.6), rng, stat, False)


KINDS = {"once": (3000, 30000), "lookahead": (4500, 45000), "parser": (1500, 12000), "wild": (3000, 25000)}


def _one(job):
    kind, seed = job
    out, stat = [], {}
    rng = random.Random("%s-%s" % (kind, seed))
    pyside.guarded("C16", kind, lambda: globals()[kind](rng, stat), out, seconds=120)
    return job, out, stat, hashlib.sha1(repr((kind, rng.random())).encode()).hexdigest()[:12]


def run(prop, replay=None):
    ck = Check(prop)
    ck.rule = ("A case is one recorded run of a generated parser (random nesting of calls and blocks, or a list/object parser on random "
               "documents); its tree, the simplified tree and six extracted grammars are checked. Cases differ when their random draws differ.")
    ck.assumptions = ["traces come from a recorder behind polytracker's trace interface, since recordings cannot be loaded as function-level traces yet",
                      "inputs are not empty; extraction from several traces at once uses the first only (unfinished in the code)"]
    import polytracker.grammars  # noqa: F401
    jobs = [tuple(replay["job"])] if replay else [(k, "%d-%d" % (ck.seed, i)) for k, c in KINDS.items() for i in range(ck.n(*c))]
    for job, V, stat, fp in runner.pmap(_one, jobs, mem=4 << 30):
        ck.evaluations += 1
        ck.distinct.add(fp)
        ck.count(job[0] + "_traces")
        for k, v in stat.items():
            ck.count(k, v)
        if job[1].endswith("-3"):
            ck.sample(dict(job=list(job), seen=stat))
        for _, text in V[:1]:
            ck.violation("%s/%s: %s" % (job[0], job[1], text), dict(job=list(job)))
        if len(ck.violations) >= 8:
            break
    ck.finish()
