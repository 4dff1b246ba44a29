"""C14: taint collections, graph utilities and the cache against brute-force definitions."""
import hashlib
import math
import os
import random
from collections import OrderedDict
from itertools import islice

os.environ["TQDM_DISABLE"] = "1"
import pyside
import runner
from driver import Check

KINDS = ["taints", "region", "graph", "cache", "ordered", "props", "outputs", "function"]


# ---- taint collections ---------------------------------------------------------
def make_inputs(rng):
    from polytracker.inputs import Input
    out = []
    for i in range(rng.choice([1, 1, 2, 3])):
        alpha = rng.choice([b"a", b"ab", b"ab\x00\xff", bytes(range(256))])
        n = rng.choice([1, 3, 10, 40])
        c = bytes(rng.choice(alpha) for _ in range(n))
        out.append(Input(uid=rng.choice([i, i + 3, 10 - i]), path="in%d" % i, size=n, content=c))
    return out


def runs_of(offs):
    out = []
    for o in sorted(offs):
        if out and out[-1][1] == o:
            out[-1][1] = o + 1
        else:
            out.append([o, o + 1])
    return [tuple(x) for x in out]


def taints(rng, stat):
    from polytracker.tracing import ByteOffset, Taints
    ins = make_inputs(rng)
    chosen = {}
    objs = []
    for i in ins:
        if rng.random() < 0.15:
            continue
        dens = rng.choice([0.1, 0.5, 0.9, 1.0])
        offs = {o for o in range(i.size) if rng.random() < dens}
        if offs:
            chosen[i] = offs
        objs += [ByteOffset(i, o) for o in offs]
    objs += [rng.choice(objs) for _ in range(rng.choice([0, 3])) if objs]
    rng.shuffle(objs)
    t = Taints(iter(objs) if rng.random() < 0.5 else objs)
    total = sum(map(len, chosen.values()))
    stat["bytes"] = total
    if len(t) != total or bool(t) != bool(total):
        yield "length %d, holds %d bytes" % (len(t), total)
    if t.sources() != set(chosen):
        yield "sources %r" % [s.path for s in t.sources()]
    got = [(o.source.path, o.offset, o.length) for o in t]
    if len(got) != len(set(got)) or set(got) != {(i.path, o, 1) for i, s in chosen.items() for o in s}:
        yield "iteration yields %r" % got[:8]
    for i in ins:
        mine = [o for p, o, _ in got if p == i.path]
        if mine != sorted(mine):
            yield "offsets of %s are not increasing: %r" % (i.path, mine[:10])
        sub = t.from_source(i)
        if [(o.source.path, o.offset) for o in sub] != [(i.path, o) for o in sorted(chosen.get(i, ()))]:
            yield "from_source(%s) is %r" % (i.path, [(o.source.path, o.offset) for o in sub][:8])
    want = sorted((i.path, a, b - a) for i, s in chosen.items() for a, b in runs_of(s))
    for how, it in (("regions", t.regions()), ("to_regions", Taints.to_regions(objs and list(dict.fromkeys(objs)), is_sorted=False))):
        got = sorted((r.source.path, r.offset, r.length) for r in islice(it, total + 5))
        if got != want:
            yield "%s %r, bytes held form %r" % (how, got[:6], want[:6])
    for r in islice(t.regions(), 20):
        if r.value != r.source.content[r.offset:r.offset + r.length] or bytes(r) != r.value:
            yield "value of region %d+%d is %r" % (r.offset, r.length, r.value)
    for _ in range(6):
        i = rng.choice(ins)
        a = rng.randrange(i.size)
        ln = rng.choice([1, 1, 2, 3, 5])
        pat = i.content[a:a + ln] if rng.random() < 0.7 else bytes(rng.choice(b"ab\x00\xffz") for _ in range(ln))
        arg = pat
        if len(pat) == 1 and rng.random() < 0.5:
            arg = pat[0]
        elif all(c < 128 for c in pat) and rng.random() < 0.5:
            arg = pat.decode()
        want = sorted((s.path, p, len(pat)) for s, offs in chosen.items() for b, e in runs_of(offs)
                      for p in range(b, e - len(pat) + 1) if s.content[p:p + len(pat)] == pat)
        got = sorted((r.source.path, r.offset, r.length) for r in islice(t.find(arg), len(want) + 50))
        if got != want:
            yield "find(%r) yields %r, bytes held have it at %r" % (arg, got[:6], want[:6])
        if (arg in t) != bool(want):
            yield "%r in taints is %r, found at %r" % (arg, arg in t, want[:3])
    # differences
    other = {i: {o for o in range(i.size) if rng.random() < 0.5} for i in ins}
    u = Taints([ByteOffset(i, o) for i, s in other.items() for o in s])
    d = t.diff(u)
    flat = lambda m: {(i.path, o) for i, s in m.items() for o in s}
    A, B = flat(chosen), flat(other)
    for what, got, want in (("first", d.bytes_only_in_first, A - B), ("second", d.bytes_only_in_second, B - A)):
        g = [(o.source.path, o.offset) for o in got]
        if len(g) != len(set(g)) or set(g) != want:
            yield "only in %s: %r, expected %r" % (what, g[:6], sorted(want)[:6])
    for what, got, want in (("first", d.regions_only_in_first, A - B), ("second", d.regions_only_in_second, B - A)):
        g = sorted((r.source.path, r.offset, r.length) for r in got)
        w = sorted((p, a, b - a) for p in {x for x, _ in want} for a, b in runs_of({o for x, o in want if x == p}))
        if g != w:
            yield "regions only in %s: %r, expected %r" % (what, g[:6], w[:6])
    if bool(d) != (A != B):
        yield "diff is %r though the collections are %s" % (bool(d), "equal" if A == B else "different")


def region(rng, stat):
    from polytracker.tracing import ByteOffset, TaintedRegion
    i = make_inputs(rng)[0]
    off = rng.randrange(i.size)
    ln = rng.randint(0, i.size - off)
    r = TaintedRegion(i, off, ln)
    pos = list(range(off, off + ln))
    stat["bytes"] = ln
    if r.value != i.content[off:off + ln]:
        yield "value %r" % r.value
    B = [None, 0, 1, -1, 2, -2, ln, ln + 1, ln + 5, -ln, -ln - 1, -ln - 5, ln - 1]
    for a in B:
        for b in B:
            s = r[a:b]
            want = pos[a:b]
            if s.length != len(want) or (want and s.offset != want[0]) or s.source != i or s.value != bytes(i.content[p] for p in want):
                yield "region %d+%d sliced [%r:%r] is %d+%d, expected %r" % (off, ln, a, b, s.offset, s.length, want[:4])
    for k in range(ln):
        x = r[k]
        if (x.source, x.offset, x.length) != (i, off + k, 1):
            yield "region[%d] is %d+%d" % (k, x.offset, x.length)
    for k in (ln, ln + 3, -1):
        try:
            x = r[k]
            if not -ln <= k < ln or x.offset != pos[k]:
                yield "region[%d] of %d bytes is offset %d" % (k, ln, x.offset)
        except IndexError:
            pass
    rs = [TaintedRegion(i, rng.randrange(4), rng.randrange(3)) for _ in range(6)] + [ByteOffset(i, 1)]
    for x in rs:
        for y in rs:
            e = (x.offset, x.length) == (y.offset, y.length)
            if (x == y) != e or (e and hash(x) != hash(y)):
                yield "equality of regions %r %r" % ((x.offset, x.length), (y.offset, y.length))
            if (x < y) != ((x.offset, x.length) < (y.offset, y.length)):
                yield "order of regions %r %r" % ((x.offset, x.length), (y.offset, y.length))


def outputs(rng, stat):
    from polytracker.inputs import Input
    from polytracker.taint_dag import TDTaintOutput
    i = Input(1, "o", 10)
    xs = [TDTaintOutput(i, rng.choice([0, 1, 2, 1 << 40]), rng.randint(1, 3)) for _ in range(8)]
    stat["bytes"] = 8
    for x in xs:
        for y in xs:
            if (x == y) and hash(x) != hash(y):
                yield "equal outputs with different hashes"
            if x < y and not x.offset < y.offset:
                yield "order of outputs"
    if {x.offset for x in set(xs)} != {x.offset for x in xs}:
        yield "set of outputs loses offsets"


# ---- graphs ----------------------------------------------------------------------
class Key:
    """A node compared by value, like the functions and blocks graphs hold."""

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Key) and self.k == o.k

    def __hash__(self):
        return hash(("k", self.k))

    def __lt__(self, o):
        return self.k < o.k

    def __repr__(self):
        return "n%d" % self.k

    __str__ = __repr__


def graph(rng, stat):
    from polytracker.graphs import DAG, DiGraph, non_disjoint_union_all
    n = rng.choice([1, 2, 4, 7, 10])
    mk = rng.choice([int, int, Key, lambda k: 1000 + k, lambda k: "n%d" % k])
    nodes = [mk(i) for i in range(n)]
    shape = rng.choice(["rand", "rand", "dag", "tree", "path", "dense"])
    E = set()
    for a in range(n):
        for b in range(n):
            p = {"rand": 0.2, "dag": 0.3 if a < b else 0, "tree": 0, "path": 0, "dense": 0.5}[shape]
            if rng.random() < p and (a != b or rng.random() < 0.2):
                E.add((a, b))
    if shape == "tree":
        E = {(rng.randrange(b), b) for b in range(1, n)}
    if shape == "path":
        E = {(b - 1, b) for b in range(1, n)}
        if n > 2 and rng.random() < 0.5:
            E.add((n - 1, rng.randrange(n)))
    g = (DAG if shape in ("dag", "tree") and rng.random() < 0.5 else DiGraph)()
    order = list(range(n))
    rng.shuffle(order)
    g.add_nodes_from(nodes[i] for i in order)
    el = list(E)
    rng.shuffle(el)
    g.add_edges_from((nodes[a], nodes[b]) for a, b in el)
    idx = {x: i for i, x in enumerate(nodes)}
    stat["bytes"] = len(E)
    adj = {i: {b for a, b in E if a == i} for i in range(n)}

    def dist_from(s, cut=None):
        d, fr = {s: 0}, [s]
        if s == cut:
            return {}
        while fr:
            nx_ = []
            for x in fr:
                for y in adj[x]:
                    if y not in d and y != cut:
                        d[y] = d[x] + 1
                        nx_.append(y)
            fr = nx_
        return d
    D = [dist_from(i) for i in range(n)]
    roots = [i for i in range(n) if not any(b == i for _, b in E)]
    if sorted(idx[r] for r in g.roots) != roots:
        yield "roots %r of %r, expected %r" % (list(g.roots), sorted(E), roots)
    for a in range(n):
        for b in range(n):
            want = D[a].get(b, math.inf)
            got = g.path_length(nodes[a], nodes[b])
            if got != want:
                yield "distance %d to %d is %r, expected %r in %r" % (a, b, got, want, sorted(E))
    ask = (lambda i: Key(i)) if mk is Key else (lambda i: int(str(1000 + i))) if nodes[0] == 1000 else (lambda i: nodes[i])
    for i in range(n):
        if roots:
            want = min(D[r].get(i, math.inf) for r in roots)
            if g.depth(nodes[i]) != want:
                yield "depth of %d is %r, expected %r in %r" % (i, g.depth(nodes[i]), want, sorted(E))
        anc = [idx[x] for x in g.ancestors(ask(i))]
        want = {a for a in range(n) if a != i and i in D[a]}
        if set(anc) != want or len(anc) != len(want):
            yield "ancestors of %d are %r, expected %r in %r" % (i, anc, sorted(want), sorted(E))
        elif [D[a][i] for a in anc] != sorted(D[a][i] for a in anc):
            yield "ancestors of %d are not ordered by distance: %r in %r" % (i, anc, sorted(E))
        desc = {idx[x] for x in g.descendants(ask(i))}
        want = set(D[i]) - {i}
        if desc != want:
            yield "descendants of %d are %r, expected %r in %r" % (i, sorted(desc), sorted(want), sorted(E))
        preds = {a for a, b in E if b == i}
        if g.has_one_predecessor(nodes[i]) != (len(preds) == 1):
            yield "has_one_predecessor(%d) is %r in %r" % (i, g.has_one_predecessor(nodes[i]), sorted(E))
    dom = set()
    for r in roots:
        reach = set(D[r])
        doms = {x: {d for d in reach if d == x or d == r or x not in dist_from(r, d)} for x in reach}
        for x in reach - {r}:
            strict = doms[x] - {x}
            im = [d for d in strict if all(o in doms[d] for o in strict)]
            dom.add((im[0], x))
    got = {(idx[a], idx[b]) for a, b in g.dominator_forest.edges}
    if got != dom:
        yield "dominator edges %r, expected %r in %r" % (sorted(got), sorted(dom), sorted(E))
    # a picture of the graph has its nodes and edges, roots apart
    dot = str(g.to_dot())
    nn = dot.count("[label=")
    arrows = dot.count("->")
    if nn != n or arrows != len(E) + max(0, len(roots) - 1):
        yield "drawing has %d nodes and %d arrows for %d nodes, %d edges, %d roots" % (nn, arrows, n, len(E), len(roots))
    # union of graphs over shared nodes
    parts = [DiGraph() for _ in range(rng.randint(1, 3))]
    for e in el:
        rng.choice(parts).add_edge(nodes[e[0]], nodes[e[1]])
    got = {(idx[a], idx[b]) for a, b in non_disjoint_union_all(*parts).edges}
    if got != E:
        yield "union of parts has edges %r, expected %r" % (sorted(got), sorted(E))


# ---- cache -------------------------------------------------------------------------
class RefLRU:
    def __init__(self, size):
        self.size, self.o = size, OrderedDict()

    def touch(self, k):
        self.o.move_to_end(k)

    def put(self, k, v):
        self.o[k] = v
        self.o.move_to_end(k)
        while self.size is not None and len(self.o) > self.size:
            self.o.popitem(last=False)


def cache(rng, stat):
    from polytracker.cache import LRUCache
    size = rng.choice([0, 1, 2, 3, 5, 10, None])
    c, r = (LRUCache(max_size=size) if rng.random() < 0.9 or size is not None else LRUCache(None)), RefLRU(size)
    mk = rng.choice([int, lambda k: k + 100000, lambda k: "k%d" % k, lambda k: (k,)])
    hist = []
    nops = rng.choice([20, 100, 300])
    stat["bytes"] = nops
    for step in range(nops):
        k = mk(rng.randrange(rng.choice([3, 8, 14])))
        op = rng.choice(["set", "set", "set", "get", "get", "del", "in", "default", "iter", "partial", "len", "items", "pop", "update", "setdefault", "clear"])
        hist.append((op, k))
        hist = hist[-12:]
        if op == "set":
            c[k] = step
            r.put(k, step)
        elif op == "get":
            try:
                g = c[k]
            except KeyError:
                g = None
            w = r.o.get(k)
            if k in r.o:
                r.touch(k)
            if g != w:
                yield "lookup of %r gives %r, expected %r after %r" % (k, g, w, hist)
        elif op == "default":
            d = rng.choice([None, -1])
            g, w = c.get(k, d), r.o.get(k, d)
            if k in r.o:
                r.touch(k)
            if g != w:
                yield "get(%r, %r) gives %r, expected %r after %r" % (k, d, g, w, hist)
        elif op == "del":
            try:
                del c[k]
                g = True
            except KeyError:
                g = False
            if g != (k in r.o):
                yield "deletion of %r: %r after %r" % (k, g, hist)
            r.o.pop(k, None)
        elif op == "pop":
            g, w = c.pop(k, "none"), r.o.pop(k, "none")
            if g != w:
                yield "pop(%r) gives %r, expected %r after %r" % (k, g, w, hist)
        elif op == "in":
            g, w = k in c, k in r.o
            if w:
                r.touch(k)
            if g != w:
                yield "%r in cache is %r after %r" % (k, g, hist)
        elif op == "iter":
            g, w = list(islice(iter(c), 100)), list(r.o)
            if g != w:
                yield "iteration yields %r, least recently used first is %r after %r" % (g, w, hist)
        elif op == "partial":
            m = rng.randint(1, 4)
            g, w = [], list(r.o)[:m]
            for x in c:
                g.append(x)
                if len(g) == m:
                    break
            for x in w:
                r.touch(x)
            if g != w:
                yield "iteration yields %r, expected %r after %r" % (g, w, hist)
        elif op == "items":
            g = list(islice(c.items(), 100))
            if dict(g) != dict(r.o) or len(g) != len(r.o):
                yield "items %r, expected %r after %r" % (g, list(r.o.items()), hist)
            for x, _ in g:
                r.touch(x)
        elif op == "update":
            ks = [mk(rng.randrange(8)) for _ in range(2)]
            c.update([(x, step) for x in ks])
            for x in ks:
                r.put(x, step)
        elif op == "setdefault":
            g = c.setdefault(k, step)
            w = r.o.get(k, step)
            if k in r.o:
                r.touch(k)
            else:
                r.put(k, step)
            if g != w:
                yield "setdefault(%r) gives %r, expected %r after %r" % (k, g, w, hist)
        elif op == "clear" and rng.random() < 0.1:
            c.clear()
            r.o.clear()
        if len(c) != len(r.o) or (size is not None and len(c) > size):
            yield "holds %d entries, expected %d of at most %r after %r" % (len(c), len(r.o), size, hist)
            return


def ordered(rng, stat):
    from polytracker.cache import OrderedSet, memoize
    items = [rng.randrange(6) for _ in range(rng.randrange(8))]
    s, w = OrderedSet(*items), list(dict.fromkeys(items))
    stat["bytes"] = 30
    for _ in range(30):
        k = rng.randrange(8)
        op = rng.choice(["add", "discard", "remove", "pop"])
        if op == "add":
            s.add(k)
            if k not in w:
                w.append(k)
        elif op == "discard" or (op == "remove" and k in w):
            getattr(s, op)(k)
            if k in w:
                w.remove(k)
        if list(s) != w or len(s) != len(w) or (k in s) != (k in w):
            yield "ordered set is %r, expected %r" % (list(s), w)
            return
    if set(s | OrderedSet(7, 9)) != set(w) | {7, 9} or set(s & OrderedSet(*range(3))) != set(w) & {0, 1, 2}:
        yield "set operations differ"
    calls = []
    f = memoize(lambda: calls.append(1) or rng_value)
    rng_value = rng.choice([None, 0, 5, []])
    if f() != rng_value or f() != rng_value or len(calls) != 1:
        yield "memoized function called %d times" % len(calls)


# ---- properties of an input over a trace of accesses --------------------------------
def props(rng, stat):
    from polytracker.inputs import Input
    from polytracker.tracing import ByteAccessType, ByteOffset, ProgramTrace, TaintAccess, Taints
    n = rng.choice([1, 3, 8, 20])
    src, other = Input(1, "a", n), Input(2, "b", n)
    acc = []
    cur = 0
    for _ in range(rng.choice([0, 3, 20])):
        k = rng.random()
        if k < 0.6:
            offs = [(src, cur % n)]
            cur += 1
        elif k < 0.8:
            cur = rng.randrange(n)
            offs = [(src, (cur + j) % n) for j in range(rng.randint(1, 3))]
        else:
            offs = [(other, rng.randrange(n))]
        acc.append(offs)
    stat["bytes"] = len(acc)

    class A(TaintAccess):
        def __init__(self, i, offs):
            super().__init__(i, None, 1, ByteAccessType.INPUT_ACCESS)
            self.offs = offs

        def taints(self):
            return Taints([ByteOffset(s, o) for s, o in self.offs])

    ns = {m: (lambda self, *a: None) for m in ProgramTrace.__abstractmethods__}
    ns["access_sequence"] = lambda self: iter([A(i, o) for i, o in enumerate(acc)])
    T = type("T", (ProgramTrace,), ns)
    p = T().input_properties(src)
    first, seeks, last = {}, [], None
    for i, offs in enumerate(acc):
        for o in sorted({o for s, o in offs if s is src}):
            first.setdefault(o, i)
            if last is not None and o < last:
                seeks.append((i - 1, last, o))
            last = o
    if sorted(p.unused_byte_offsets) != [o for o in range(n) if o not in first]:
        yield "unused bytes %r of %d, accesses %r" % (p.unused_byte_offsets, n, acc)
    w = [o for o in range(1, n) if o in first and o - 1 in first and first[o - 1] > first[o]]
    if sorted(p.out_of_order_byte_offsets) != w:
        yield "bytes out of order %r, expected %r for %r" % (p.out_of_order_byte_offsets, w, [[o for _, o in x] for x in acc])
    if [tuple(x) for x in p.file_seeks] != seeks:
        yield "seeks %r, expected %r" % (p.file_seeks[:4], seeks[:4])
    if bool(p) != (not (p.unused_byte_offsets or p.out_of_order_byte_offsets or p.file_seeks)):
        yield "truth value of the properties"


def function(rng, stat):
    """What a function used of its inputs."""
    from polytracker.cfg import CFG, FunctionInfo
    top = rng.choice([6, 30, 300, 1 << 40])

    def some():
        d = {}
        for i in range(rng.randint(0, 3)):
            o = [rng.randrange(top) for _ in range(rng.choice([0, 1, 2, 5, 20, 60]))]
            if o and rng.random() < 0.4:
                o += list(range(o[0], o[0] + rng.randint(1, 9)))
            if rng.random() < 0.3:
                o += o[: len(o) // 2]
            rng.shuffle(o)
            d["/nowhere/%s%d" % ("s", i)] = o
        return d
    cmp, inp = some(), some() if rng.random() < 0.7 else None
    plain = {"main": "main", "_Z3fooi": "foo(int)", "_ZN1A1bEv": "A::b()", "dfs$_Z3fooi": "foo(int)", "dfs$main": "main", "x$dfs$y": "x$dfs$y"}
    name = rng.choice(sorted(plain))
    f = FunctionInfo(name, cmp, inp, called_from=["g", "h", "g"])
    inp = cmp if inp is None else inp
    stat["bytes"] = sum(map(len, inp.values())) + sum(map(len, cmp.values()))
    if f.demangled_name != plain[name] or str(f) != plain[name] or f.name != name:
        yield "%s reads as %s" % (name, f.demangled_name)
    if set(f.called_from) != {"g", "h"}:
        yield "called from %r" % (f.called_from,)
    for what, chunks, by in (("input", f.input_chunks, inp), ("cmp", f.cmp_chunks, cmp)):
        got = [(s, tuple(c)) for s, c in chunks()]
        want = [(s, r) for s in by for r in runs_of(set(by[s]))]
        if got != want:
            yield "%s chunks of %r are %r" % (what, by, got)
    if list(f) != list(inp) or list(f.taint_sources) != list(inp) or any(f[s] != inp[s] for s in inp) or dict(f.items()) != inp:
        yield "sources of %r are %r" % (inp, list(f))
    want = {s: max(o) + 1 if o else 0 for s, o in inp.items()}
    if dict(f.taint_source_sizes()) != want:
        yield "sizes of %r are %r" % (inp, f.taint_source_sizes())
    try:
        f.source_size("/nowhere/else")
        yield "a size for a source the function did not use"
    except KeyError:
        pass
    g = CFG()
    fs = [FunctionInfo("f%d" % i, {}) for i in range(rng.randint(1, 6))]
    edges = {(rng.randrange(len(fs)), rng.randrange(len(fs))) for _ in range(rng.randint(0, 10))}
    for x in fs:
        g.add_node(x)
    for a, b in edges:
        g.add_edge(fs[a], FunctionInfo("f%d" % b, {}))
    if {x.name for x in g.nodes} != {x.name for x in fs} or {(a.name, b.name) for a, b in g.edges} != {("f%d" % a, "f%d" % b) for a, b in edges}:
        yield "graph of functions %r" % sorted((a.name, b.name) for a, b in g.edges)


def _one(job):
    kind, seed = job
    out, stat = [], {}
    rng = random.Random("%s-%s" % (kind, seed))
    pyside.guarded("C14", kind, lambda: globals()[kind](rng, stat), out)
    return job, out, stat, hashlib.sha1(repr((kind, rng.random())).encode()).hexdigest()[:12]


COUNTS = {"taints": (15000, 300000), "region": (3000, 30000), "graph": (20000, 400000), "cache": (15000, 200000), "ordered": (1500, 20000), "props": (6000, 60000), "outputs": (500, 2500), "function": (1500, 20000)}


def run(prop, replay=None):
    ck = Check(prop)
    ck.rule = ("A case is one random collection, graph, cache history or access sequence; every public query on it is compared with "
               "its definition computed by brute force. Cases differ when their random draws differ.")
    ck.assumptions = ["graphs are built completely before they are queried (the utilities cache their answers)"]
    import polytracker.taint_dag  # noqa: F401
    jobs = [tuple(replay["job"])] if replay else [(k, "%d-%d" % (ck.seed, i)) for k in KINDS for i in range(ck.n(*COUNTS[k]))]
    for job, V, stat, fp in runner.pmap(_one, jobs):
        ck.evaluations += 1
        ck.distinct.add(fp)
        ck.count(job[0] + "_cases")
        ck.count(job[0] + "_elements", stat.get("bytes", 0))
        if job[1].endswith("-3"):
            ck.sample(dict(job=list(job), elements=stat.get("bytes", 0)))
        for _, text in V[:1]:
            ck.violation("%s/%s: %s" % (job[0], job[1], text), dict(job=list(job)))
        if len(ck.violations) >= 8:
            break
    ck.finish()
