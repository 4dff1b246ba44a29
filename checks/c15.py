"""C15: grammar matching against an independent recognizer; simplification."""
import hashlib
import os
import random
from itertools import product as cart

os.environ["TQDM_DISABLE"] = "1"
import pyside
import runner
from driver import Check

# ---- independent recognizer over {name: [[symbol...]...]}, symbol = str (name) or bytes -------


def ends(g, s):
    """{(name, i): set of j with name =>* s[i:j]}; a production without rules derives the empty string."""
    n = len(s)
    tab = {(x, i): set() for x in g for i in range(n + 1)}
    changed = True
    while changed:
        changed = False
        for x, rules in g.items():
            for i in range(n + 1):
                t = tab[x, i]
                before = len(t)
                for r in rules or [()]:
                    cur = {i}
                    for y in r:
                        nx = set()
                        for k in cur:
                            if isinstance(y, str):
                                nx |= tab[y, k]
                            elif s.startswith(y, k):
                                nx.add(k + len(y))
                        cur = nx
                        if not cur:
                            break
                    t |= cur
                changed |= len(t) != before
    return tab


def accepts(g, start, s):
    return len(s) in ends(g, s)[start, 0]


def derivations(g, start, s, cap=2):
    """Number of derivation trees of s, counted up to cap (grammars without empty rules)."""
    tab = ends(g, s)
    memo = {}
    busy = set()

    class Cyclic(Exception):
        pass

    def sym(x, i, j):
        if j not in tab[x, i]:
            return 0
        k = (x, i, j)
        if k in memo:
            return memo[k]
        if k in busy:
            raise Cyclic()
        busy.add(k)
        c = 0
        for r in {tuple(r) for r in g[x]}:
            c += seq(r, 0, i, j)
        busy.discard(k)
        memo[k] = min(c, cap)
        return memo[k]

    def seq(r, p, i, j):
        if p == len(r):
            return 1 if i == j else 0
        y = r[p]
        if not isinstance(y, str):
            return seq(r, p + 1, i + len(y), j) if s.startswith(y, i) and i + len(y) <= j else 0
        c = 0
        for m in range(i, j + 1):
            rest = seq(r, p + 1, m, j) if m in tab[y, i] else 0
            if rest:
                c += rest * sym(y, i, m)
                if c >= cap:
                    return cap
        return c

    try:
        return sym(start, 0, len(s))
    except Cyclic:
        return cap


def productive(g):
    p = {x for x in g if not g[x]}
    while True:
        new = {x for x in g if x not in p and any(all(not isinstance(y, str) or y in p for y in r) for r in g[x])}
        if not new:
            return p
        p |= new


# ---- generators -------------------------------------------------------------------------------
def merge(seq):
    """Adjacent terminals count as one, as in the grammar classes."""
    out = []
    for y in seq:
        if out and isinstance(y, bytes) and isinstance(out[-1], bytes):
            out[-1] += y
        else:
            out.append(y)
    return tuple(out)


def random_grammar(rng, empty):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    names = ["<%s>" % c for c in ("S", "A", "B", "C", "D", "E")[:n]]
    alpha = rng.choice([[b"a", b"b"], [b"a", b"b", b"ab", b"c", b"aa"], [b"\x00", b"\xff", b"a", "é".encode()], [b"x", b"xy", b"yx", b"y"]])
    pnt = rng.choice([0.3, 0.5, 0.7])
    for _ in range(200):
        g = {}
        for x in names:
            rules = set()
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3]) if x != "<S>" and empty else rng.randint(1, 3)):
                k = rng.choice([0, 1, 1, 2, 2, 3, 4]) if empty else rng.choice([1, 1, 2, 2, 3, 4])
                rules.add(merge(rng.choice(names) if rng.random() < pnt else rng.choice(alpha) for _ in range(k)))
            g[x] = sorted(rules, key=repr)
        if productive(g) == set(g):
            return g, alpha
    return {"<S>": [(b"a",)]}, alpha


def derive(rng, g, limit):
    """A random member of the language, or None."""
    cost = {x: None for x in g}
    for x in g:
        if not g[x]:
            cost[x] = 0
    for _ in range(len(g) + 1):
        for x in g:
            c = [max([0] + [cost[y] for y in r if isinstance(y, str)]) + 1 for r in g[x] if all(not isinstance(y, str) or cost[y] is not None for y in r)]
            if c and (cost[x] is None or min(c) < cost[x]):
                cost[x] = min(c)
    out = []
    todo = ["<S>"]
    steps = 0
    while todo:
        y = todo.pop()
        if isinstance(y, bytes):
            out.append(y)
            if sum(map(len, out)) > limit:
                return None
            continue
        steps += 1
        if steps > 400:
            return None
        if not g[y]:
            continue
        rules = g[y]
        if steps > 12:
            rank = [max([0] + [cost[z] for z in r if isinstance(z, str)]) for r in rules]
            rules = [r for r, k in zip(rules, rank) if k == min(rank)]
        todo.extend(reversed(rng.choice(rules)))
    return b"".join(out)


def strings(rng, g, alpha, count, limit):
    out = {b""}
    for _ in range(count):
        m = derive(rng, g, limit)
        if m is not None:
            out.add(m)
            if m and rng.random() < 0.6:  # near misses
                k = rng.randrange(len(m))
                out.add(rng.choice([m[:k], m[k:], m[:k] + m[k + 1:], m + rng.choice(alpha), rng.choice(alpha) + m, m[::-1]]))
        out.add(b"".join(rng.choice(alpha) for _ in range(rng.randint(0, 5))))
    return sorted(x for x in out if len(x) <= limit)


# ---- the real thing ---------------------------------------------------------------------------
def build(g, rng=None):
    from polytracker.grammars import Grammar, Production, Rule
    from polytracker.parsing import Terminal
    G = Grammar()
    items = list(g.items())
    if rng:
        rng.shuffle(items)
    for x, rules in items:
        rs = list(rules)
        if rng:
            rng.shuffle(rs)
        Production(G, x, *(Rule(G, *(Terminal(y) if isinstance(y, bytes) else y for y in r)) for r in rs))
    G.start = G["<S>"]
    return G


def back(G):
    """The rules of a real grammar, for the independent recognizer."""
    from polytracker.parsing import Terminal
    return {x: [tuple(y.terminal if isinstance(y, Terminal) else y for y in r.sequence) for r in p.rules] for x, p in G.productions.items()}


def matches(G, s, **kw):
    try:
        return bool(G.match(s, **kw))
    except ValueError:  # how an unexpected byte is reported
        return False


def tree_faults(G, tree, s):
    """The tree's leaves spell s and each production node applies a rule of the grammar."""
    from polytracker.grammars import Production, Rule
    from polytracker.parsing import Terminal
    if not isinstance(tree.value, Production) or tree.value.name != G.start.name:
        return "the root is %s" % (tree.value,)
    out = []
    todo = [tree]
    while todo:
        n = todo.pop()
        if isinstance(n.value, Terminal):
            out.append(n.value.terminal)
            continue
        kids = list(n.children)
        if isinstance(n.value, Rule):
            todo.extend(reversed(kids))
            continue
        # the first child may name the rule (or, at the root, the production)
        if kids and not kids[0].children and isinstance(kids[0].value, (Rule, Production)) and (
                isinstance(kids[0].value, Rule) or kids[0].value.name == n.value.name):
            kids = kids[1:]
        if len(kids) == 1 and isinstance(kids[0].value, Rule):
            kids = list(kids[0].children)
        seq = tuple(k.value if isinstance(k.value, Terminal) else k.value.name for k in kids)
        if seq not in {tuple(r.sequence) for r in G[n.value.name].rules}:
            return "%s has children %r, which no rule of it has" % (n.value.name, list(map(str, seq)))
        todo.extend(reversed(kids))
    got = b"".join(out)
    return None if got == s else "the leaves spell %r" % got


def matching(rng, stat):
    g, alpha = random_grammar(rng, rng.random() < 0.7)
    G = build(g, rng)
    for s in strings(rng, g, alpha, 6, 14):
        want = accepts(g, "<S>", s)
        stat["strings"] = stat.get("strings", 0) + 1
        stat["members"] = stat.get("members", 0) + want
        got = matches(G, s)
        if got != want:
            yield "%r is %sin the language of %r, match gives %s" % (s, "" if want else "not ", g, got)
        if rng.random() < 0.2:
            x = rng.choice(sorted(g))
            if g[x] and matches(G, s, start=G[x]) != accepts(g, x, s):
                yield "%r from %s of %r: match gives %s" % (s, x, g, not accepts(g, x, s))
        try:
            t = s.decode()
        except UnicodeDecodeError:
            continue
        if matches(G, t) != want:
            yield "text %r of %r: match gives %s" % (t, g, not want)


def trees(rng, stat):
    g, alpha = random_grammar(rng, False)
    G = build(g, rng)
    for s in strings(rng, g, alpha, 8, 14):
        if not accepts(g, "<S>", s) or derivations(g, "<S>", s) != 1:
            continue
        stat["trees"] = stat.get("trees", 0) + 1
        m = G.match(s)
        if rng.random() < 0.5 and not m:
            yield "%r of %r does not match" % (s, g)
            continue
        t = m.parse_tree
        f = "there is none" if t is None else tree_faults(G, t, s)
        if f:
            yield "parse tree of %r in %r: %s" % (s, g, f)


def simplify(rng, stat):
    g, alpha = random_grammar(rng, rng.random() < 0.7)
    G = build(g, rng)
    G.start.removable = rng.random() < 0.5
    for x in g:
        if rng.random() < 0.1:
            G[x].removable = False
    warm = rng.random() < 0.5
    if warm:
        matches(G, b"a")
    G.simplify()
    h = back(G)
    if any(isinstance(y, str) and y not in h for rs in h.values() for r in rs for y in r):
        yield "simplifying %r leaves a rule that uses a removed production: %r" % (g, h)
        return
    letters = sorted({bytes([c]) for a in alpha for c in a})[:3]
    probe = {b"".join(x) for k in range(4) for x in cart(letters, repeat=k)} | set(strings(rng, g, alpha, 6, 12))
    stat["strings"] = len(probe)
    for s in sorted(probe):
        want = accepts(g, "<S>", s)
        if accepts(h, "<S>", s) != want:
            yield "simplifying %r to %r %s %r" % (g, h, "loses" if want else "adds", s)
            return
    for s in sorted(probe, key=lambda s: (-len(s), s))[:4]:
        if matches(G, s) != accepts(g, "<S>", s):
            yield "after simplifying %r, match of %r gives %s" % (g, s, not accepts(g, "<S>", s))
    G.verify(False)


KINDS = {"matching": (10000, 80000), "trees": (5000, 40000), "simplify": (6000, 50000)}
KNOWN = [("ambiguous-tree", {"<S>": [(), (b"a", "<S>", "<S>")]}, b"aaa")]


def _one(job):
    kind, seed = job
    out, stat = [], {}
    rng = random.Random("%s-%s" % (kind, seed))
    pyside.guarded("C15", kind, lambda: globals()[kind](rng, stat), out, seconds=60)
    return job, out, stat, hashlib.sha1(repr((kind, rng.random())).encode()).hexdigest()[:12]


def _known(key):
    """A listed finding: the tree of an ambiguous grammar with empty rules."""
    _, g, s = [k for k in KNOWN if k[0] == key][0]
    out = []

    def go():
        G = build(g)
        f = tree_faults(G, G.match(s).parse_tree, s)
        if f:
            yield "parse tree of %r in %r: %s" % (s, g, f)
    pyside.guarded("C15", "known", go, out, seconds=20)
    return key, out


def run(prop, replay=None):
    ck = Check(prop)
    ck.rule = ("A case is one random grammar with strings derived from it, near misses and random strings; each answer of the real "
               "matcher, parse tree and simplifier is compared with an independent recognizer. Cases differ when their random draws differ.")
    ck.assumptions = ["every production can derive something; one without rules derives the empty string, as grammar extraction uses it",
                      "trees are judged for strings with a single derivation in grammars without empty rules"]
    import polytracker.grammars  # noqa: F401
    jobs = [tuple(replay["job"])] if replay else [(k, "%d-%d" % (ck.seed, i)) for k, c in KINDS.items() for i in range(ck.n(*c))]
    for job, V, stat, fp in runner.pmap(_one, jobs, mem=4 << 30):
        ck.evaluations += 1
        ck.distinct.add(fp)
        ck.count(job[0] + "_grammars")
        for k, v in stat.items():
            ck.count(job[0] + "_" + k, v)
        if job[1].endswith("-3"):
            ck.sample(dict(job=list(job), seen=stat))
        for _, text in V[:1]:
            ck.violation("%s/%s: %s" % (job[0], job[1], text), dict(job=list(job)))
        if len(ck.violations) >= 8:
            break
    if not replay:
        for key, V in runner.pmap(_known, [k[0] for k in KNOWN], mem=4 << 30):
            for _, text in V[:1]:
                ck.violation(text, dict(known=key), key=key)
    ck.finish()
