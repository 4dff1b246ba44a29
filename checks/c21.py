"""C21: the Datalog program written for a trace, run by an evaluator of its own."""
import contextlib
import hashlib
import io
import os
import random
import re

os.environ["TQDM_DISABLE"] = "1"
import c15
import c16
import pyside
import runner
from driver import Check

ATOM = re.compile(r"\s*([A-Za-z_?][A-Za-z0-9_?]*)\(([^()]*)\)\s*")
TERM = re.compile(r"(?:[A-Za-z_?][A-Za-z0-9_?]*|-?\d+)\Z")


# ---- a Datalog evaluator (positive programs, numbers and variables) ----------------------------
class Program:
    def __init__(self, text):
        self.arity, self.outputs, self.rules, self.facts, self.faults = {}, set(), [], {}, []
        for line in text.split("\n"):
            line = line.strip()
            if not line:
                continue
            m = re.match(r"\.decl\s+([A-Za-z_?][A-Za-z0-9_?]*)\s*\(([^()]*)\)\s*\Z", line)
            if m:
                if m.group(1) in self.arity:
                    self.faults.append("%s is declared twice" % m.group(1))
                cols = [c.strip() for c in m.group(2).split(",")]
                if not all(re.match(r"[A-Za-z_]\w*\s*:\s*number\Z", c) for c in cols):
                    self.faults.append("unreadable declaration %r" % line)
                self.arity[m.group(1)] = len(cols)
                continue
            m = re.match(r"\.output\s+([A-Za-z_?][A-Za-z0-9_?]*)\s*\Z", line)
            if m:
                self.outputs.add(m.group(1))
                continue
            if not line.endswith("."):
                self.faults.append("clause without end: %r" % line)
                continue
            head, _, body = line[:-1].partition(":-")
            h, b = self.atoms(head, line), self.atoms(body, line) if body else []
            if h is None or b is None or len(h) != 1 or (_ and not b):
                continue
            if not b:
                if any(not re.match(r"-?\d+\Z", x) for x in h[0][1]):
                    self.faults.append("a fact with variables: %r" % line)
                    continue
                self.facts.setdefault(h[0][0], set()).add(tuple(map(int, h[0][1])))
            else:
                free = {x for _, a in b for x in a}
                if any(x not in free for x in h[0][1]):
                    self.faults.append("ungrounded variable in %r" % line)
                self.rules.append((h[0], b))

    def atoms(self, text, line):
        out, pos = [], 0
        while True:
            m = ATOM.match(text, pos)
            if not m:
                self.faults.append("unreadable clause %r" % line[:300])
                return None
            args = [a.strip() for a in m.group(2).split(",")]
            if not all(TERM.match(a) for a in args):
                self.faults.append("%r is no variable or number in %r" % ([a for a in args if not TERM.match(a)][0], line[:300]))
                return None
            out.append((m.group(1), args))
            pos = m.end()
            if pos == len(text):
                return out
            if text[pos] != ",":
                self.faults.append("unreadable clause %r" % line[:300])
                return None
            pos += 1

    def check(self):
        for name, args in [x for h, b in self.rules for x in [h] + b]:
            if name not in self.arity:
                self.faults.append("relation %s is not declared" % name)
            elif self.arity[name] != len(args):
                self.faults.append("relation %s is used with %d columns" % (name, len(args)))
        for name, rows in self.facts.items():
            if name not in self.arity or any(len(r) != self.arity[name] for r in rows):
                self.faults.append("facts of %s do not fit its declaration" % name)
        for name in self.outputs - set(self.arity):
            self.faults.append("output %s is not declared" % name)

    def run(self):
        """-> {relation: set of tuples}, the least model."""
        rel = {k: set(v) for k, v in self.facts.items()}
        users = {}
        for i, (_, b) in enumerate(self.rules):
            for name, _ in b:
                users.setdefault(name, set()).add(i)
        todo = set(range(len(self.rules)))
        while todo:
            i = todo.pop()
            (hn, ha), body = self.rules[i]
            envs = [{}]
            for name, args in body:
                rows = rel.get(name, ())
                # index by the first column: bodies are chains
                idx = {}
                for r in rows:
                    idx.setdefault(r[0], []).append(r)
                nxt, seen = [], set()
                for e in envs:
                    a0 = args[0]
                    v = int(a0) if re.match(r"-?\d", a0) else e.get(a0)
                    for r in idx.get(v, ()) if v is not None else rows:
                        e2 = dict(e)
                        for a, x in zip(args, r):
                            w = int(a) if re.match(r"-?\d", a) else e2.setdefault(a, x)
                            if w != x:
                                break
                        else:
                            k = tuple(sorted(e2.items()))
                            if k not in seen:
                                seen.add(k)
                                nxt.append(e2)
                envs = nxt
                if not envs:
                    break
            new = {tuple(int(a) if re.match(r"-?\d", a) else e[a] for a in ha) for e in envs} - rel.get(hn, set())
            if new:
                rel.setdefault(hn, set()).update(new)
                todo |= users.get(hn, set())
        return rel


# ---- monitors ----------------------------------------------------------------------------------
def facts_of(s, alphabet):
    from polytracker import datalog as D
    lines = [D.DatalogTrueFactDecl().val]
    lines += [D.DatalogTrueFact(i).val + "." for i in range(len(s) + 1)]
    lines += [D.DatalogFactDecl(str(b)).val for b in sorted(alphabet | set(s))]
    lines += [D.DatalogFact(str(b), i, i + 1).val for i, b in enumerate(s)]
    return "\n".join(lines)


def check(t, rng, stat):
    from polytracker.datalog import DatalogGrammar, get_valid_datalog_name
    from polytracker.grammars import Terminal, trace_to_grammar
    with contextlib.redirect_stdout(io.StringIO()):
        G = trace_to_grammar(t)
        text = DatalogGrammar(t).val
    g = {n: [tuple(y.terminal if isinstance(y, Terminal) else y for y in r.sequence) for r in p.rules] for n, p in G.productions.items()}
    used = {y for rs in g.values() for r in rs for y in r if isinstance(y, str)}
    if used - set(g):
        stat["dangling"] = 1  # a call the trace cut off: no production to derive it
        return
    alphabet = {b for rs in g.values() for r in rs for y in r if isinstance(y, bytes) for b in y}
    names = {}
    for n in g:
        names.setdefault(get_valid_datalog_name(n), []).append(n)
    words = [t.data[:t.pos]]
    for _ in range(rng.choice([1, 2])):
        w = list(words[0])
        for _ in range(rng.randint(1, 3)):
            k = rng.random()
            i = rng.randint(0, len(w)) if w else 0
            if k < 0.4 and w:
                del w[min(i, len(w) - 1)]
            elif k < 0.7:
                w.insert(i, rng.choice(c16.ALPHA))
            else:
                w[i:i] = w[:rng.randint(0, len(w))]
        words.append(bytes(w))
    for s in words:
        if len(s) > 60 or len(g) > 120:
            continue
        P = Program(facts_of(s, alphabet) + "\n\n" + text)
        P.check()
        if P.faults:
            yield "the program for a trace of %r is not valid: %s" % (t.data, P.faults[0])
            return
        if G.start is not None and get_valid_datalog_name(G.start.name) not in P.outputs:
            yield "the start relation is not output"
        rel = P.run()
        tab = c15.ends(g, s)
        stat["programs"] = stat.get("programs", 0) + 1
        stat["relations"] = stat.get("relations", 0) + len(g)
        stat["derived"] = stat.get("derived", 0) + sum(map(len, rel.values()))
        for n in g:
            got = rel.get(get_valid_datalog_name(n), set())
            want = {(i, j) for i in range(len(s) + 1) for j in tab[n, i]}
            if got != want:
                yield "on %r the relation of %s holds of %s but not of %s, as the production would" % (
                    s, n, sorted(got - want)[:4], sorted(want - got)[:4])
                return
        if (0, len(s)) in rel.get(get_valid_datalog_name(G.start.name), ()):
            stat["accepted"] = stat.get("accepted", 0) + 1
        else:
            stat["rejected"] = stat.get("rejected", 0) + 1


def long_tokens(rng):
    """Blocks that use many bytes, or many separate runs of bytes, at once."""
    import tracestub
    n = rng.choice([20, 24, 25, 26, 27, 30, 40, 56])
    t = tracestub.Trace(bytes(rng.choice(c16.ALPHA) for _ in range(n)))
    t.call("main")
    while t.pos < n:
        if rng.random() < 0.3:
            t.call("f%d" % rng.randint(0, 2))
            t.read(rng.randint(1, 4))
            t.ret()
        else:
            t.bb("b%d" % rng.randint(0, 3))
            t.read(rng.choice([1, 5, 24, 25, 26, 27, 40]))
    t.ret()
    return t


def names(rng):
    """Functions whose names differ only in characters Datalog does not allow."""
    import tracestub
    pool = rng.sample(["op<", "op>", "op_60", "op_", "op", "op ", "op-", "A::b", "A__b", "A_b", "~A", "_A", "f(int)", "f(int*)", "f_int_", "95", "_95", "x.y", "x-y",
                       "operator+", "operator++", "$x", "x$", "POLYTRACKER_TRUE_FACT", "97"], 4)
    stem = rng.choice(["op", "A::", ""])
    pool += [stem + c for c in rng.sample("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~", 12)]
    t = tracestub.Trace(bytes(rng.choice(c16.ALPHA) for _ in range(rng.randint(4, 14))))
    t.call("main")
    for f in pool:
        t.call(f)
        t.read(rng.randint(0, 2))
        if rng.random() < 0.3:
            t.call(rng.choice(pool))
            t.read(1)
            t.ret()
        t.ret()
    t.ret()
    return t


KINDS = {"descent": (1500, 20000), "long": (200, 3000), "names": (400, 5000), "parser": (300, 4000)}


def _one(job):
    kind, seed = job
    out, stat = [], {}
    rng = random.Random("%s-%s" % (kind, seed))

    def go():
        t = {"descent": lambda: c16.descent(rng, 0, n=rng.choice([1, 2, 5, 12, 20])), "long": lambda: long_tokens(rng),
             "names": lambda: names(rng), "parser": lambda: c16.json(rng)}[kind]()
        return check(t, rng, stat)
    pyside.guarded("C21", kind, go, out, seconds=120)
    return job, out, stat, hashlib.sha1(repr((kind, rng.random())).encode()).hexdigest()[:12]


def run(prop, replay=None):
    ck = Check(prop)
    ck.rule = ("A case is the Datalog program written for one recorded run of a generated parser, evaluated on the run's input and on edited "
               "inputs; every relation is compared with the spans its production derives. Cases differ when their random draws differ.")
    ck.assumptions = ["the programs are run by an evaluator of ours (least model of positive Datalog), as souffle is not installed",
                      "traces come from a recorder behind polytracker's trace interface; the true relation holds at every position, the end included"]
    import polytracker.datalog  # noqa: F401
    jobs = [tuple(replay["job"])] if replay else [(k, "%d-%d" % (ck.seed, i)) for k, c in KINDS.items() for i in range(ck.n(*c))]
    for job, V, stat, fp in runner.pmap(_one, jobs, mem=4 << 30):
        ck.evaluations += 1
        ck.distinct.add(fp)
        ck.count(job[0] + "_traces")
        for k, v in stat.items():
            ck.count(k, v)
        if job[1].endswith("-3"):
            ck.sample(dict(job=list(job), seen=stat))
        for _, text in V[:1]:
            ck.violation("%s/%s: %s" % (job[0], job[1], text), dict(job=list(job)))
        if len(ck.violations) >= 8:
            break
    ck.finish()
