"""C22: the command line and the interactive prompt run exactly what they are asked to."""
import builtins
import contextlib
import hashlib
import io
import os
import random
import sys

os.environ["TQDM_DISABLE"] = "1"
import pyside
import runner
from driver import Check


# ---- command line ------------------------------------------------------------------------------
class Spec:
    """One command, subcommand or extension and what the command line says of it."""

    def __init__(self, name):
        self.name = name
        self.options = []     # (flag, dest, type, default)
        self.positional = []  # (dest, type)
        self.subs = []
        self.exts = []
        self.result = None


WORDS = ["ab", "x y", "", "0", "17", "é", "--", "-1", "a=b", "show"]


def value(rng, typ):
    return rng.randint(-3, 40) if typ is int else rng.choice(["ab", "x y", "0", "17", "é", "a=b", "show", "list"])


def options(rng, spec, uid, positional):
    for i in range(rng.randint(0, 2)):
        typ = rng.choice([int, str, bool])
        d = "o%s_%d" % (uid, i)
        spec.options.append(("--" + d.replace("_", "-"), d, typ, False if typ is bool else rng.choice([None, value(rng, typ)])))
    if positional:
        for i in range(rng.randint(0, 2)):
            spec.positional.append(("p%s_%d" % (uid, i), rng.choice([int, str])))


def make(rng, names, depth, uid):
    s = Spec(names.pop() if depth == 0 else rng.choice(["show", "list", "all", "x%s" % uid]) + ("" if rng.random() < 0.5 else "-" + uid.replace("_", "")))
    subs = rng.randint(0, 2) if depth < 2 else 0
    for i in range(subs):
        c = make(rng, names, depth + 1, "%s_%d" % (uid, i))
        if c.name not in [x.name for x in s.subs]:
            s.subs.append(c)
    options(rng, s, uid, not s.subs)
    for i in range(rng.choice([0, 0, 1, 2, 3])):
        e = Spec("ext%s_%d" % (uid, i))
        options(rng, e, "%se%d" % (uid, i), False)
        s.exts.append(e)
    s.result = rng.choice([None, None, 0, 1, 3, 42, "", "text", [], [0], b"", (), {}, {1: 2}, 0.5])
    return s


def define(spec, parent, calls, tag):
    """Defines the classes as a plugin would."""
    from polytracker.plugins import Command, CommandExtension, Subcommand

    def args(s):
        def __init_arguments__(self, parser):
            for flag, d, typ, default in s.options:
                if typ is bool:
                    parser.add_argument(flag, dest=d, action="store_true")
                else:
                    parser.add_argument(flag, dest=d, type=typ, default=default)
            for d, typ in s.positional:
                parser.add_argument(d, type=typ)
        return __init_arguments__

    def run(self, a):
        calls.append((spec, self, self.full_name, vars(a)))
        return spec.result
    body = dict(name=spec.name, help="help of %s" % spec.name, __init_arguments__=args(spec), run=run, __module__=__name__)
    if parent is None:
        cls = type(Command)("T" + tag, (Command,), body)
    else:
        body["parent_type"] = parent
        cls = type(Subcommand)("T" + tag, (Subcommand,), body)
    for i, e in enumerate(spec.exts):
        def erun(self, command, a, e=e):
            calls.append((e, command, self.parent_command, vars(a)))
        type(CommandExtension)("E%s_%d" % (tag, i), (CommandExtension,),
                               dict(name=e.name, parent_type=cls, __init_arguments__=args(e), run=erun, __module__=__name__))
    for i, s in enumerate(spec.subs):
        define(s, cls, calls, "%s_%d" % (tag, i))


def ask(rng, spec):
    """-> (argv, chain of specs, expected values)"""
    argv, chain, want = [spec.name], [spec], {}

    def opts(s):
        for x in [s] + s.exts:
            for flag, d, typ, default in x.options:
                if rng.random() < 0.5:
                    if typ is bool:
                        argv.append(flag)
                        want[d] = True
                    else:
                        v = value(rng, typ)
                        argv.append("%s=%s" % (flag, v))
                        want[d] = v
                else:
                    want[d] = default
    while True:
        s = chain[-1]
        opts(s)
        if s.subs and rng.random() < 0.75:
            chain.append(rng.choice(s.subs))
            argv.append(chain[-1].name)
            continue
        for d, typ in s.positional:
            v = abs(value(rng, int)) if typ is int else value(rng, str)
            argv.append(str(v))
            want[d] = v
        return argv, chain, want


class Terminal(io.StringIO):
    def isatty(self):
        return True


def call_main(argv, kind=io.StringIO):
    from polytracker.__main__ import main
    old = sys.argv
    out, err = kind(), io.StringIO()
    sys.argv = ["polytracker"] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                rc = main()
            except SystemExit as e:
                rc = ("exit", e.code)
    finally:
        sys.argv = old
    return rc, out.getvalue(), err.getvalue()


def cli(rng, stat):
    from polytracker import plugins
    saved = dict(plugins.PLUGINS), dict(plugins.COMMANDS)
    calls = []
    try:
        names = ["cmd", "foo-bar", "zz", "a"]
        rng.shuffle(names)
        # a sub-subcommand's registered name holds its parent's and its own name only
        specs = [make(rng, names, 0, str(i)) for i in range(rng.randint(1, 3))]
        seen, clash = set(), False
        for s in specs:
            for p in s.subs:
                for q in p.subs:
                    clash |= (p.name, q.name) in seen
                    seen.add((p.name, q.name))
        seen |= {(s.name, p.name) for s in specs for p in s.subs}
        if clash:
            stat["ambiguous"] = 1
            return
        for i, s in enumerate(specs):
            define(s, None, calls, "%d" % i)
        for name in plugins.COMMANDS:
            if name not in saved[1] and name not in [s.name for s in specs]:
                yield "command %s appeared by itself" % name
        for s in specs:
            if s.name not in plugins.COMMANDS:
                yield "the command %s is not registered" % s.name
        for _ in range(4):
            argv, chain, want = ask(rng, rng.choice(specs))
            last = chain[-1]
            bad = None
            if rng.random() < 0.15:
                bad = rng.choice(["unknown", "extra", "command"])
                if bad == "unknown":
                    argv = argv + ["--no-such-option"]
                elif bad == "extra":
                    argv = argv + ["surplus"] if not last.subs else argv + ["no-such-subcommand"]
                else:
                    argv = ["no-such-command"] + argv[1:]
            del calls[:]
            rc, out, err = call_main(argv)
            stat["lines"] = stat.get("lines", 0) + 1
            if bad:
                if calls:
                    yield "%r ran %s" % (argv, calls[0][0].name)
                if rc != ("exit", 2):
                    yield "%r is not refused: %r" % (argv, rc)
                continue
            order = [c[0] for c in calls]
            if order != [last] + last.exts:
                yield "%r ran %r, expected %r (%r %s)" % (argv, [x.name for x in order], [x.name for x in [last] + last.exts], rc, err[-200:])
                return
            inst = calls[0][1]
            if calls[0][2] != " ".join(x.name for x in chain):
                yield "the full name of %r is %r" % (argv, calls[0][2])
            for _, c, pc, _ in calls[1:]:
                if c is not inst or pc is not inst:
                    yield "an extension of %r is given another command" % (argv,)
            for s, _, _, got in calls:
                for d, v in want.items():
                    if d not in got or got[d] != v or type(got[d]) is not type(v):
                        yield "%r gives %s %s=%r, expected %r" % (argv, s.name, d, got.get(d, "nothing"), v)
                        return
            r = last.result
            code = 0 if r is None else r if isinstance(r, int) else 0 if r else 1
            if rc != code:
                yield "%r returned %r, the exit status is %r" % (argv, r, rc)
            stat["ran"] = stat.get("ran", 0) + len(calls)
    finally:
        plugins.PLUGINS.clear()
        plugins.PLUGINS.update(saved[0])
        plugins.COMMANDS.clear()
        plugins.COMMANDS.update(saved[1])


# ---- the prompt --------------------------------------------------------------------------------
def expr(rng, vars, d=0):
    k = rng.random()
    if d > 2 or k < 0.3:
        return str(rng.randint(0, 99)) if not vars or rng.random() < 0.5 else rng.choice(vars)
    if k < 0.6:
        return "%s %s %s" % (expr(rng, vars, d + 1), rng.choice(["+", "*", "-"]), expr(rng, vars, d + 1))
    if k < 0.7:
        return "(%s)" % expr(rng, vars, d + 1)
    if k < 0.8:
        return "len([%s, %s])" % (expr(rng, vars, d + 1), expr(rng, vars, d + 1))
    if k < 0.9:
        return "(lambda q: q + 1)(%s)" % expr(rng, vars, d + 1)
    return "sum(i for i in range(%d))" % rng.randint(0, 9)


def block(rng, vars, d):
    """Lines of an indented body."""
    pad = "    " * d
    out = []
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        if k < 0.6 or d > 2:
            v = rng.choice(vars + ["w"])
            out.append(pad + "%s = %s" % (v, expr(rng, vars)))
        elif k < 0.8:
            out.append(pad + "print(%s)" % expr(rng, vars))
        else:
            out += [pad + "for j%d in range(%d):" % (d, rng.randint(0, 3))] + block(rng, vars, d + 1)
    return out


def statement(rng, vars, fns):
    """-> (lines as typed, source, kind)"""
    k = rng.randrange(26)
    v = rng.choice("abcdef")
    e = expr(rng, vars)
    if k < 4:
        t = rng.choice(["%s = %s", "%s: int = %s", "%s = y9 = %s", "%s, z9 = 1, %s", "%s = %s  # note", "%s = %s;"]) % (v, e)
        if v not in vars:
            vars.append(v)
        return [t], t
    if k < 7:
        t = rng.choice(["%s", "%s ", "%s # note", "(%s)", "str(%s)", "[%s] * 2", "%s;"]) % e
        return [t], t
    if k == 7 and vars:
        t = "%s %s= %s" % (rng.choice(vars), rng.choice("+-*"), e)
        return [t], t
    if k == 8:
        t = rng.choice(["import json", "from os import path as pp", "import string, math", "pass", "assert True", "assert 1 == 2, 'no'",
                        "raise ValueError('x')", "1 / 0", "undefined_name", "None", "''", "[]", "print('p', end='!')", "global g9", "a9 = b9 = 5",
                        "(w9 := 4)", "[w8 for w8 in range(3)]", "x9 = [y for y in range(2)]", "dict(k=1)", "{'a': 1}['a']", "f'{1}'", "'=' * 3", "'a = 1'"])
        return [t], t
    if k == 9:
        t = rng.choice(["1 +* 2", "x ==== 3", ")", "for", "   1", "a b", "def", "print(", "'abc"][:7] + ["'abc", "return 3", "1 = 2", "if x y:"])
        return [t], t
    if k == 10 and vars:
        t = "del " + vars.pop(rng.randrange(len(vars)))
        return [t], t
    if k == 11:
        lines = rng.choice([["%s = (" % v, e, ")"], ["%s = [" % v, "  1,", e + "]"], ["%s = '''l1" % v, "", " l3'''"], ["%s = 1 + \\" % v, e], ["%s = {" % v, "'k': " + e, "}"]])
        if v not in vars and lines[0].endswith(("(", "\\")):
            vars.append(v)
        return lines, "\n".join(lines)
    if k == 12:
        lines = rng.choice([["(", e, ")"], ["sum([", "", "1, 2", "])"], ["'''a", "b'''"], ["print(1,", "2)"]])
        return lines, "\n".join(lines)
    if k in (13, 14):
        lines = ["for i9 in range(%d):" % rng.randint(0, 3)] + block(rng, vars or ["w"], 1) + [""]
        if not vars:
            vars.append("w")
            lines[0:0] = []
            return ["w = 1"], "w = 1"
        return lines, "\n".join(lines)
    if k == 15 and vars:
        lines = ["if %s > 20:" % rng.choice(vars)] + block(rng, vars, 1)
        if rng.random() < 0.5:
            lines += ["elif %s > 3:" % rng.choice(vars)] + block(rng, vars, 1)
        if rng.random() < 0.7:
            lines += ["else:"] + block(rng, vars, 1)
        return lines + [""], "\n".join(lines)
    if k == 16:
        f = "fn%d" % rng.randint(0, 2)
        lines = ["def %s(n):" % f] + (["    '''doc'''"] if rng.random() < 0.3 else []) + ["    t = n"] + ["    t = t * %d" % i for i in range(rng.randint(0, 3))] + ["    return t"]
        if rng.random() < 0.3:
            lines[0:0] = ["@staticmethod"] if rng.random() < 0.3 else ["@(lambda f: f)"]
        fns.add(f)
        return lines + [""], "\n".join(lines)
    if k == 17 and fns:
        t = "%s(%s)" % (rng.choice(sorted(fns)), e)
        return [t], t
    if k == 18:
        lines = ["try:"] + block(rng, vars or ["w"], 1) + rng.choice([[], ["    1 / 0"]]) + ["except %s:" % rng.choice(["Exception", "KeyError", "ZeroDivisionError as ee"])] + ["    t7 = 1"]
        if rng.random() < 0.4:
            lines += ["finally:", "    t8 = 2"]
        return lines + [""], "\n".join(lines)
    if k == 19:
        lines = ["class K%d:" % rng.randint(0, 1), "    u = 3", "    def m(self):", "        return self.u"]
        return lines + [""], "\n".join(lines)
    if k == 20:
        t = rng.choice(["for i8 in range(3): s8 = i8", "if 1: s7 = 1", "def g(x): return x", "class Z: pass", "while False: pass", "with __import__('io').StringIO() as fh: n7 = 1"])
        return [t, ""], t
    if k == 21:
        return [""], ""
    if k == 22:
        lines = ["x5 = 0", "while x5 < 3:", "    x5 += 1", "    print(x5)"]
        return None if False else (lines[:1], lines[0]) if rng.random() < 0.5 else (["while False:", "    pass", "else:", "    x5 = 9", ""], "while False:\n    pass\nelse:\n    x5 = 9")
    t = "%s = %s" % (v, e)
    if v not in vars:
        vars.append(v)
    return [t], t


def visible(ns, hidden):
    out = {}
    for k, v in ns.items():
        if k in hidden or k.startswith("__"):
            continue
        t = type(v).__name__
        out[k] = (t, repr(v) if t in ("int", "str", "float", "list", "dict", "tuple", "bool", "NoneType") else "")
    return out


def prompt(rng, stat):
    from prompt_toolkit.application import create_app_session
    from prompt_toolkit.input import create_pipe_input
    from prompt_toolkit.output.plain_text import PlainTextOutput
    from polytracker import repl as R
    saved = dict(R.PolyTrackerREPL.commands), dict(R.PolyTrackerREPL.registered_globals)
    effects = []

    def free():
        """a command without arguments"""
        effects.append("free")

    def needs(x):
        """a command with an argument < 5 & more"""
        effects.append(("needs", x))
        return x * 2

    def costly(x=3):
        """an expensive command"""
        effects.append(("costly", x))
        return x + 1
    R.PolyTrackerREPL.register("free", discardable=True)(free)
    R.PolyTrackerREPL.register("needs", discardable=True)(needs)
    R.PolyTrackerREPL.register("costly")(costly)
    try:
        vars, fns = [], set()
        typed, want, answers = [], io.StringIO(), []
        ref = {"free": free, "needs": needs, "costly": costly}
        done, helped = [], []
        for _ in range(rng.choice([4, 10, 25])):
            k = rng.random()
            if k < 0.12:
                c = rng.choice(["commands", "len", "chr", "dict", "min", "free", "needs", "needs(4)", "costly(5)", "r6 = costly(6)", "costly (7)", "r7 = needs(1)", "r5: int = costly(2)", "free()"])
                typed.append(c)
                if c == "free":
                    done.append("free")
                elif c == "commands":
                    helped += [free.__doc__, needs.__doc__]
                elif c in ("needs", "len", "chr"):
                    helped.append(ref.get(c, getattr(builtins, c, None)).__doc__)
                elif c in ("dict", "min"):  # has no signature to show
                    want.write("%r\n" % (eval(c),))
                elif c == "free()":
                    done.append("free")
                    want.write("None\n")
                elif c == "needs(4)":
                    done.append(("needs", 4))
                    want.write("8\n")
                elif c in ("costly(5)", "costly (7)"):
                    a = rng.choice(["y", "n", "", "yes", "no", " Y ", "maybe\ny", "?\nn"])
                    answers.append(a)
                    if a.split("\n")[-1].strip().lower() in ("y", "yes"):
                        x = 5 if "5" in c else 7
                        done.append(("costly", x))
                        want.write("%d\n" % (x + 1))
                elif c == "r6 = costly(6)":
                    done.append(("costly", 6))
                    ref["r6"] = 7
                elif c == "r7 = needs(1)":
                    done.append(("needs", 1))
                    ref["r7"] = 2
                elif c == "r5: int = costly(2)":
                    done.append(("costly", 2))
                    ref["r5"] = 3
                stat["commands"] = stat.get("commands", 0) + 1
                continue
            lines, src = statement(rng, vars, fns)
            typed += lines
            stat["statements"] = stat.get("statements", 0) + 1
            with contextlib.redirect_stdout(want):
                try:
                    try:
                        code = compile(src.rstrip().rstrip(";") if not src.startswith(" ") else src, "<x>", "eval") if src.strip() else None
                    except SyntaxError:
                        code = None
                    if code is not None and not src.lstrip().startswith("#"):
                        r = eval(code, ref)
                        print(r)
                    else:
                        exec(compile(src, "<x>", "exec"), ref)
                except NameError as e:
                    print(e)
                except Exception:
                    stat["errors"] = stat.get("errors", 0) + 1
        end = rng.choice(["eof", "eof", "exit", "raise"])
        if end == "exit":
            typed += ["exit()", "never = 1"]
        elif end == "raise":
            typed += ["raise SystemExit(3)", "never = 1"]
        left = []
        out = io.StringIO()
        old = sys.stdin
        shown = io.StringIO()
        with create_pipe_input() as inp:
            with create_app_session(input=inp, output=PlainTextOutput(shown)):
                inp.send_text("".join(x + "\r" for x in typed) + "\x04" * 8)
                r = R.PolyTrackerREPL()
                hidden = set(r.state)
                r.run_on_exit(lambda: left.append(R.PolyTrackerREPL._current_instance is r))
                sys.stdin = io.StringIO("".join(a + "\n" for a in answers))
                try:
                    with contextlib.redirect_stdout(out):
                        rc = r.run()
                finally:
                    sys.stdin = old
        text = "\n".join(typed)
        stat["sessions"] = 1
        if effects != done:
            yield "typing %r ran the commands %r, expected %r" % (text, effects, done)
        got, exp = visible(r.state, hidden), visible(ref, {"free", "needs", "costly"})
        if got != exp:
            ks = sorted(k for k in set(got) | set(exp) if got.get(k) != exp.get(k))
            yield "after typing %r, %s is %r, in Python %r" % (text, ks[0], got.get(ks[0]), exp.get(ks[0]))
        # what input("") echoes depends on the terminal: nothing here
        if out.getvalue() != want.getvalue():
            yield "typing %r prints %r, expected %r" % (text, out.getvalue(), want.getvalue())
        for t in set(helped):
            if " ".join(shown.getvalue().split()).count(" ".join(t.split())) < helped.count(t):
                yield "typing %r shows %r fewer than %d times" % (text, t, helped.count(t))
        stat["helped"] = len(helped)
        if left != [True]:
            yield "functions to run at the end of the session ran %r" % left
        if R.PolyTrackerREPL._current_instance is not None or rc != 0:
            yield "the session did not end properly (%r)" % rc
    finally:
        for d, s in zip((R.PolyTrackerREPL.commands, R.PolyTrackerREPL.registered_globals), saved):
            d.clear()
            d.update(s)


KINDS = {"cli": (500, 6000), "prompt": (300, 3000)}


def _one(job):
    kind, seed = job
    out, stat = [], {}
    rng = random.Random("%s-%s" % (kind, seed))
    pyside.guarded("C22", kind, lambda: globals()[kind](rng, stat), out, seconds=120)
    return job, out, stat, hashlib.sha1(repr((kind, rng.random())).encode()).hexdigest()[:12]


def installed():
    """Makes the package known to importlib: it is not installed here, and some commands ask for its version."""
    d = os.path.join(runner.scratch(), "polytracker-0.dist-info")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "METADATA"), "w") as f:
        f.write("Metadata-Version: 2.1\nName: polytracker\nVersion: 0\n")
    sys.path.append(runner.scratch())


def run(prop, replay=None):
    ck = Check(prop)
    ck.rule = ("A case is a random family of commands, subcommands and extensions with command lines for them, or a random session typed at the "
               "prompt next to the same program run by Python. Cases differ when their random draws differ.")
    ck.assumptions = ["command lines use options before positionals and values argparse does not take for options",
                      "registered names of subcommands do not clash (they are told apart by parent and own name)"]
    installed()
    import polytracker.repl  # noqa: F401
    jobs = [tuple(replay["job"])] if replay else [(k, "%d-%d" % (ck.seed, i)) for k, c in KINDS.items() for i in range(ck.n(*c))]
    for job, V, stat, fp in runner.pmap(_one, jobs, mem=4 << 30):
        ck.evaluations += 1
        ck.distinct.add(fp)
        ck.count(job[0] + "_cases")
        for k, v in stat.items():
            ck.count(k, v)
        if job[1].endswith("-3"):
            ck.sample(dict(job=list(job), seen=stat))
        for _, text in V[:1]:
            ck.violation("%s/%s: %s" % (job[0], job[1], text), dict(job=list(job)))
        if len(ck.violations) >= 8:
            break
    ck.finish()
