"""C23: what the build and instrumentation commands make of which files, with stand-ins for the
compilers that write down where each of their outputs comes from."""
import contextlib
import hashlib
import io
import json
import os
import random
import shutil
import sys

os.environ["TQDM_DISABLE"] = "1"
import pyside
import runner
from driver import Check

TOOL = '''#!%s -ISE
import json, os, sys
me, top = os.path.basename(sys.argv[0]), %r
args = sys.argv[1:]
with open(top + "/calls", "a") as f:
    f.write(json.dumps([me, args, os.getcwd(), {k: v for k, v in os.environ.items() if k.startswith("BLIGHT")}]) + "\\n")
    n = f.tell()
fail = os.path.join(top, "fail")
if os.path.exists(fail):
    k = int(open(fail).read())
    if sum(1 for _ in open(top + "/calls")) == k:
        sys.exit(3)
if me == "blight-exec":
    sys.exit(0)
out, rest, ins = None, [], []
i = 0
while i < len(args):
    a = args[i]
    if a == "-o":
        out = args[i + 1]
        i += 1
    elif a in ("-load", "-load-pass-plugin"):
        rest.append([a, args[i + 1]])
        i += 1
    elif a.startswith("-"):
        rest.append(a)
    elif me in ("opt", "get-bc") or a.endswith(".bc"):
        ins.append(a)
    else:
        rest.append(a)
    i += 1
made = [me, rest, []]
for p in ins:
    t = open(p).read()
    made[2].append(json.loads(t) if t.startswith("[") else t)
if out is None:
    sys.exit(4)
with open(out, "w") as f:
    f.write(json.dumps(made))
'''


class World:
    """A scratch build tree with a journal, the compiler directories and the stand-in tools."""

    def __init__(self, rng):
        self.d = d = os.path.join(runner.scratch(), "b%d" % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        sub = rng.choice(["", " x", "-é"])
        self.work = d + "/work" + sub
        for p in ("bin", "comp" + sub + "/lib", "comp" + sub + "/pass", "comp" + sub + "/abi_lists", "cxx", "store", "tree/out", "tree/lib"):
            os.makedirs(os.path.join(d, p))
        os.makedirs(self.work)
        self.comp = d + "/comp" + sub
        for p in ("/lib/libPolytracker.a", "/pass/libPolytrackerPass.so", "/abi_lists/polytracker_abilist.txt", "/abi_lists/dfsan_abilist.txt"):
            open(self.comp + p, "w").close()
        self.lists = ["fontconfig", "libz", "ssl"]
        for p in self.lists:
            open(self.comp + "/abi_lists/" + p, "w").close()
        self.dfsan = d + "/libdfsan.a"
        open(self.dfsan, "w").close()
        src = TOOL % (sys.executable, d)
        for t in ("opt", "get-bc", "blight-exec", "gclang", "gclang++", "cc1"):
            with open(d + "/bin/" + t, "w") as f:
                f.write(src)
            os.chmod(d + "/bin/" + t, 0o755)
        self.env = {"PATH": d + "/bin", "COMPILER_DIR": self.comp, "CXX_LIB_PATH": d + "/cxx", "DFSAN_LIB_PATH": self.dfsan, "WLLVM_ARTIFACT_STORE": d + "/store"}
        # a journal of compile and link commands
        self.cmds, self.targets = [], {}
        names = ["prog", "a-b", "lib_x", "zz top", "P2", "prog2"]
        rng.shuffle(names)
        for n in names[: rng.randint(1, 4)]:
            self.link(rng, n)
        rng.shuffle(self.cmds)
        self.journal = self.work + "/blight_journal.jsonl" if rng.random() < 0.5 else d + "/j.jsonl"
        with open(self.journal, "w") as f:
            for c in self.cmds:
                f.write(json.dumps(c) + "\n")

    def link(self, rng, name):
        tool = self.d + "/bin/" + rng.choice(["gclang", "gclang++", "cc1"])
        args, inputs, keep, libs = [], [], [], []
        for i in range(rng.randint(0, 3)):  # objects come from commands of their own
            o = "%s%d.o" % (name, i)
            self.cmds.append(dict(Record=dict(wrapped_tool=tool, args=["-c", "%s%d.c" % (name, i), "-o", o]),
                                  FindInputs=dict(inputs=[dict(kind="source", prenormalized_path="%s%d.c" % (name, i), path=self.d + "/tree/%s%d.c" % (name, i))]),
                                  FindOutputs=dict(outputs=[dict(kind="object", prenormalized_path=o, path=self.d + "/tree/" + o)])))
            inputs.append((o, "object", self.d + "/tree/" + o))
        for i in range(rng.randint(0, 3)):
            k = rng.choice(["static", "shared"])
            p = "lib/l%s%d.%s" % (name, i, "a" if k == "static" else "so")
            inputs.append((p, k, self.d + "/tree/" + p))
        order = inputs + [(f, None, None) for f in rng.sample(["-O2", "-g", "-lz", "-L.", "-Wl,-z,now", "-pthread", "-DX=1", "-lm", "-std=c++17"], rng.randint(0, 5))]
        rng.shuffle(order)
        for p, k, full in order:
            args.append(p)
            if k is None:
                keep.append(p)
            elif k != "object":
                pass
        libs = [full for p, k, full in inputs if k in ("static", "shared")]
        out = rng.choice(["", "out/"]) + name
        at = rng.randint(0, len(args))
        args[at:at] = ["-o", out]
        path = self.d + "/tree/" + out
        if name in self.targets:
            return
        with open(path, "w") as f:
            f.write("binary of " + name)
        self.cmds.append(dict(Record=dict(wrapped_tool=tool, args=args),
                              FindInputs=dict(inputs=[dict(prenormalized_path=p, kind=k, path=full) for p, k, full in inputs]),
                              FindOutputs=dict(outputs=[dict(kind="executable", prenormalized_path=out, path=path)])))
        self.targets[name] = dict(tool=tool, keep=keep, libs=libs, path=path, args=args)

    def calls(self):
        try:
            with open(self.d + "/calls") as f:
                return [json.loads(x) for x in f]
        except FileNotFoundError:
            return []

    def reset(self):
        for f in ("calls", "fail"):
            with contextlib.suppress(FileNotFoundError):
                os.unlink(self.d + "/" + f)

    def main(self, argv, env=None):
        """-> exit status, or the exception that ended the program"""
        from polytracker.__main__ import main
        old, cwd, olde = sys.argv, os.getcwd(), dict(os.environ)
        sys.argv = ["polytracker"] + argv
        os.chdir(self.work)
        os.environ.update(self.env)
        for k, v in (env or {}).items():
            os.environ.pop(k) if v is None else os.environ.__setitem__(k, v)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                try:
                    return main()
                except (SystemExit, Exception) as e:
                    return e
        finally:
            sys.argv = old
            os.chdir(cwd)
            for k in set(os.environ) - set(olde):
                del os.environ[k]
            os.environ.update(olde)

    def load(self, p):
        try:
            with open(os.path.join(self.work, p)) as f:
                t = f.read()
            return json.loads(t) if t.startswith("[") else t
        except FileNotFoundError:
            return None


def expect_opts(w, passes, taint, ftrace, lists):
    out = {("-load", w.comp + "/pass/libPolytrackerPass.so"), ("-load-pass-plugin", w.comp + "/pass/libPolytrackerPass.so"), "-passes=" + ",".join(passes)}
    abi = w.comp + "/abi_lists/"
    if taint:
        out |= {"-pt-taint-ignore-list=" + abi + x for x in ["polytracker_abilist.txt"] + lists}
        out |= {"-pt-dfsan-abilist=" + abi + x for x in ["dfsan_abilist.txt"] + lists}
    if ftrace:
        out |= {"-pt-ftrace-ignore-list=" + abi + x for x in ["polytracker_abilist.txt"] + lists}
    return out


def pipeline(taint, ftrace):
    return (["pt-taint"] if taint else []) + (["pt-ftrace"] if ftrace else []) + (["pt-dfsan", "pt-rm-fn-attr"] if taint else [])


def flat(opts):
    return {tuple(x) if isinstance(x, list) else x for x in opts}


def subsequence(small, big):
    it = iter(big)
    return all(x in it for x in small)


def stage_faults(w, made, want, who):
    """Compares the history of a file with the one wanted: a list of stages, last first."""
    at = made
    for stage in want:
        if not isinstance(at, list) or len(at) != 3:
            yield "%s: made from %r where %s was due" % (who, at, stage[0])
            return
        tool, opts, ins = at
        if tool != stage[1]:
            yield "%s: %s by %s, expected %s" % (who, stage[0], tool, stage[1])
            return
        if stage[0] == "link":
            t = stage[2]
            first = t["libs"] + [w.d + "/cxx/poly_build/lib/libc++.a", w.d + "/cxx/poly_build/lib/libc++abi.a", w.comp + "/lib/libPolytracker.a"]
            if not subsequence(t["keep"], opts):
                yield "%s: linked with %r, the original options were %r" % (who, opts, t["keep"])
            if not subsequence(first, opts) or w.dfsan not in opts:
                yield "%s: linked with %r, libraries due are %r and %r" % (who, opts, first, w.dfsan)
            stray = [x for x in opts if x in t["args"] and x not in t["keep"]]
            if stray:
                yield "%s: linked with the original's own %r" % (who, stray)
        elif stage[2] is not None and flat(opts) != stage[2]:
            yield "%s: %s with %r instead of %r" % (who, stage[0], sorted(map(str, flat(opts) - stage[2])), sorted(map(str, stage[2] - flat(opts))))
        if len(ins) != 1:
            yield "%s: %s of %d files" % (who, stage[0], len(ins))
            return
        at = ins[0]
    if at != stage[3]:
        yield "%s: made from %r, expected %r" % (who, at, stage[3])


def history(w, name, taint, ftrace, lists, cflog):
    t = w.targets[name]
    h = [("link", os.path.basename(t["tool"]), t, None),
         ("instrumented", "opt", expect_opts(w, pipeline(taint, ftrace), taint, ftrace, lists), None),
         ("optimized", "opt", {"-O3"}, None)]
    if cflog:
        h.append(("logged", "opt", expect_opts(w, ["pt-tcf"], False, False, []), None))
    h.append(("extracted", "get-bc", None, "binary of " + name))
    return h


def targets(rng, stat):
    w = World(rng)
    names = sorted(w.targets)
    pick = [rng.choice(names) for _ in range(rng.randint(1, 3))]
    pick = list(dict.fromkeys(pick))
    taint, ftrace, cflog = rng.random() < 0.7, rng.random() < 0.5, rng.random() < 0.5
    lists = rng.sample(w.lists, rng.choice([0, 0, 1, 2, 3]))
    argv = ["instrument-targets"]
    opts = [["--taint"]] * taint + [["--ftrace"]] * ftrace + [["--cflog"]] * cflog
    if lists:
        opts.append(["--ignore-lists"] + lists)
    if not w.journal.startswith(w.work):
        opts.append(["--journal-path", w.journal])
    rng.shuffle(opts)
    argv += pick + [x for o in opts for x in o]
    steps = 4 + cflog
    rc = w.main(argv)
    calls = w.calls()
    stat["tools"] = len(calls)
    stat["targets"] = len(pick)
    if rc not in (0, None):
        yield "%r ended with %r after %r" % (argv, rc, [c[0] for c in calls])
        return
    if len(calls) != steps * len(pick):
        yield "%r called %r" % (argv, [c[0] for c in calls])
    for n in dict.fromkeys(pick):
        made = w.load(n + ".instrumented")
        if made is None:
            yield "%r made %r, no %s.instrumented" % (argv, sorted(os.listdir(w.work)), n)
            continue
        yield from stage_faults(w, made, history(w, n, taint, ftrace, lists, cflog), "%s by %r" % (n, argv))
        with open(w.targets[n]["path"]) as f:
            if f.read() != "binary of " + n:
                yield "%r changed the original %s" % (argv, n)
    # a tool fails: nothing after it runs and the program does not claim success
    w.reset()
    for n in pick:
        with contextlib.suppress(FileNotFoundError):
            os.unlink(os.path.join(w.work, n + ".instrumented"))
    k = rng.randint(1, len(calls))
    with open(w.d + "/fail", "w") as f:
        f.write(str(k))
    rc = w.main(argv)
    got = w.calls()
    stat["failures"] = 1
    if rc in (0, None) or isinstance(rc, SystemExit) and not rc.code:
        yield "%r claims success though call %d (%s) failed" % (argv, k, calls[k - 1][0])
    if len(got) != k:
        yield "%r went on after call %d (%s) failed: %r" % (argv, k, calls[k - 1][0], [c[0] for c in got])
    for i, n in enumerate(pick):
        if (i + 1) * steps >= k and n not in pick[: (k - 1) // steps] and w.load(n + ".instrumented") is not None:
            yield "%r left %s.instrumented though call %d failed" % (argv, n, k)
    # a target nobody built
    w.reset()
    rc = w.main(["instrument-targets", "no such", "--journal-path", w.journal])
    if not isinstance(rc, Exception) or w.calls():
        yield "a target that was not built gives %r, %r" % (rc, w.calls())


def single(rng, stat):
    """The stages one at a time."""
    w = World(rng)
    n = rng.choice(sorted(w.targets))
    taint, ftrace = rng.random() < 0.6, rng.random() < 0.6
    lists = rng.sample(w.lists, rng.choice([0, 1, 2]))
    lo = [["--journal-path", w.journal]] if not w.journal.startswith(w.work) or rng.random() < 0.3 else []
    plan = [["extract-bc", w.targets[n]["path"], "-o", "x.bc"],
            ["opt-bc", "x.bc", "-o", "y.bc"],
            ["instrument-bc", "y.bc", "-o", "z q.bc"] + ["--taint"] * taint + ["--ftrace"] * ftrace + (["--ignore-lists"] + lists if lists else []),
            ["lower-bc", "z q.bc", "-o", "final", "-t", n] + [x for o in lo for x in o]]
    for a in plan:
        rc = w.main(a)
        if rc not in (0, None):
            yield "%r ended with %r" % (a, rc)
            return
    stat["tools"] = len(w.calls())
    if len(w.calls()) != 4:
        yield "four stages called %r" % [c[0] for c in w.calls()]
    h = history(w, n, taint, ftrace, lists, False)
    yield from stage_faults(w, w.load("final"), h, "%r" % plan)
    for f, i in (("x.bc", 3), ("y.bc", 2), ("z q.bc", 1)):
        yield from stage_faults(w, w.load(f), h[i:], f)
    # what is needed is missing
    missing = rng.choice(["COMPILER_DIR", "CXX_LIB_PATH", "DFSAN_LIB_PATH"])
    w.reset()
    rc = w.main(plan[3], env={missing: rng.choice([None, "", w.d + "/missing"])})
    if not isinstance(rc, Exception) or w.calls():
        yield "without %s linking gives %r, calls %r" % (missing, rc, w.calls())


def build(rng, stat):
    """A build command is passed on as it is, under the recorder."""
    w = World(rng)
    cmd = [rng.choice(["make", "./configure", "cmake", "sh"])] + [rng.choice(["-j8", "all", "--flag", "a b", "", "é", "-o", "CC=gcc", "--", "--journal-path", "-h", "$x", "'"]) for _ in range(rng.randint(0, 5))]
    argv = ["build"]
    j = None
    if rng.random() < 0.5:
        j = rng.choice([w.d + "/new.jsonl", "rel.jsonl", w.d + "/j2.jsonl"])
        argv += ["--journal-path", j]
    jp = os.path.join(w.work, j or "blight_journal.jsonl")
    if rng.random() < 0.5:
        with open(jp, "w") as f:
            f.write("{}\n")
    fail = rng.random() < 0.3
    if fail:
        with open(w.d + "/fail", "w") as f:
            f.write("1")
    rc = w.main(argv + cmd)
    calls = w.calls()
    stat["tools"] = len(calls)
    if len(calls) != 1 or calls[0][0] != "blight-exec":
        yield "%r called %r" % (argv + cmd, [c[0] for c in calls])
        return
    _, args, cwd, env = calls[0]
    if "--" not in args or args[args.index("--") + 1:] != cmd:
        yield "%r ran %r" % (argv + cmd, args)
    if os.path.realpath(cwd) != os.path.realpath(w.work):
        yield "%r ran in %r" % (argv + cmd, cwd)
    if fail != isinstance(rc, Exception) or not fail and rc not in (0, None):
        yield "%r ended with %r, the build ended with %d" % (argv + cmd, rc, 3 * fail)
    if os.path.normpath(env.get("BLIGHT_JOURNAL_PATH", "")) != os.path.normpath(jp):
        yield "the journal of %r is %r" % (argv + cmd, env.get("BLIGHT_JOURNAL_PATH"))
    if os.path.exists(jp):
        yield "%r leaves the journal of an earlier build" % (argv + cmd)
    if env.get("BLIGHT_WRAPPED_CC") != "gclang" or env.get("BLIGHT_WRAPPED_CXX") != "gclang++":
        yield "the wrapped compilers are %r" % env
    acts = env.get("BLIGHT_ACTIONS", "").split(":")
    if not {"Record", "FindInputs", "FindOutputs", "InjectFlags"} <= set(acts):
        yield "the recorder's actions are %r" % acts
    for k in ("BLIGHT_ACTION_FINDINPUTS", "BLIGHT_ACTION_FINDOUTPUTS"):
        if "store=" + w.d + "/store" not in env.get(k, ""):
            yield "%s is %r" % (k, env.get(k))


KINDS = {"targets": (250, 4000), "single": (150, 2500), "build": (200, 3000)}


def _one(job):
    kind, seed = job
    out, stat = [], {}
    rng = random.Random("%s-%s" % (kind, seed))
    pyside.guarded("C23", kind, lambda: globals()[kind](rng, stat), out, seconds=120)
    shutil.rmtree(os.path.join(runner.scratch(), "b%d" % os.getpid()), ignore_errors=True)
    return job, out, stat, hashlib.sha1(repr((kind, rng.random())).encode()).hexdigest()[:12]


def run(prop, replay=None):
    ck = Check(prop)
    ck.rule = ("A case is a random build journal and command line run with stand-in tools that record their calls and write down what each output was "
               "made from; then once more with a tool failing at a random point. Cases differ when their random draws differ.")
    ck.assumptions = ["compilers, opt, get-bc and blight are stand-ins: what the real ones do with the files is not observed",
                      "targets have distinct names without dots (instrumented files are named after the part before the last dot)"]
    import c22
    c22.installed()
    import polytracker.build  # noqa: F401
    import polytracker.repl  # noqa: F401
    jobs = [tuple(replay["job"])] if replay else [(k, "%d-%d" % (ck.seed, i)) for k, c in KINDS.items() for i in range(ck.n(*c))]
    for job, V, stat, fp in runner.pmap(_one, jobs, mem=4 << 30):
        ck.evaluations += 1
        ck.distinct.add(fp)
        ck.count(job[0] + "_cases")
        for k, v in stat.items():
            ck.count(k, v)
        if job[1].endswith("-3"):
            ck.sample(dict(job=list(job), seen=stat))
        for _, text in V[:1]:
            ck.violation("%s/%s: %s" % (job[0], job[1], text), dict(job=list(job)))
        if len(ck.violations) >= 8:
            break
    ck.finish()
