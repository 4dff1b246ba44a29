"""C24: running in a container, with stand-ins for docker's client, its build service and its command."""
import contextlib
import hashlib
import io
import json
import os
import random
import shutil
import sys
from pathlib import Path

os.environ["TQDM_DISABLE"] = "1"
import pyside
import runner
from driver import Check

TOOL = '''#!%s -ISE
import json, os, sys
top = %r
with open(top + "/calls", "a") as f:
    f.write(json.dumps([sys.argv[1:], os.getcwd(), os.isatty(0)]) + "\\n")
if sys.argv[1] == "pull":
    a = json.load(open(top + "/answer"))
    if a["pull"].get(sys.argv[2]):
        open(top + "/pulled", "a").write(sys.argv[2] + "\\n")
        sys.exit(0)
    sys.exit(1)
if json.load(open(top + "/answer"))["echo"]:
    sys.stdout.write("out:" + sys.stdin.read())
    sys.stderr.write("err")
sys.exit(json.load(open(top + "/answer"))["status"])
'''


class Img:
    def __init__(self, tags, created):
        self.tags, self.created, self.id = list(tags), created, "sha256:%x" % abs(hash(tuple(tags)))
        self.tagged = []

    def history(self):
        out = [{"Created": c} for c in self.created] + [{"Id": "x"}]
        return out

    def tag(self, repository, tag=None, **kw):
        self.tagged.append((repository, tag))
        self.tags.append("%s:%s" % (repository, tag))
        return True


class World:
    def __init__(self, rng):
        self.d = os.path.join(runner.scratch(), "k%d" % os.getpid())
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d + "/bin")
        self.work = self.d + "/w" + rng.choice(["", " x", "é"])
        os.makedirs(self.work)
        with open(self.d + "/bin/docker", "w") as f:
            f.write(TOOL % (sys.executable, self.d))
        os.chmod(self.d + "/bin/docker", 0o755)
        self.images, self.built = [], []
        self.answer = dict(pull={}, status=0, echo=False)

    class Images:
        def __init__(self, w):
            self.w = w

        def list(self, *a, **k):
            w = self.w
            with contextlib.suppress(FileNotFoundError):
                for n in open(w.d + "/pulled").read().split("\n"):
                    if n and not any(n in i.tags for i in w.images):
                        w.images.append(Img([n], [1]))
            return list(w.images)

        def get(self, name):
            for i in self.list():
                if name in i.tags:
                    return i
            from docker.errors import ImageNotFound
            raise ImageNotFound(name)

    @property
    def client(self):
        c = type("Client", (), {})()
        c.images = World.Images(self)
        return c

    def api(self, works):
        w = self

        class API:
            def build(self, path=None, tag=None, nocache=False, **kw):
                w.built.append((os.path.realpath(path), tag, nocache))
                for i in range(1, 4):
                    yield json.dumps({"stream": "Step %d/3 : RUN x\n" % i}).encode() + b"\r\nnot json\n"
                if works:
                    w.images.append(Img([tag], [4e9]))

            def tag(self, image, repository, tag=None, **kw):
                w.built.append(("tag", image, repository, tag))
        return API

    @contextlib.contextmanager
    def inside(self, works=True):
        import docker
        import polytracker.containerization as pc
        cwd, path = os.getcwd(), os.environ["PATH"]
        new = dict(APIClient=self.api(works), from_env=lambda *a, **k: self.client)
        # wherever the code may have the names from
        old = [(m, n, getattr(m, n)) for m in (docker, docker.client, docker.DockerClient, pc) for n in new if hasattr(m, n)]
        for m, n, _ in old:
            setattr(m, n, staticmethod(new[n]) if m is docker.DockerClient else new[n])
        with open(self.d + "/answer", "w") as f:
            json.dump(self.answer, f)
        os.chdir(self.work)
        os.environ["PATH"] = self.d + "/bin:" + path
        try:
            with contextlib.redirect_stdout(io.StringIO()) as o, contextlib.redirect_stderr(io.StringIO()) as e:
                yield o, e
        finally:
            for m, n, v in old:
                setattr(m, n, v)
            os.chdir(cwd)
            os.environ["PATH"] = path

    def calls(self):
        try:
            with open(self.d + "/calls") as f:
                return [json.loads(x) for x in f]
        except FileNotFoundError:
            return []


def parse(argv):
    """docker run's own reading of its arguments -> (options, image, command)"""
    i, o = 1, dict(v=[], e=[], flags=set(), w=None)
    while i < len(argv) and argv[i].startswith("-"):
        a = argv[i]
        if a in ("-v", "--volume", "-e", "--env", "-w", "--workdir"):
            i += 1
            k = a.strip("-")[0]
            if k == "w":
                o["w"] = argv[i]
            else:
                o[k].append(argv[i])
        elif a.startswith(("-w=", "--workdir=")):
            o["w"] = a.split("=", 1)[1]
        elif a.startswith(("--volume=", "--env=")):
            o[a[2]].append(a.split("=", 1)[1])
        elif a.startswith("--"):
            o["flags"].add(a[2:])
        else:
            o["flags"] |= set(a[1:])
        i += 1
    return o, argv[i] if i < len(argv) else None, argv[i + 1:]


def started(rng, stat):
    """One container run: image present, missing, old, or not to be had."""
    from polytracker.containerization import DockerContainer, DockerOutOfDateError
    w = World(rng)
    tag = rng.choice([None, "1.2", "latest"])
    c = DockerContainer(tag=tag) if tag else DockerContainer()
    name = "trailofbits/polytracker:" + (tag or "0")
    if c.name != name:
        yield "the image is named %r" % c.name
    others = [Img(["other:1", "trailofbits/polytracker:9"], [5]), Img([], [7]), Img(["trailofbits/polytracker", "trailofbits/polytracker-x:1.2"], [9])]
    state = rng.choice(["there", "there", "there", "old", "missing", "broken"])
    fresh, old = [3e9, 1, 4e9, 2], [1, 3, 2]
    if rng.random() < 0.5:
        w.images += others[: rng.randint(0, 3)]
    if state in ("there", "old"):
        w.images.insert(rng.randint(0, len(w.images)), Img(["x:y", name], fresh if state == "there" else old))
    necessary, check = rng.random() < 0.7, rng.random() < 0.6
    args = [rng.choice(["ls", "-l", "a b", "", "--rm", "é", '"q"', "$HOME", "-v", "x:y"]) for _ in range(rng.randint(0, 4))]
    kw = dict(build_if_necessary=necessary, check_if_docker_out_of_date=check, remove=rng.random() < 0.5, interactive=rng.random() < 0.5)
    env = None
    if rng.random() < 0.7:
        env = {k: rng.choice(["1", "", "a b", 'say "hi"', "back\\slash", "x=y", "é", "'", '\\"', "l1\nl2"]) for k in rng.sample(["POLYDB", "A", "B_C", "POLYTRACKER_STDIN_SOURCE"], rng.randint(0, 3))}
        kw["env"] = env
    mounts = None
    if rng.random() < 0.5:
        mounts = [("/m%d" % i + rng.choice(["", " z"]), rng.choice(["/t%d", "/workdir/%d"]) % i) for i in range(rng.randint(0, 3))]
        kw["mounts"] = [(Path(a), b) if rng.random() < 0.5 else (a, b) for a, b in mounts]
    cwd = w.work
    if rng.random() < 0.3:
        cwd = w.d + "/elsewhere"
        os.makedirs(cwd)
        kw["cwd"] = cwd
    w.answer["status"] = rng.choice([0, 0, 1, 42, 255])
    data = b""
    if not kw["interactive"]:
        w.answer["echo"] = True
        data = rng.choice([b"", b"input\n"])
        with open(w.d + "/in", "wb") as f:
            f.write(data)
        kw.update(stdin=open(w.d + "/in", "rb"), stdout=open(w.d + "/out", "wb"), stderr=open(w.d + "/err", "wb"))
    with w.inside(works=state != "broken"):
        try:
            rc = c.run(*args, **kw)
        except Exception as e:
            rc = e
    for k in ("stdin", "stdout", "stderr"):
        if kw.get(k):
            kw[k].close()
    calls = w.calls()
    what = "run(%r, %s) with the image %s" % (args, {k: v for k, v in kw.items() if not k.startswith("std")}, state)
    stat[state] = 1
    build = state in ("missing", "broken") and necessary
    if build != bool([b for b in w.built if b[0] != "tag"]):
        yield "%s: built %r" % (what, w.built)
    if build and [b for b in w.built if b[0] != "tag"] != [(os.path.realpath(runner.REPO), name, True)]:
        yield "%s: built %r" % (what, w.built)
    if state == "broken" or state == "missing" and not necessary:
        if not isinstance(rc, ValueError) or calls:
            yield "%s: gives %r after %r" % (what, rc, calls)
        return
    if state == "old" and check:
        if not isinstance(rc, DockerOutOfDateError) or calls:
            yield "%s: gives %r after %r" % (what, rc, calls)
        return
    if isinstance(rc, Exception):
        yield "%s: raised %r" % (what, rc)
        return
    if rc != w.answer["status"]:
        yield "%s: returned %r, the container ended with %d" % (what, rc, w.answer["status"])
    if len(calls) != 1 or calls[0][0][0] != "run":
        yield "%s: called %r" % (what, calls)
        return
    argv, dcwd, _ = calls[0]
    o, image, cmd = parse(argv)
    if image != name or cmd != args:
        yield "%s: started %r with %r" % (what, image, cmd)
    if o["w"] != "/workdir":
        yield "%s: works in %r" % (what, o["w"])
    if os.path.realpath(dcwd) != os.path.realpath(cwd):
        yield "%s: docker ran in %r" % (what, dcwd)
    want = [(cwd, "/workdir")] if mounts is None else mounts
    got = [tuple(v.split(":")[:2]) for v in o["v"]]
    if got != [(str(a), str(b)) for a, b in want]:
        yield "%s: mounts %r" % (what, o["v"])
    e = dict(x.split("=", 1) for x in o["e"] if "=" in x)
    if e != (env or {}) or len(o["e"]) != len(e):
        yield "%s: environment %r" % (what, o["e"])
    if ("rm" in o["flags"]) != kw["remove"] or ({"i", "t"} <= o["flags"]) != kw["interactive"] or (o["flags"] - {"rm", "i", "t"}):
        yield "%s: options %r" % (what, o["flags"])
    if not kw["interactive"]:
        if open(w.d + "/out", "rb").read() != b"out:" + data or open(w.d + "/err", "rb").read() != b"err":
            yield "%s: input and output are not passed on" % what
    # building tags the image as the latest one too
    if build and ("tag", name, "trailofbits/polytracker", "latest") not in w.built:
        yield "%s: built %r" % (what, w.built)


def commands(rng, stat):
    """polytracker docker exists, pull, run and rebuild"""
    import c22
    w = World(rng)
    name = "trailofbits/polytracker:0"
    there = rng.random() < 0.5
    if there:
        w.images.append(Img([name], [4e9]))
    if rng.random() < 0.5:
        w.images.append(Img(["trailofbits/polytracker:1"], [4e9]))
    what = rng.choice(["exists", "pull", "run", "rebuild"])
    argv = ["docker", what]
    w.answer["status"] = rng.choice([0, 3])
    hub, latest, reply = rng.random() < 0.5, rng.random() < 0.7, rng.choice(["y\n", "n\n", "\n", "", "what\ny\n", "Y\n"])
    w.answer["pull"] = {name: hub, "trailofbits/polytracker:latest": latest}
    cmd = []
    if what == "run":
        cmd = rng.choice([[], ["ls"], ["sh", "x y"], ["a", "b", "c"]])
        argv += rng.choice([[], ["--notty"]]) + cmd
    opts = []
    if what == "rebuild":
        opts = [o for o in ("--no-cache", "--no-tag-latest") if rng.random() < 0.5]
        argv += opts
    old = sys.stdin
    sys.stdin = io.StringIO(reply)
    try:
        with w.inside() as (o, e):
            rc = Exception()
            out = err = ""
            try:
                rc, out, err = c22.call_main(argv)
            except Exception as x:
                rc = x
    finally:
        sys.stdin = old
    calls = [c[0] for c in w.calls()]
    stat[what] = 1
    if what == "exists":
        if out.strip() != (w.images[0].id if there else "") or calls:
            yield "%r prints %r, the image is %s" % (argv, out, "there" if there else "missing")
    elif what == "pull":
        if calls[:1] != [["pull", name]]:
            yield "%r calls %r" % (argv, calls)
        if hub:
            if rc != 0 or len(calls) != 1:
                yield "%r gives %r after %r" % (argv, rc, calls)
        elif there:
            if rc != 1 or len(calls) != 1:
                yield "%r of an image only here gives %r after %r" % (argv, rc, calls)
        else:
            yes = reply.strip().split("\n")[-1].lower() == "y"
            if (["pull", "trailofbits/polytracker:latest"] in calls) != yes:
                yield "%r answered %r calls %r" % (argv, reply, calls)
            tagged = [t for i in w.images for t in i.tagged]
            if yes and latest and (rc != 0 or tagged != [("trailofbits/polytracker", "0")]):
                yield "%r answered %r gives %r, tags %r" % (argv, reply, rc, tagged)
            if not (yes and latest) and (rc == 0 or tagged):
                yield "%r answered %r gives %r, tags %r" % (argv, reply, rc, tagged)
    elif what == "run":
        runs = [c for c in calls if c[0] == "run"]
        if len(runs) != 1 or rc != w.answer["status"]:
            yield "%r gives %r after %r" % (argv, rc, calls)
            return
        o, image, got = parse(runs[0])
        if image != name or got != cmd or ("t" in o["flags"]) == ("--notty" in argv):
            yield "%r runs %r" % (argv, runs[0])
        if there == bool(w.built):
            yield "%r with the image %s built %r" % (argv, "there" if there else "missing", w.built)
    else:
        b = [x for x in w.built if x[0] != "tag"]
        if b != [(os.path.realpath(runner.REPO), name, "--no-cache" in opts)] or rc != 0 or calls:
            yield "%r built %r, %r" % (argv, w.built, rc)
        if (("tag", name, "trailofbits/polytracker", "latest") in w.built) == ("--no-tag-latest" in opts):
            yield "%r tags %r" % (argv, w.built)


def prompted(rng, stat):
    """polytracker docker run with an image older than the sources, at a terminal or not"""
    import c22
    from polytracker.containerization import DockerOutOfDateError
    w = World(rng)
    name = "trailofbits/polytracker:0"
    w.images = [Img([name], [rng.choice([1, 2.5])])]
    w.answer["status"] = rng.choice([0, 3])
    tty = (rng.random() < 0.8, rng.random() < 0.8)
    first, second = [[rng.choice(["what", "yes", "q"]) for _ in range(rng.choice([0, 0, 1, 2]))] + [rng.choice(["y", "Y", "", "n", "N"])] for _ in range(2)]
    rebuild = first[-1].lower() != "n"
    typed = first + (second if rebuild else [])
    argv = ["docker", "run"] + rng.choice([[], ["--notty"]]) + ["ls"]
    old = sys.stdin
    sys.stdin = (c22.Terminal if tty[0] else io.StringIO)("".join(x + "\n" for x in typed))
    try:
        with w.inside():
            try:
                rc, out, err = c22.call_main(argv, c22.Terminal if tty[1] else io.StringIO)
            except Exception as x:
                rc = x
        rest = sys.stdin.read()
    finally:
        sys.stdin = old
    calls = [c[0] for c in w.calls()]
    stat["terminal" if all(tty) else "no_terminal"] = 1
    what = "%r with an old image and %r typed (terminals %r)" % (argv, typed, tty)
    if not all(tty):
        if calls or w.built or not (isinstance(rc, DockerOutOfDateError) or rc not in (0, None) and not isinstance(rc, Exception)):
            yield "%s: gives %r after %r, %r" % (what, rc, calls, w.built)
        return
    builds = [b for b in w.built if b[0] != "tag"]
    if builds != ([(os.path.realpath(runner.REPO), name, True)] if rebuild else []) or rest:
        yield "%s: built %r, %r not read" % (what, builds, rest)
    tagged = ("tag", name, "trailofbits/polytracker", "latest") in w.built
    if tagged != (rebuild and second[-1].lower() != "n"):
        yield "%s: tagged %r" % (what, w.built)
    if rc != w.answer["status"] or len(calls) != 1 or calls[0][0] != "run":
        yield "%s: gives %r after %r" % (what, rc, calls)
        return
    o, image, got = parse(calls[0])
    if image != name or got != ["ls"] or ("t" in o["flags"]) == ("--notty" in argv):
        yield "%s: runs %r" % (what, calls[0])


def outdated(rng, stat):
    """Which sources are newer than the image."""
    from polytracker.containerization import DockerContainer
    w = World(rng)
    root = os.path.realpath(runner.REPO)
    times = {}
    for d, sub, files in os.walk(root + "/polytracker"):
        for f in files:
            p = os.path.join(d, f)
            if "__pycache__" not in p and not f.endswith(".py") and os.path.exists(p):
                times[p] = os.stat(p).st_mtime
    for f in ("Dockerfile", "setup.py"):
        times[os.path.join(root, f)] = os.stat(os.path.join(root, f)).st_mtime
    at = rng.choice([0, 5e9, rng.choice(sorted(times.values())), rng.choice(sorted(times.values())) - rng.random() * 50])
    created = [at] + [at * rng.random() for _ in range(rng.randint(0, 4))]
    rng.shuffle(created)
    c = DockerContainer(tag="7")
    w.images = [Img(["trailofbits/polytracker:6"], [6e9]), Img(["trailofbits/polytracker:7"], created)]
    with w.inside():
        got = {os.path.realpath(p) for p in c.out_of_date_sources() if not os.path.isdir(p)}
        t = c.last_build_time()
    want = {p for p, m in times.items() if m > at}
    stat["files"] = len(times)
    if t != at:
        yield "an image made of steps at %r was last built at %r" % (created, t)
    if got != {os.path.realpath(p) for p in want}:
        yield "sources newer than %r: %r too many, %r missing" % (at, sorted(got - want)[:3], sorted(want - got)[:3])
    c = DockerContainer(tag="none")
    with w.inside():
        if c.last_build_time() is not None or c.out_of_date_sources() or c.exists():
            yield "an image that does not exist has a time of %r" % c.last_build_time()


KINDS = {"started": (500, 8000), "commands": (250, 4000), "prompted": (150, 2000), "outdated": (80, 800)}


def _one(job):
    kind, seed = job
    out, stat = [], {}
    rng = random.Random("%s-%s" % (kind, seed))
    pyside.guarded("C24", kind, lambda: globals()[kind](rng, stat), out, seconds=120)
    shutil.rmtree(os.path.join(runner.scratch(), "k%d" % os.getpid()), ignore_errors=True)
    return job, out, stat, hashlib.sha1(repr((kind, rng.random())).encode()).hexdigest()[:12]


def run(prop, replay=None):
    ck = Check(prop)
    ck.rule = ("A case is one run, command or age check with a random set of images, options, environment, mounts and answers; docker's client, build "
               "service and command are stand-ins that record what they are given. Cases differ when their random draws differ.")
    ck.assumptions = ["docker itself is replaced by stand-ins", "the check runs from a source tree (where images are built rather than pulled)"]
    import c22
    c22.installed()
    import polytracker.containerization  # noqa: F401
    import polytracker.repl  # noqa: F401
    jobs = [tuple(replay["job"])] if replay else [(k, "%d-%d" % (ck.seed, i)) for k, c in KINDS.items() for i in range(ck.n(*c))]
    for job, V, stat, fp in runner.pmap(_one, jobs, mem=4 << 30):
        ck.evaluations += 1
        ck.distinct.add(fp)
        ck.count(job[0] + "_cases")
        for k, v in stat.items():
            ck.count(k, v)
        if job[1].endswith("-3"):
            ck.sample(dict(job=list(job), seen=stat))
        for _, text in V[:1]:
            ck.violation("%s/%s: %s" % (job[0], job[1], text), dict(job=list(job)))
        if len(ck.violations) >= 8:
            break
    ck.finish()
