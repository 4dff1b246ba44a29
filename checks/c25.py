"""C25: detecting, mutating and verifying blind spots of many files, with stand-ins for docker, the
tools in it and (with the text the real command prints) polytracker."""
import csv
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

os.environ["TQDM_DISABLE"] = "1"
import pyside
import runner
from driver import Check

PY = next((p for p in ("/opt/veriftools/pyvenv/bin/python", sys.executable) if os.path.exists(p)), sys.executable)
SCRIPTS = os.path.join(runner.REPO, "build_in_docker")
EVAL = os.path.join(runner.REPO, "eval")

# The tools in the image: what they write depends on some of the bytes of their input only.
LIB = '''
import json, os, sys, time
top = %r
plan = json.load(open(top + "/plan"))
def note(kind, *x):
    fd = os.open(top + "/" + kind, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(x) + "\\n").encode())
    os.close(fd)
def tool(args, src, dst, key):
    p = plan[key]
    orig = bytes.fromhex(p["data"])
    data = open(src, "rb").read()
    if len(data) == len(orig) and [i for i in p["fatal"] if data[i] != orig[i]]:
        return
    if p["out"]:
        with open(dst, "wb") as f:
            f.write(b"" if p["out"] == 2 else b"out:" * p["big"] + bytes(data[i] for i in p["used"]) + b"%%d" %% len(data))
def where(args):
    """-> input, output of a tool's command line"""
    o = next(i for i, a in enumerate(args) if a in ("-o", "-outfile"))
    if "-i" in args:
        return args[args.index("-i") + 1], args[o + 1]
    return args[-1], args[o + 1]
'''
DOCKER = '''#!%s -ISE
import shlex, subprocess
exec(open(%r + "/lib").read())
a = sys.argv[1:]
mounts, env, i = [], {}, 1
while i < len(a) and a[i].startswith("-"):
    if a[i] == "-e":
        k, v = a[i + 1].split("=", 1)
        env[k] = v
        i += 1
    elif a[i] == "--mount":
        m = dict(x.split("=", 1) for x in a[i + 1].split(","))
        if m["type"] == "bind" and not (os.path.isabs(m["source"]) and os.path.exists(m["source"])):
            sys.exit(125)
        mounts.append((m["target"], m["source"]))
        i += 1
    i += 1
image, cmd = a[i], a[i + 1:]
note("calls", a[0], image, cmd, mounts, env)
def host(p):
    for t, s in sorted(mounts, key=lambda x: -len(x[0])):
        if p == t or p.startswith(t + "/"):
            return s + p[len(t):]
    sys.exit(1)
if cmd[0].endswith("python3"):
    d = host("/data")
    db = host("/data/cavities.csv")
    __import__("shutil").copy(db, d + "/cavities.csv")
    sys.exit(subprocess.call([%r, top + "/inside", host(cmd[1]), d] + cmd[2:], stderr=open(top + "/inside.err", "a")))
words = shlex.split(cmd[2])
if words[0] == "timeout":
    words = words[2:]
src, dst = where(words[1:])
key = os.path.basename(src).split(".mut-")[0]
key = key if key in plan else os.path.splitext(key)[0]
if key not in plan:
    sys.exit(1)
p = plan[key]
track = words[0].endswith("_track")
time.sleep(p["sleep"])
st = p["status"] if track else p["status2"]
if st not in (125, 126, 127) and os.path.exists(host(src)):
    tool(words[1:], host(src), host(dst), key)
    if track and p["tdag"]:
        open(host(env["POLYDB"]), "w").write("tdag of " + key)
sys.exit(st)
'''
POLYTRACKER = '''#!%s -ISE
exec(open(%r + "/lib").read())
note("analyses", sys.argv[1:])
try:
    t = open(sys.argv[2]).read()
except FileNotFoundError:
    sys.exit(1)
p = plan[t[len("tdag of "):]]
sys.stdout.write(p["text"])
sys.exit(p["status3"])
'''
TOOLIN = '''#!%s -ISE
exec(open(%r + "/lib").read())
src, dst = where(sys.argv[1:])
data = open(src, "rb").read()
key = next(k for k, p in plan.items() if p["turn"] == os.environ["TURN"])
orig = bytes.fromhex(plan[key]["data"])
note("flips", key, len(data), [[i, x] for i, x in enumerate(data) if i >= len(orig) or x != orig[i]])
tool(sys.argv[1:], src, dst, key)
'''
# In the container: the image's directories are in a scratch directory
INSIDE = '''
import os, pathlib, runpy, subprocess, sys
script, data, argv = sys.argv[1], sys.argv[2], sys.argv[3:]
top = %r
work = data + ".work"
plan = __import__("json").load(open(top + "/plan"))
os.environ["TURN"] = next((p["turn"] for p in plan.values() if any(os.path.basename(a) == p["name"] for a in argv)), "")
def there(x):
    x = os.fspath(x)
    for a, b in (("/data", data), ("/work", work)):
        if x == a or x.startswith(a + "/"):
            return b + x[len(a):]
    return x
class P(pathlib.PosixPath):
    def __new__(cls, *a):
        return object.__new__(cls)
    def __init__(self, *a):
        super().__init__(*map(there, a))
pathlib.Path = P
mkdir = os.mkdir
def safe(p, *a, **k):
    if not os.path.abspath(p).startswith((data, work, top)):
        raise PermissionError(p)
    return mkdir(p, *a, **k)
os.mkdir = safe
init = subprocess.Popen.__init__
def start(self, args, *a, **k):
    swap = lambda x: x.replace("/polytracker/the_klondike", top + "/klondike") if isinstance(x, str) else x
    return init(self, swap(args) if isinstance(args, str) else [swap(x) for x in args], *a, **k)
subprocess.Popen.__init__ = start
sys.argv = [script] + argv
sys.path.insert(0, os.path.dirname(script))
try:
    runpy.run_path(script, run_name="__main__")
finally:
    __import__("shutil").rmtree(work, ignore_errors=True)
'''
SUMMARY = '''
import locale, runpy, sys
locale.setlocale = lambda *a: None  # the locale asked for may not be installed
sys.argv = sys.argv[1:]
runpy.run_path(sys.argv[0], run_name="__main__")
'''

QUEUE = '''
import io, json, random, sys, threading, time
sys.path.insert(0, sys.argv[1])
import file_cavity_detection as m
n, jobs, qlen, seed = map(eval, sys.argv[2:])
rng = random.Random(seed)
done, lock, now, most = [], threading.Lock(), [0], [0]
wait = [rng.random() for _ in range(n)]
def work(i):
    with lock:
        now[0] += 1
        most[0] = max(most[0], now[0])
    time.sleep(wait[i] * 0.004)
    with lock:
        done.append(i)
        now[0] -= 1
    return None if i % 7 == 3 else "r%d\\n" % i
out = io.StringIO()
k = m.process_paths(lambda f: (work, int(f.name)), [m.Path(str(i)) for i in range(n)], out, jobs, qlen)
print()
print(json.dumps([k, done, most[0], out.getvalue()]))
'''

TOOLS = {"mutool": (".pdf", ".ps", "trailofbits/polytracker-demo-mupdf", "/polytracker/the_klondike/mupdf/mutool_track", "mupdf/build/release/mutool"),
         "openjpeg": (".jp2", ".bmp", "trailofbits/polytracker-demo-openjpeg", "/polytracker/the_klondike/openjpeg/build/bin/opj_decompress_track", "openjpeg/build/bin/opj_decompress"),
         "libjpeg": (".jpg", ".bmp", "trailofbits/polytracker-demo-libjpeg", "/polytracker/the_klondike/jpeg-9e/djpeg_track", "jpeg-9e/djpeg")}


def spans(dead):
    out = []
    for i in sorted(dead):
        if out and out[-1][1] == i - 1:
            out[-1][1] = i
        else:
            out.append([i, i])
    return out


class World:
    def __init__(self, rng, tool=None):
        self.d = os.path.join(runner.scratch(), "v%d" % os.getpid())
        shutil.rmtree(self.d, ignore_errors=True)
        for x in ("bin", "in", "out", "tmp"):
            os.makedirs(os.path.join(self.d, x))
        self.rng, self.plan, self.tmp = rng, {}, self.d + "/tmp"
        self.tool = tool or rng.choice(sorted(TOOLS))
        self.relative = rng.random() < 0.3
        for n, t in (("bin/docker", DOCKER % (sys.executable, self.d, PY)), ("bin/polytracker", POLYTRACKER % (sys.executable, self.d)),
                     ("lib", LIB % self.d), ("inside", INSIDE % self.d), ("summary", SUMMARY),
                     ("klondike/" + TOOLS[self.tool][4], TOOLIN % (sys.executable, self.d))):
            p = os.path.join(self.d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(t)
            os.chmod(p, 0o755)

    def add(self, stem, size=None, **kw):
        """An input file with random bytes that matter, matter fatally, or do not."""
        rng = self.rng
        n = rng.choice([1, 2, 7, 40, 90, 700]) if size is None else size
        data = bytes(rng.randrange(256) for _ in range(n))
        dead = set()
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            a = rng.randrange(n)
            dead |= set(range(a, min(n, a + rng.choice([1, 1, 2, 5] + [40, 300] * (size in (None, 260))))))
        # what the analysis says and what the tool does need not agree: verification has to tell
        share = kw.pop("wrong", 0.1)
        wrong = {i for i in dead if rng.random() < share}
        fatal = sorted(i for i in range(n) if (i not in dead or i in wrong) and rng.random() < kw.get("fatality", 0.2))
        used = sorted((set(range(n)) - dead) | wrong)
        name = stem + TOOLS[self.tool][0]
        sub = os.path.join(self.d, "in", rng.choice(["", "sub"]))
        os.makedirs(sub, exist_ok=True)
        path = os.path.join(sub, name)
        with open(path, "wb") as f:
            f.write(data)
        # the recording, and what the command prints for it
        labels, sinks = [0], []
        srcs = [(("/inputs/" + name).encode(), 3, n)]
        if rng.random() < 0.4:
            srcs.append((b"/etc/settings", 4, 12))
            labels.append(1 << 63 | 1 << 8 | 1)
            sinks.append((0, 0, 1))
        if rng.random() < 0.3:
            srcs.reverse()
            labels = [l ^ (1 if l >> 63 and len(srcs) > 1 else 0) for l in labels]
        me = [i for i, s in enumerate(srcs) if s[0].startswith(b"/inputs")][0]
        for i in range(n):
            if i not in dead:
                sinks.append((0, i, len(labels)))
            elif rng.random() < 0.3 and len(dead) < n:
                continue  # never read at all
            labels.append(1 << 63 | i << 8 | me)
        td = os.path.join(self.d, "t.tdag")
        pyside.write_file(td, srcs, labels, sinks, [], [], [], rng=random.Random(1))
        text = pyside.command("cavities", td)
        p = dict(data=data.hex(), used=used, fatal=fatal, name=name, path=path, dead=sorted(dead), text=text, turn=name, out=1, status=0, status2=0, status3=0,
                 tdag=True, sleep=0, big=1 if n > 100 else rng.choice([1, 1, 1, 300, 20000, 300000]))
        p.update({k: v for k, v in kw.items() if k in p})
        self.plan[stem] = p
        return p

    def save(self):
        with open(self.d + "/plan", "w") as f:
            json.dump(self.plan, f)

    def run(self, script, args, stdin="", wrap=(), timeout=60):
        env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
        env.update(PATH=self.d + "/bin:" + os.environ["PATH"], TMPDIR=self.tmp, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
        if self.relative:  # paths may be relative to the working directory
            args = [a[len(self.d) + 1:] if a.startswith(self.d + "/") else a for a in args]
            stdin = stdin.replace(self.d + "/", "")
        p = subprocess.run([PY] + list(wrap) + [script] + args, cwd=self.d, env=env, input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        err = p.stderr.decode(errors="replace")
        if os.path.exists(self.d + "/inside.err"):
            err += open(self.d + "/inside.err", errors="replace").read()
        return p.returncode, p.stdout.decode(errors="replace"), err[-500:]

    def log(self, name):
        try:
            with open(os.path.join(self.d, name)) as f:
                return [json.loads(x) for x in f]
        except FileNotFoundError:
            return []


def stems(rng, n):
    return rng.sample(["a", "b c", "d.e", "f'g", "h$(id)", "é", "-x", "y;z", "long" * 8, "0", "k&l", "m*"], n)


def rows(path):
    with open(path, newline="") as f:
        return [r for r in csv.reader(f)]


def detect(rng, stat):
    """file_cavity_detection.py on several files"""
    w = World(rng)
    for s in stems(rng, rng.choice([1, 2, 4, 7])):
        w.add(s, status=rng.choice([0, 0, 0, 0, 1, 3, 124, 125, 126, 127]), out=rng.choice([1, 1, 1, 0, 2]), tdag=rng.random() < 0.85,
              status3=rng.choice([0, 0, 0, 0, 1]), sleep=rng.choice([0, 0, 0.05, 0.1]))
    w.save()
    drop = rng.random() < 0.4
    out = os.path.join(w.d, rng.choice(["out", "new"]))
    paths = [p["path"] for p in w.plan.values()]
    rng.shuffle(paths)
    k = rng.choice([0, 0, len(paths), rng.randint(0, len(paths))])
    args = ["-t", w.tool, "-o", out] + (["-d"] if drop else []) + rng.choice([[], ["-j", "1"], ["-j", "3"]])
    args += paths[k:] + (["-"] if k else [])
    rc, text, err = w.run(SCRIPTS + "/file_cavity_detection.py", args, "".join(p + "\n" for p in paths[:k]))
    if rc:
        yield "%r ended with %d: %s" % (args, rc, err)
        return
    got = rows(out + "/cavities.csv")
    ext = TOOLS[w.tool]
    calls, asked = w.log("calls"), w.log("analyses")
    for stem, p in w.plan.items():
        name = p["name"]
        what = "%s (docker %d, output %d, recording %s, analysis %d)" % (name, p["status"], p["out"], p["tdag"], p["status3"])
        ran = p["status"] not in (125, 126, 127)
        tdag = p["tdag"] and ran
        if p["status"] == 124:
            want = [[-1, -1]]
        elif not ran:
            want = [[-3, -3]]
        elif not tdag or p["status3"]:
            want = [[-4, -4]]
        else:
            want = spans(p["dead"])
        mine = [[int(r[1]), int(r[2])] for r in got if r and r[0] == name]
        if mine != want:
            yield "%s: cavities %r, not %r" % (what, mine, want)
        stat["cavities"] = stat.get("cavities", 0) + len(want)
        c = [x for x in calls if x[2][0].endswith("bash") and name in x[2][2]]
        c = [x for x in calls if os.path.dirname(p["path"]) in [m[1] for m in x[3]] and re.search(r"/inputs/" + re.escape(name), x[2][-1].replace("'\"'\"'", "'"))]
        if len(c) != 1 or c[0][1] != ext[2] or ext[3] not in c[0][2][-1]:
            yield "%s: docker was run %r" % (what, c or calls)
        for f, there in (("%s%s" % (stem, ext[1]), ran and p["out"]), (stem + ".tdag", tdag and not drop), (stem + ".meta.json", True)):
            if os.path.exists(os.path.join(out, f)) != bool(there):
                yield "%s: %s is %s" % (what, f, "missing" if there else "left behind")
                return
        if ran and p["out"] == 1:
            b = bytes.fromhex(p["data"])
            if open(os.path.join(out, stem + ext[1]), "rb").read() != b"out:" * p["big"] + bytes(b[i] for i in p["used"]) + b"%d" % len(b):
                yield "%s: the output kept is not the tool's" % what
        m = json.load(open(os.path.join(out, stem + ".meta.json")))
        i = m["instrumentation"]
        if i["ret"] != p["status"] or i.get("timeout", False) != (p["status"] == 124) or i.get("failure", False) != (not ran) or not 0 <= i["time"] < 300:
            yield "%s: noted %r" % (what, i)
        if ("cavity_detect" in m) != (ran and p["status"] != 124):
            yield "%s: notes of the analysis %r" % (what, m.get("cavity_detect"))
    left = [f for f in os.listdir(out) if os.path.isdir(os.path.join(out, f))]
    if left:
        yield "work directories %r are left" % left
    names = {p["name"] for p in w.plan.values()}
    if len(calls) != len(w.plan):
        yield "docker was run %d times for %d files" % (len(calls), len(w.plan))
    if [r for r in got if not r or len(r) != 3 or r[0] not in names | {"settings"}]:
        yield "rows %r" % [r for r in got if not r or r[0] not in names]
    stat["files"] = len(w.plan)


def database(w, fail=()):
    """cavities.csv as detection leaves it"""
    r = []
    for p in w.plan.values():
        r += [[p["name"], a, b] for a, b in spans(p["dead"])] if p["name"] not in fail else [[p["name"], w.rng.choice([-1, -2, -3, -4])] * 1]
    r = [x if len(x) == 3 else x + [x[1]] for x in r]
    w.rng.shuffle(r)
    with open(w.d + "/out/cavities.csv", "w") as f:
        f.write("".join("%s,%d,%d\n" % tuple(x) for x in r) + w.rng.choice(["", "settings,3,11\n"]))
    return {p["name"]: [(a, b) for n, a, b in r if n == p["name"] and a >= 0] for p in w.plan.values()}


def mutated(data, cav, method):
    d = bytearray(data)
    for a, b in cav:
        s = d[a:b + 1]
        d[a:b + 1] = {"zero": bytes(len(s)), "flip": bytes(~x & 255 for x in s), "reverse": s[::-1], "rand": s}[method]
    return bytes(d)


def mutate(rng, stat):
    w = World(rng)
    for s in stems(rng, rng.choice([1, 3])):
        w.add(s)
    fail = [p["name"] for p in w.plan.values() if rng.random() < 0.15]
    db = database(w, fail)
    w.save()
    method = rng.choice(["zero", "rand", "reverse", "flip"])
    rc, text, err = w.run(SCRIPTS + "/mutate_cavities.py", ["-c", w.d + "/out/cavities.csv", "-m", method, "--"] + [p["path"] for p in w.plan.values()])
    if rc:
        yield "%s ended with %d: %s" % (method, rc, err)
        return
    want = {"cavities.csv"}
    for stem, p in w.plan.items():
        ext = TOOLS[w.tool][0]
        b = bytes.fromhex(p["data"])
        if open(p["path"], "rb").read() != b:
            yield "%s itself was changed" % p["name"]
        if not db[p["name"]]:
            continue
        f = "%s.mut-%s%s" % (stem, method, ext)
        want.add(f)
        try:
            got = open(w.d + "/out/" + f, "rb").read()
        except FileNotFoundError:
            yield "%s with cavities %r has no %s" % (p["name"], db[p["name"]], f)
            continue
        exp = mutated(b, db[p["name"]], method)
        off = [i for i in range(len(b)) if i < len(got) and got[i] != exp[i] and not (method == "rand" and i in p["dead"])]
        if len(got) != len(b) or off:
            yield "%s of %d bytes with cavities %r by %s: %d bytes, wrong at %r" % (p["name"], len(b), db[p["name"]], method, len(got), off)
        stat["mutations"] = stat.get("mutations", 0) + len(db[p["name"]])
    if set(os.listdir(w.d + "/out")) != want:
        yield "files made: %r, not %r" % (sorted(os.listdir(w.d + "/out")), sorted(want))


def verify(rng, stat):
    """verify_cavities.py --type allcavities"""
    w = World(rng)
    for s in stems(rng, rng.choice([1, 3, 5])):
        w.add(s, wrong=rng.choice([0, 0, 0.3]), status2=rng.choice([0, 0, 0, 1, 124, 125, 127]), out=rng.choice([1, 1, 1, 1, 0, 2]), fatality=rng.choice([0, 0.5]), sleep=rng.choice([0, 0.05]))
    fail = [p["name"] for p in w.plan.values() if rng.random() < 0.15]
    db = database(w, fail)
    w.save()
    ext = TOOLS[w.tool]
    method = rng.choice(["zero", "reverse", "flip", "flip"])
    limit, skip = rng.choice([(None, 0), (None, 0), (1, 0), (2, 1), (None, 1)])
    before = {}
    for stem, p in w.plan.items():
        b = bytes.fromhex(p["data"])
        out = None if p["out"] == 0 else b"" if p["out"] == 2 else b"out:" * p["big"] + bytes(b[i] for i in p["used"]) + b"%d" % len(b)
        # what detection left, and whether the tool still does the same
        if rng.random() < 0.1 and out:
            out += b"?"
        before[stem] = out
        if out is not None:
            with open(w.d + "/out/" + stem + ext[1], "wb") as f:
                f.write(out)
    args = ["--type", "allcavities", "-t", w.tool, "-c", w.d + "/out", "-m", method]
    args += (["-l", str(limit)] if limit is not None else []) + (["-s", str(skip)] if skip else []) + ["--"] + [p["path"] for p in w.plan.values()]
    rc, text, err = w.run(SCRIPTS + "/verify_cavities.py", args)
    if rc:
        yield "%r ended with %d: %s" % (args, rc, err)
        return
    # workers print their progress in between, not always by whole lines
    lines = [m.group() for m in re.finditer(r"(OK|INFO|WARNING|ERROR): .*", text)]
    used = 0
    for stem, p in w.plan.items():
        b = bytes.fromhex(p["data"])
        todo = db[p["name"]][skip:] if limit is None else db[p["name"]][skip:skip + limit]
        m = mutated(b, todo, method)
        ran = p["status2"] not in (125, 126, 127)
        if not before[stem] or not todo:
            want = ["INFO"]
        elif m == b:
            want = ["WARNING"]
        else:
            want = ["WARNING"] if p["status2"] == 124 or not ran else []
            bad = any(m[i] != b[i] for i in p["fatal"])
            now = None if not ran or bad or p["out"] == 0 else b"out:" * p["big"] + bytes(m[i] for i in p["used"]) + b"%d" % len(m)
            want.append("OK" if now == before[stem] else "ERROR")
            used += 1
        # a line names the input or the output made from it
        mine = [l for l in lines if re.search(r"/%s(\.mut-\w+)?(%s|%s)\b" % (re.escape(stem), re.escape(ext[0]), re.escape(ext[1])), l)]
        if [l.split(":")[0] for l in mine] != want:
            yield "%s (cavities %r, output before %s, docker %d): %r, expected %r" % (p["name"], todo, before[stem] if before[stem] is None else len(before[stem]), p["status2"], mine, want)
        for x in want:
            stat[x] = stat.get(x, 0) + 1
    calls = w.log("calls")
    if len(calls) != used or [c for c in calls if "_track" in c[2][-1] or c[1] != ext[2]]:
        yield "docker was run %d times for %d files: %r" % (len(calls), used, calls[:1])


def single(rng, stat):
    """verify_cavities.py one byte at a time, in the container"""
    w = World(rng)
    try:
        yield from _single(rng, stat, w)
    finally:
        shutil.rmtree(w.tmp, ignore_errors=True)


def _single(rng, stat, w):
    for s in stems(rng, rng.choice([1, 2])):
        w.add(s, size=rng.choice([1, 30, 130, 260]), wrong=rng.choice([0, 0.4]), fatality=rng.choice([0, 0.4]), out=rng.choice([1, 1, 1, 1, 0]))
    fail = [p["name"] for p in w.plan.values() if rng.random() < 0.15]
    db = database(w, fail)
    w.save()
    res = w.d + "/out"
    if rng.random() < 0.5 and os.path.isdir("/tmp"):
        w.tmp = tempfile.mkdtemp(dir="/tmp")  # likely another file system than the results'
    args = ["-t", w.tool, "-c", res, "--"] + [p["path"] for p in w.plan.values()]
    rc, text, err = w.run(SCRIPTS + "/verify_cavities.py", args)
    if rc:
        yield "%r ended with %d: %s" % (args, rc, err)
        return
    flips = w.log("flips")
    for stem, p in w.plan.items():
        b = bytes.fromhex(p["data"])
        try:
            got = json.load(open("%s/%s-verification.json" % (res, stem)))
        except FileNotFoundError:
            yield "%s: no result" % p["name"]
            continue
        mine = [f for f in flips if f[0] == stem]
        if not p["out"]:
            if "error" not in got or len(mine) != 1:
                yield "%s: a tool without output gives %r after %d runs" % (p["name"], got, len(mine))
            continue
        if "error" in got or got["filesize"] != len(b):
            yield "%s of %d bytes: %r" % (p["name"], len(b), got)
            continue
        if not mine or mine[0][1:] != [len(b), []]:
            yield "%s: the first run was given a changed file" % p["name"]
        runs = mine[1:]
        if [f for f in runs if f[1] != len(b) or len(f[2]) != 1]:
            yield "%s: files changed at %r" % (p["name"], [f[2] for f in runs if len(f[2]) != 1][:2])
            continue
        at = [f[2][0][0] for f in runs]
        cav = {i for a, e in db[p["name"]] for i in range(a, e + 1)}
        n = len(cav)
        if sorted(at[:n]) != sorted(cav) or set(at[n:]) & cav:
            yield "%s with cavities %r: changed %r, then %r" % (p["name"], sorted(cav), at[:n], at[n:])
        if len(at) - n != int((len(b) - n) * 0.01):
            yield "%s: %d of %d other bytes were sampled" % (p["name"], len(at) - n, len(b) - n)
        for k, offs in (("cavity", at[:n]), ("non-cavity", at[n:])):
            none = sum(1 for i in offs if i in p["fatal"])
            diff = sum(1 for i in offs if i in p["used"] and i not in p["fatal"])
            want = dict(no_output=none, count=len(offs), checksum_eq=len(offs) - none - diff, checksum_diff=diff)
            if {x: got[k].get(x) for x in want} != want:
                yield "%s, %s bytes %r (fatal %r, used %r): counted %r, not %r" % (p["name"], k, offs, [i for i in offs if i in p["fatal"]], [i for i in offs if i in p["used"]], got[k], want)
        stat["bytes_changed"] = stat.get("bytes_changed", 0) + len(at)
        stat["without_output"] = stat.get("without_output", 0) + sum(1 for i in at if i in p["fatal"])
    if os.listdir(w.tmp):
        yield "temporary files are left"


def queue(rng, stat):
    """The queue of files: each once, in any order, whatever their number and the workers'"""
    w = World(rng)
    with open(w.d + "/queue", "w") as f:
        f.write(QUEUE)
    n, jobs, qlen = rng.choice([0, 1, 3, 20, 200]), rng.choice([None, 1, 2, 5, 16]), rng.choice([1, 2, 8, 128])
    what = "%d files, %r jobs, queue of %d" % (n, jobs, qlen)
    try:
        rc, text, err = w.run(w.d + "/queue", [SCRIPTS, str(n), repr(jobs), str(qlen), str(rng.randrange(1 << 30))], timeout=60)
    except subprocess.TimeoutExpired:
        yield "%s: does not end" % what
        return
    if rc:
        yield "%s: ended with %d: %s" % (what, rc, err)
        return
    k, done, most, res = json.loads(text.split("\n")[-2])
    if k != n or sorted(done) != list(range(n)):
        yield "%s: %r counted, %d done" % (what, k, len(done))
    if sorted(res.split("\n")) != sorted(["r%d" % i for i in range(n) if i % 7 != 3] + [""]):
        yield "%s: results %r" % (what, res[:80])
    if jobs and most > jobs:
        yield "%s: %d at once" % (what, most)
    stat["queued"] = n
    stat["most_at_once"] = most


def summary(rng, stat):
    """Summaries of verification results"""
    w = World(rng)
    res = w.d + "/out"
    all_ = []
    for s in stems(rng, rng.randint(1, 8)):
        v = {}
        if all_ and rng.random() < 0.3:
            v["error"] = rng.choice(["Original output file could not be generated", "x", "No cavities detected"])
        else:
            v["filesize"] = rng.randint(1, 10 ** rng.randint(1, 6))
            for k in ("cavity", "non-cavity"):
                x = [rng.choice([0, rng.randint(0, 500)]) for _ in range(3)]
                v[k] = dict(no_output=x[0], checksum_eq=x[1], checksum_diff=x[2] + 1, count=sum(x) + 1)
        meta = dict(instrumentation=dict(time=rng.random()))
        if rng.random() < 0.8:
            meta["cavity_detect"] = dict(time=rng.random())
        json.dump(v, open("%s/%s-verification.json" % (res, s), "w"))
        json.dump(meta, open("%s/%s.meta.json" % (res, s), "w"))
        all_.append((s, v, meta))
    open(res + "/cavities.csv", "w").close()
    rc, text, err = w.run(EVAL + "/verification_to_csv.py", ["-f", w.d + "/t.csv", res])
    if rc:
        yield "verification_to_csv ended with %d: %s" % (rc, err)
        return
    got = list(csv.DictReader(open(w.d + "/t.csv", newline="")))
    if len(got) != len(all_):
        yield "%d rows for %d files" % (len(got), len(all_))
    for s, v, m in all_:
        r = [x for x in got if os.path.basename(x["filename"]).startswith((s + ".meta.json", s + "-verification"))]
        want = {"filesize": v.get("filesize", ""), "error": v.get("error", ""), "instrumentation_time": m["instrumentation"]["time"],
                "cavity_detect_time": m.get("cavity_detect", {}).get("time", "")}
        for k, p in (("cavity", "cavity"), ("non-cavity", "non_cavity")):
            for a, c in (("no_output", "no_output"), ("count", "count"), ("checksum_eq", "equal_checksum"), ("checksum_diff", "different_checksum")):
                want["%s_%s" % (p, c)] = v.get(k, {}).get(a, "")
        if len(r) != 1 or any(r[0][k] != str(x) for k, x in want.items()):
            yield "%s: row %r, not %r" % (s, r, want)
    rc, text, err = w.run(SCRIPTS + "/cavity_results.py", ["-r", res], wrap=[w.d + "/summary"])
    if rc:
        yield "cavity_results ended with %d: %s" % (rc, err)
        return
    ok = [v for _, v, _ in all_ if "error" not in v]
    t = lambda k, x: sum(v[k][x] for v in ok)
    n, cb, nb, size = len(all_), t("cavity", "count"), t("non-cavity", "count"), sum(v["filesize"] for v in ok)
    none = sum(1 for _, v, _ in all_ if v.get("error") == "No cavities detected")
    want = ["%d" % n, "%d" % none, "%d" % (n - len(ok) - none), "%d" % size, "%.2f" % (size / n), "%d" % cb, "%d" % nb, "%.2f" % (cb / n),
            "%.2f" % (sum(v["cavity"]["count"] * 100.0 / v["filesize"] for v in ok) / n), "%.2f" % (100.0 * t("cavity", "checksum_eq") / cb), "%d" % t("cavity", "checksum_eq"), "%d" % cb,
            "%.2f" % (100.0 * t("cavity", "no_output") / cb), "%.2f" % (100.0 * t("non-cavity", "checksum_eq") / nb),
            "%.2f" % (100.0 * (t("non-cavity", "checksum_diff") + t("non-cavity", "no_output")) / nb)]
    got = re.findall(r"\d+(?:\.\d+)?", text)
    # sums of fractions may differ in the last place by the order they are added in
    if len(got) != len(want) or any(a != b and abs(float(a) - float(b)) > (0.011 if "." in b else 0) for a, b in zip(got, want)):
        yield "summary %r, not %r" % (got, want)
    stat["summarized"] = n


KINDS = {"detect": (50, 1000), "mutate": (40, 800), "verify": (50, 1000), "single": (40, 800), "queue": (60, 600), "summary": (30, 400)}


def _one(job):
    kind, seed = job
    out, stat = [], {}
    rng = random.Random("%s-%s" % (kind, seed))
    pyside.guarded("C25", kind, lambda: globals()[kind](rng, stat), out, seconds=60)
    shutil.rmtree(os.path.join(runner.scratch(), "v%d" % os.getpid()), ignore_errors=True)
    return job, out, stat, hashlib.sha1(repr((kind, rng.random())).encode()).hexdigest()[:12]


def run(prop, replay=None):
    ck = Check(prop)
    ck.rule = ("A case is one batch run (detection, mutation, verification of all or single bytes, summaries, or the queue alone) over random files, blind spots, tools and "
               "failures; docker and the tools are stand-ins that record what they are given. Cases differ when their random draws differ.")
    ck.assumptions = ["docker and the tools in its images are replaced by stand-ins", "file names without commas, double quotes and line ends, with distinct stems"]
    jobs = [tuple(replay["job"])] if replay else [(k, "%d-%d" % (ck.seed, i)) for k, c in KINDS.items() for i in range(ck.n(*c))]
    for job, V, stat, fp in runner.pmap(_one, jobs, chunk=2, mem=6 << 30):
        ck.evaluations += 1
        ck.distinct.add(fp)
        ck.count(job[0] + "_cases")
        for k, v in stat.items():
            ck.count(k, v)
        if job[1].endswith("-3"):
            ck.sample(dict(job=list(job), seen=stat))
        for _, text in V[:1]:
            ck.violation("%s/%s: %s" % (job[0], job[1], text), dict(job=list(job)))
        if len(ck.violations) >= 3:
            break
    ck.finish()
