"""Builds the drivers from /repo and runs scripted cases, tracked and native."""
import concurrent.futures
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
HERE_ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C", "TZ": "UTC"}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def build(targets, sub="plain", src="harness", defs=()):
    d = os.path.join(BUILD, sub)
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(os.path.join(d, "build.ninja")):
        r = sh(["cmake", "-S", os.path.join(VERIF, src), "-B", d, "-G", "Ninja",
                "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_C_COMPILER=clang-18",
                "-DCMAKE_CXX_COMPILER=clang++-18", "-DREPO=" + REPO] + list(defs))
        if r.returncode:
            shutil.rmtree(d, ignore_errors=True)
            raise BuildError(r.stdout.decode(errors="replace")[-4000:])
    r = sh(["ninja", "-C", d] + list(targets))
    if r.returncode:
        raise BuildError(r.stdout.decode(errors="replace")[-6000:])
    return {t: os.path.join(d, t) for t in targets}


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="ptverif-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *_: sys.exit(3))
        _guard(_scratch)
    return _scratch


LIMIT = 12 << 30   # recordings are kept in memory; runs need far less than this


def _guard(top):
    """A process that ends runs whose recordings grow without bound, before they
    exhaust the machine's memory."""
    parent = os.getpid()
    if os.fork():
        return
    try:
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, signal.SIG_DFL)
        null = os.open(os.devnull, os.O_RDWR)  # do not hold the caller's pipes open
        for fd in (0, 1, 2):
            os.dup2(null, fd)
        while os.getppid() == parent and os.path.isdir(top):
            time.sleep(0.2)
            sizes = []
            for root, _, names in os.walk(top):
                for n in names:
                    p = os.path.join(root, n)
                    try:
                        sizes.append((os.lstat(p).st_blocks * 512, p))
                    except OSError:
                        pass
            if sum(x for x, _ in sizes) < LIMIT:
                continue
            big = max(sizes)[1]
            ended = False
            for pid in filter(str.isdigit, os.listdir("/proc")):
                try:
                    if "python" in os.readlink("/proc/%s/exe" % pid):
                        continue
                    with open("/proc/%s/maps" % pid) as f:
                        if big in f.read():
                            os.kill(int(pid), signal.SIGKILL)
                            ended = True
                except OSError:
                    pass
            if not ended:
                os.truncate(big, 0)
    except BaseException:
        pass
    os._exit(0)


class Run:
    """One execution: trace lines, exit status, outputs, files left behind."""

    def __init__(self):
        self.trace = {}
        self.order = []
        self.argv = None
        self.end = None
        self.extra = []
        self.rc = None
        self.timeout = False
        self.out = self.err = b""
        self.files = {}
        self.tdag = None
        self.dir = None
        self.harness_error = None
        self.last_idx = None

    def describe_exit(self):
        if self.timeout:
            return "did not finish"
        if self.rc is not None and self.rc < 0:
            return "was killed by signal %d" % -self.rc
        return "exited with status %r" % self.rc


def write_files(d, files):
    for name, spec in files.items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(spec, dict):
            k = spec["kind"]
            if k == "fifo":
                os.mkfifo(p, 0o600)
            elif k == "dir":
                os.makedirs(p, exist_ok=True)
            elif k == "symlink":
                os.symlink(spec["to"], p)
            elif k == "data":
                with open(p, "wb") as f:
                    f.write(bytes.fromhex(spec["hex"]))
                os.chmod(p, spec.get("mode", 0o644))
        else:
            with open(p, "wb") as f:
                f.write(bytes.fromhex(spec))


def snapshot_files(d, skip=()):
    out = {}
    for root, dirs, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            rel = os.path.relpath(p, d)
            if rel in skip:
                continue
            st = os.lstat(p)
            if (st.st_mode & 0o170000) == 0o100000:
                with open(p, "rb") as f:
                    out[rel] = (st.st_mode & 0o7777, f.read())
            else:
                out[rel] = (st.st_mode & 0o7777, st.st_mode & 0o170000)
    return out


def parse_trace(data, run):
    for line in data.split(b"\n"):
        if not line:
            continue
        t = line.decode("latin-1").split(" ")
        if t[0] == "argv":
            run.argv = t[1:]
        elif t[0] == "end":
            run.end = t[1]
        elif t[0] == "!harness":
            run.harness_error = " ".join(t[1:])
        elif t[0].isdigit():
            run.trace[int(t[0])] = t[1:]
            run.order.append(int(t[0]))
            run.last_idx = int(t[0])
        else:
            run.extra.append(line)


def execute(exe, case, base, tag, timeout=60, env_extra=None, keep_tdag=True):
    """tag: 'n' native, 't' tracked.  Runs in its own directory."""
    d = os.path.join(base, tag)
    w = os.path.join(d, "w")
    os.makedirs(w)
    write_files(w, case.get("files", {}))
    script = os.path.join(d, "script")
    with open(script, "w") as f:
        f.write("\n".join(case["script"]) + "\n")
    trace = os.path.join(d, "trace")
    tdag = os.path.join(d, case.get("db", "out.tdag"))
    env = dict(HERE_ENV)
    env.update({"PTVM_SCRIPT": script, "PTVM_TRACE": trace})
    if tag != "n":
        if "polydb" in case:  # exactly this value, relative to the working directory
            env["POLYDB"] = case["polydb"]
            tdag = os.path.join(w, case["polydb"] or "polytracker.tdag")
        elif not case.get("default_db"):
            env["POLYDB"] = tdag
        else:
            tdag = os.path.join(w, "polytracker.tdag")
        for k, v in case.get("env", {}).items():
            env[k] = v
        opts = []
        if case.get("nostrict"):
            opts.append("strict_data_dependencies=0")
        if opts:
            env["DFSAN_OPTIONS"] = ":".join(opts)
    if env_extra:
        env.update(env_extra)
    r = Run()
    r.dir = d
    r.cwd = w
    stdin_spec = case.get("stdin")
    stdin_kind = case.get("stdin_kind", "file")
    argv = [case.get("argv0", "prog")] + [bytes.fromhex(a) for a in case.get("argv", [])]
    of = open(os.path.join(d, "stdout"), "w+b")
    ef = open(os.path.join(d, "stderr"), "w+b")
    if stdin_spec is None:
        sin = subprocess.DEVNULL
    elif stdin_kind == "file":
        p = os.path.join(d, "stdin")
        with open(p, "wb") as f:
            f.write(bytes.fromhex(stdin_spec))
        sin = open(p, "rb")
    else:
        sin = subprocess.PIPE
    outs = {}
    if case.get("out_kind") == "pipe":
        so, se = subprocess.PIPE, subprocess.PIPE
    else:
        so, se = of, ef
    try:
        p = subprocess.Popen(argv, executable=exe, cwd=w, env=env, stdin=sin, stdout=so, stderr=se,
                             start_new_session=True, umask=0o022)
    except OSError as e:
        raise BuildError("cannot run %s: %s" % (exe, e))
    try:
        o, e = p.communicate(bytes.fromhex(stdin_spec) if sin == subprocess.PIPE else None, timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    r.rc = p.returncode
    if so is of:
        of.seek(0)
        ef.seek(0)
        o, e = of.read(), ef.read()
    of.close()
    ef.close()
    if hasattr(sin, "close"):
        sin.close()
    r.out, r.err = o, e
    if os.path.exists(trace):
        with open(trace, "rb") as f:
            parse_trace(f.read(), r)
    r.files = snapshot_files(w, skip=("polytracker.tdag", os.path.relpath(os.path.realpath(tdag), w)))
    r.tdag = tdag if tag != "n" and os.path.exists(tdag) else None
    return r


def case_dir():
    return tempfile.mkdtemp(dir=scratch())


_fn = None


def _call(x):
    return _fn(x)


def _worker_init(mem=0):
    if mem:  # code under test that eats memory fails instead of taking the machine down
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    for s in (signal.SIGTERM, signal.SIGINT):
        signal.signal(s, signal.SIG_DFL)


def pmap(fn, items, jobs=8, chunk=4, mem=0):
    """Ordered parallel map over worker processes (the monitors are CPU bound)."""
    global _fn
    scratch()
    _fn = fn
    items = list(items)
    ex = concurrent.futures.ProcessPoolExecutor(jobs, mp_context=multiprocessing.get_context("fork"), initializer=_worker_init, initargs=(mem,))
    try:
        yield from ex.map(_call, items, chunksize=max(1, min(chunk, len(items) // (jobs * 4) or 1)))
    finally:
        ex.shutdown(wait=True, cancel_futures=True)
