"""C27: the tools that make and compare ABI lists, run on generated libraries and lists.

The libraries are assembled from sources the generator wrote, so it knows which functions each one has;
the lists likewise."""
import hashlib
import os
import random
import re
import string
import subprocess
import sys

import runner
from driver import Check

SCRIPTS = os.path.join(runner.REPO, "polytracker", "scripts")
LIBC = ("ld-linux-x86-64.so.2 libanl.so.1 libBrokenLocale.so.1 libcidn.so.1 libcrypt.so.1 libc.so.6 libdl.so.2 libm.so.6 libnsl.so.1 "
        "libpthread.so.0 libresolv.so.2 librt.so.1 libthread_db.so.1 libutil.so.1").split()
WORDS = ("UND FUNC IFUNC LOCAL GLOBAL UNDO ROUND_FUND a z _Z3foov _ZN3abc3defEi operator.part.0 f.cold x1 dfs dfsw memcpy open fun uninstrumented discard").split()


def sh(*cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError("%s: %s" % (cmd[0], r.stdout.decode(errors="replace")[-1500:]))


def tool(name, *args, env=None, cwd=None):
    r = subprocess.run([sys.executable, os.path.join(SCRIPTS, name)] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300,
                       env=dict(runner.HERE_ENV, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", **(env or {})), cwd=cwd)
    return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")


class Maker:
    def __init__(self, rng, d):
        self.rng, self.d, self.n, self.used, self.stat = rng, d, 0, set(), {}

    def name(self):
        rng = self.rng
        while True:
            s = rng.choice(WORDS) if rng.random() < 0.4 else rng.choice(string.ascii_letters + "_") + "".join(rng.choice(string.ascii_letters + string.digits + "_.$") for _ in range(rng.choice([0, 3, 8, 25, 60, 200])))
            if "dfs$" in s or "dfsw$" in s or s in ("rax", "eax", "ax", "al", "cl"):
                continue
            # the prefixes an instrumented library has are not part of the functions' names
            if s not in self.used:
                self.used.add(s)
                return s

    def source(self, sections=False, needs=(), shared=False):
        """-> assembly, functions it defines for others"""
        rng, out, have = self.rng, [".text"], set()
        kinds = ["global"] * 6 + ["weak"] * 2 + ["hidden", "ifunc", "abs", "object", "none", "local", "local", "data"]
        for i in range(rng.choice([0, 1, 2, 5, 12, 40]) if not sections else 1100):
            s, k = self.name(), rng.choice(kinds)
            if shared and k == "ifunc":   # the linker does not mark small shared libraries as having one
                k = "global"
            q = '"%s"' % s
            size = rng.choice([0, 1, 7, 99, 100, 9999, 10000, 99999, 100000, 100001, 250000]) if not sections else 1
            self.stat[k] = self.stat.get(k, 0) + 1
            if size > 99999:
                self.stat["large"] = self.stat.get("large", 0) + 1
            if sections:
                out.append('.section .text.%d,"ax",@progbits' % i)
            if k in ("global", "weak", "hidden", "ifunc", "local"):
                out.append(".type %s,@%s" % (q, "gnu_indirect_function" if k == "ifunc" else "function"))
                if k != "local":
                    out.append(".%s %s" % ("weak" if k == "weak" else "globl", q))
                    have.add(s)
                if k == "hidden":
                    out.append(".hidden %s" % q)
                out.append("%s: .skip %d\n.size %s, %d" % (q, size, q, size))
            elif k == "abs":
                out.append(".globl %s\n.type %s,@function\n.set %s, %d" % (q, q, q, rng.randrange(1, 1 << 30)))
                have.add(s)
            else:
                if k == "data":
                    out.append(".data")
                out.append(".globl %s" % q)
                if k != "none":
                    out.append(".type %s,@object" % q)
                out.append("%s: .skip %d\n.size %s, %d" % (q, size, q, size))
                if k == "data":
                    out.append(".text")
        out.append(".text")
        for s in needs:
            out.append('call "%s"@PLT' % s)
        out.append('.section .note.GNU-stack,"",@progbits')
        return "\n".join(out) + "\n", have

    def obj(self, **kw):
        self.n += 1
        src, have = self.source(**kw)
        p = os.path.join(self.d, "m%d" % self.n)
        with open(p + ".s", "w") as f:
            f.write(src)
        sh("gcc", "-c", p + ".s", "-o", p + ".o")
        return p + ".o", have

    def shared(self, path, needs=(), deps=()):
        """The functions in its tables: those visible outside, and with its full table the hidden ones are local."""
        o, have = self.obj(needs=needs, shared=True)
        src = open(o[:-2] + ".s").read()
        have = {s for s in have if '.hidden "%s"\n' % s not in src}
        cmd = ["gcc", "-shared", "-nostdlib", "-Wl,--hash-style=gnu,-z,notext,--no-undefined", "-o", path, o] + list(deps)
        if self.rng.random() < 0.4 and have:
            v = os.path.join(self.d, "v%d" % self.n)
            with open(v, "w") as f:
                f.write("VERS_1 { global: *; };\n")
            cmd.append("-Wl,--version-script=" + v)
            self.stat["versioned"] = self.stat.get("versioned", 0) + 1
        if self.rng.random() < 0.5:
            cmd.append("-s")
        sh(*cmd)
        return have

    def lib(self, path):
        """A library of some kind at path -> its functions"""
        k = self.rng.choice(["object", "object", "archive", "archive", "shared"])
        self.stat["lib_" + k] = self.stat.get("lib_" + k, 0) + 1
        if k == "shared":
            return self.shared(path)
        if k == "object":
            o, have = self.obj(sections=self.rng.random() < 0.03)
            os.rename(o, path)
            return have
        os_, all_ = [], set()
        for _ in range(self.rng.randint(1, 4)):
            o, have = self.obj()
            os_.append(o)
            all_ |= have
        sh("ar", "rcD", path, *os_)
        return all_


def want_lines(names, discard=True):
    out = []
    for s in sorted(names):
        out.append("fun:%s=uninstrumented" % s)
        if discard:
            out.append("fun:%s=discard" % s)
    return out


def differs(what, got, want):
    g, w = [l for l in got if l.strip()], want
    if g == w:
        return []
    more, less = [l for l in g if l not in set(w)], [l for l in w if l not in set(g)]
    return ["%s: %d lines for %d; not wanted %r, missing %r%s" % (what, len(g), len(w), more[:3], less[:3], "" if more or less else " (order or repetition)")]


def stublist(rng, d, stat):
    m = Maker(rng, d)
    p = os.path.join(d, "lib")
    have = m.lib(p)
    if rng.random() < 0.1:
        os.unlink(p)
        have = set()
        rc, out, err = tool("create_stublist.py", p)
        V = differs("a library that does not exist", out.split("\n"), [])
        if p not in err:
            V.append("a library that does not exist is not reported")
    else:
        rc, out, err = tool("create_stublist.py", p)
        V = differs("the list of a library", out.split("\n"), want_lines(have))
    if rc:
        V.append("listing a library failed: %s" % err[-300:])
    for k, v in m.stat.items():
        stat[k] = stat.get(k, 0) + v
    stat["functions"] = len(have)
    return V


def broken(rng, d, stat):
    p = os.path.join(d, "lib")
    with open(p, "wb") as f:
        f.write(bytes(rng.randrange(256) for _ in range(rng.choice([1, 40, 300]))))
    rc, out, err = tool("create_stublist.py", p)
    if rc == 0 and out.strip():
        return ["a file that is no library yields %r" % out[:100]]
    return []


def libc(rng, d, stat):
    m = Maker(rng, d)
    dirs = {}
    for k in ("libc-dso-path", "libc-archive-path", "libgcc-dso-path", "libgcc-archive-path", "libstdcxx-dso-path"):
        dirs[k] = os.path.join(d, k)
        os.mkdir(dirs[k])
    have, there, absent = set(), [], []
    cxx = rng.random() < 0.5
    places = [("libc-dso-path", n) for n in LIBC] + [("libc-archive-path", "libc_nonshared.a"), ("libc-archive-path", "libpthread_nonshared.a"),
                                                      ("libgcc-dso-path", "libgcc_s.so.1"), ("libgcc-archive-path", "libgcc.a"), ("libstdcxx-dso-path", "libstdc++.so.6")]
    # a library in a place where it is not looked for counts for nothing
    for k, n in places:
        p = os.path.join(dirs[k], n)
        if rng.random() < 0.35:
            got = m.lib(p)
            if n != "libstdc++.so.6" or cxx:
                have |= got
                there.append(p)
        elif n != "libstdc++.so.6" or cxx:
            absent.append(p)
    m.lib(os.path.join(dirs["libc-dso-path"], "libother.so.1"))
    rc, out, err = tool("build_lib.py", *(["--%s=%s" % kv for kv in dirs.items()] + (["--with-libstdcxx"] if cxx else [])))
    V = differs("the list of the system's libraries", out.split("\n"), want_lines(have, discard=False))
    if rc:
        V.append("listing the system's libraries failed: %s" % err[-300:])
    for p in absent:
        if p not in err:
            V.append("%s is missing and not reported" % p)
    for p in there:
        if p in err:
            V.append("%s is there and reported: %s" % (p, err[-200:]))
    stat["libraries"] = len(there)
    stat["functions"] = len(have)
    return V


def tracklist(rng, d, stat):
    m = Maker(rng, d)
    dep, abi, lib = (os.path.join(d, n) for n in ("libdep.so", "libabi.so", "libcxx.so"))
    dep_f, abi_f = m.shared(dep), m.shared(abi)
    callable_ = sorted(dep_f | abi_f)
    needs = rng.sample(callable_, rng.randint(0, min(6, len(callable_))))
    m.shared(lib, needs=needs, deps=[dep, abi])
    rc, out, err = tool("libcxx_tracklist.py", lib, abi)
    if rc:
        return ["listing two libraries failed: %s" % err[-300:]]
    parts, cur = [], None
    for l in out.split("\n"):
        if l.startswith("##"):
            cur = []
            parts.append(cur)
        elif l.strip():
            if cur is None:
                return ["a line before any heading: %r" % l]
            cur.append(l)
    if len(parts) != 2:
        return ["%d parts instead of two: %r" % (len(parts), out[:200])]
    stat["needed_functions"] = len(needs)
    return differs("functions not in the library", parts[0], want_lines(set(needs) | abi_f)) + differs("functions of the second library", parts[1], want_lines(abi_f))


# ---- lists
ATTRS = ["discard", "functional", "custom"]


def make_list(rng, names, clean):
    """-> text lines, {function: treatments in order, without uninstrumented}"""
    lines, has = [], {}
    for s in names:
        ent = []
        if rng.random() < 0.5:
            ent.append("uninstrumented")
        r = rng.random()
        n = 0 if r < 0.15 else 1 if r < 0.9 or clean else rng.randint(2, 3)
        ent += [rng.choice(ATTRS) for _ in range(n)]
        rng.shuffle(ent)
        if rng.random() < 0.1:
            ent.append("uninstrumented")
        for a in ent:
            lines.append((s, "fun:%s=%s" % (s, a)))
            if a != "uninstrumented":
                has.setdefault(s, []).append(a)
    rng.shuffle(lines)
    has = {}
    for s, l in lines:
        a = l.rsplit("=", 1)[1]
        if a != "uninstrumented":
            has.setdefault(s, []).append(a)
    out = []
    for s, l in lines:
        if rng.random() < 0.1:
            out.append(rng.choice(["", "# a remark", "#fun:%s=custom" % s, "####### PART ######", "src:/usr/include/*.h", "[dataflow]"][:4]))
        out.append(l)
    return out, has


def names_for(rng):
    m = Maker(rng, None)
    pool = [m.name() for _ in range(rng.choice([1, 3, 8, 20]))]
    pool += [s + "x" for s in pool[:2] if s + "x" not in pool] + [s[:-1] for s in pool[:2] if len(s) > 1 and s[:-1] not in pool]
    pool = list(dict.fromkeys(pool))
    return rng.sample(pool, rng.randint(0, len(pool))), rng.sample(pool, rng.randint(0, len(pool)))


def put(d, name, lines, rng):
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write("\n".join(lines) + ("\n" if lines and rng.random() < 0.9 else ""))
    return p


def list_diff(rng, d, stat):
    a, b = names_for(rng)
    la, ha = make_list(rng, a, False)
    lb, hb = make_list(rng, b, False)
    pa, pb = put(d, "one", la, rng), put(d, "two", lb, rng)
    rc, out, err = tool("list_diff.py", pa, pb)
    known = {re.match(r"fun:(.*)=", l).group(1) for l in la if l.startswith("fun:")}
    want = [l for l in lb if l.startswith("fun:") and re.match(r"fun:(.*)=", l).group(1) not in known]
    stat["entries_only_in_second"] = len(want)
    V = differs("entries only in the second list", [l for l in out.split("\n") if l.startswith("fun:")], want)
    if rc:
        V.append("comparing two lists failed: %s" % err[-300:])
    for p, l in ((pa, la), (pb, lb)):
        if open(p).read().rstrip("\n") != "\n".join(l).rstrip("\n"):
            V.append("comparing two lists changed one")
    return V


def conflicts(rng, d, stat):
    a, b = names_for(rng)
    clean = rng.random() < 0.5
    la, ha = make_list(rng, a, clean)
    lb, hb = make_list(rng, b, clean)
    if rng.random() < 0.3:
        # agree on everything both treat
        lb = ["fun:%s=%s" % (s, ha[s][0]) if (s in ha) and l.startswith("fun:") and not l.endswith("=uninstrumented") else l
              for l in lb for s in [re.match(r"fun:(.*)=|", l).group(1)]]
        hb = {s: ([ha[s][0]] * len(v) if s in ha else v) for s, v in hb.items()}
    pa, pb = put(d, "one", la, rng), put(d, "two", lb, rng)
    before = {p: open(p).read() for p in (pa, pb)}
    inner = [{s for s, v in h.items() if len(v) > 1} for h in (ha, hb)]
    across = {s for s in ha if s in hb and len(ha[s]) == 1 and len(hb[s]) == 1 and ha[s] != hb[s]}
    sure = lambda s: len(ha.get(s, "1")) == 1 and len(hb.get(s, "1")) == 1
    stat["conflicts_across"], stat["conflicts_within"] = len(across), len(inner[0] | inner[1])
    rc, out, err = tool("track_list_diff.py", "-f1", pa, "-f2", pb)
    V = []
    if "Traceback" in err:
        return ["looking for conflicts failed: %s" % err[-300:]]
    sect, got = None, {"FILE 1": {}, "FILE 2": {}, "DIFF": {}}
    for l in out.split("\n"):
        h = re.match(r"=+ (FILE 1|FILE 2|DIFF) CONFLICTS =+$", l)
        if h:
            sect = h.group(1)
        elif l.strip():
            if sect is None:
                return ["a line before any heading: %r" % l]
            mm = re.match(r"FILE: (.*), CONFLICT:(.*)$", l)
            got[sect][mm.group(1) if mm else l] = mm.group(2) if mm else ""
    for k, want, h in (("FILE 1", inner[0], ha), ("FILE 2", inner[1], hb)):
        if set(got[k]) != want:
            V.append("conflicts within list %s: %r instead of %r" % (k[-1], sorted(got[k])[:4], sorted(want)[:4]))
        for s in want & set(got[k]):
            if len(h[s]) == 2 and ("Multiple" in got[k][s]) != (h[s][0] != h[s][1]):
                V.append("%s treated as %r is reported as %r" % (s, h[s], got[k][s]))
    d_ = {s for s in got["DIFF"] if sure(s)}
    if d_ != across or not set(got["DIFF"]) <= set(ha) & set(hb):
        V.append("conflicts between the lists: %r instead of %r" % (sorted(d_)[:4], sorted(across)[:4]))
    some = bool(inner[0] or inner[1] or got["DIFF"])
    if rc != (1 if some else 0):
        V.append("exit status %d with %s conflicts" % (rc, "some" if some else "no"))
    for p in before:
        if open(p).read() != before[p]:
            V.append("looking for conflicts changed a list")
    # let one of them decide
    which = rng.choice([1, 2])
    keep, other, lo = (pa, pb, lb) if which == 1 else (pb, pa, la)
    rc, out, err = tool("track_list_diff.py", "-f1", pa, "-f2", pb, "-cf", str(which))
    if rc:
        V.append("resolving conflicts gives exit status %d: %s" % (rc, err[-200:]))
    if open(keep).read() != before[keep]:
        V.append("resolving conflicts changed the list that decides")
    new, old = open(other).read().split("\n"), before[other].split("\n")
    if len(new) != len(old):
        V.append("resolving conflicts makes %d lines of %d" % (len(new), len(old)))
    else:
        for n, o in zip(new, old):
            mm = re.match(r"fun:(.*)=(.*)$", o)
            s = mm.group(1) if mm else None
            if s is not None and s in ha and s in hb and (not sure(s) or s in across and mm.group(2) == "uninstrumented"):
                ok = n.lstrip("#") == o
            elif s in across:
                ok = n != o and n.startswith("#") and n.lstrip("#").strip() == o
            else:
                ok = n == o
            if not ok:
                V.append("resolving conflicts makes %r of %r" % (n, o))
                break
    rc, out, err = tool("track_list_diff.py", "-f1", pa, "-f2", pb)
    left = {l for l in out.split("DIFF CONFLICTS")[-1].split("\n")} & across if "DIFF CONFLICTS" in out else set()
    if left:
        V.append("conflicts left after resolving them: %r" % sorted(left)[:4])
    return V


def link(rng, d, stat):
    bin_ = os.path.join(d, "bin")
    os.mkdir(bin_)
    rc_want = rng.choice([0, 0, 1, 3])
    with open(os.path.join(bin_, "llvm-link"), "w") as f:
        f.write('#!/bin/sh\necho run >> %s/runs\nfor a in "$@"; do printf "%%s\\0" "$a" >> %s/args; done\nexit %d\n' % (d, d, rc_want))
    os.chmod(os.path.join(bin_, "llvm-link"), 0o755)
    args = [rng.choice(["a.bc", "b c.bc", "-o", "out.bc", "*", "$HOME", "--override", "x'y", "", "-v"]) for _ in range(rng.randint(0, 6))]
    rc, out, err = tool("poly-link.py", *args, env={"PATH": bin_ + ":" + runner.HERE_ENV["PATH"]}, cwd=d)
    V = []
    got = open(os.path.join(d, "args"), "rb").read().decode().split("\0")[:-1] if os.path.exists(os.path.join(d, "args")) else []
    runs = open(os.path.join(d, "runs")).read().split() if os.path.exists(os.path.join(d, "runs")) else []
    if len(runs) != 1:
        V.append("the linker is run %d times" % len(runs))
    if "--only-needed" not in got or [a for a in got if a != "--only-needed"] != args:
        V.append("the linker is given %r for %r" % (got, args))
    if (rc == 0) != (rc_want == 0):
        V.append("the linker exits with %d, poly-link with %d" % (rc_want, rc))
    return V


KINDS = dict(stublist=stublist, libc=libc, tracklist=tracklist, list_diff=list_diff, conflicts=conflicts, link=link, broken=broken)
WEIGHTS = dict(stublist=6, libc=2, tracklist=3, list_diff=4, conflicts=8, link=1, broken=1)


def _one(job):
    kind, seed = job
    rng, stat = random.Random("%s %d" % (kind, seed)), {}
    d = runner.case_dir()
    V = KINDS[kind](rng, d, stat)
    return job, V, stat, hashlib.sha1(repr((kind, sorted(stat.items()), seed if any(stat.values()) else 0)).encode()).hexdigest()[:12]


def run(prop, replay=None):
    ck = Check(prop)
    ck.rule = ("A case is one generated library, set of libraries or pair of lists given to one of the tools. Cases count as different if they are of different kinds or, "
               "being of one kind, have functions, conflicts or entries to report and come from different seeds.")
    ck.assumptions = ["libraries are ELF files made by gcc and read by binutils", "poly-link runs a stand-in for llvm-link"]
    if replay:
        jobs = [tuple(replay["job"])]
    else:
        n = ck.n(25, 400)
        jobs = [(k, ck.seed * 100000 + i) for k, w in WEIGHTS.items() for i in range(w * n)]
        random.Random(ck.seed).shuffle(jobs)
    for job, V, stat, fp in runner.pmap(_one, jobs, chunk=4):
        ck.evaluations += 1
        ck.distinct.add(fp)
        ck.count(job[0])
        for k, v in stat.items():
            ck.count("seen_" + k, v)
        ck.sample(dict(job=list(job), seen=stat))
        for t in V[:2]:
            ck.violation("%s %d: %s" % (job[0], job[1], t), dict(job=list(job)))
        if len(ck.violations) >= 8:
            break
    ck.finish()
