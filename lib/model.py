"""Trace monitor: replays the event log of a tracked run against an independent
model of what every byte's taint must be.

Denotations are bit sets of (source, offset) pairs.  The model never looks at
label numbers to decide what a label should mean: it keeps, for every byte of
program memory and every register, the set of input bytes it must stand for, and
compares it with what the label observed in shadow memory stands for according to
the label table in the finished file.
"""
from collections import Counter

import tdag as T

POISON = 0x7EADBEEF
U64 = (1 << 64) - 1
ANY = object()


class Violation:
    def __init__(self, prop, what, idx=None, line=None, kind=""):
        self.prop, self.what, self.idx, self.line, self.kind = prop, what, idx, line, kind

    def text(self):
        s = self.what
        if self.idx is not None:
            s = "step %d `%s`: %s" % (self.idx, (self.line or "")[:120], s)
        return s


class Tok:
    __slots__ = ("ret", "label", "raw", "err", "pb", "pa", "fds", "mem", "lab", "slots", "kv", "skip", "name", "b")

    def __init__(self, toks):
        self.ret = self.label = self.raw = self.err = self.pb = self.pa = self.name = self.b = None
        self.fds = []
        self.mem = []
        self.lab = []
        self.slots = []
        self.kv = {}
        self.skip = False
        for t in toks:
            c = t[0] if t else ""
            if c == "=":
                self.ret = t[1:]
            elif c == "^":
                self.label = int(t[1:])
            elif c == "R":
                self.raw = int(t[1:], 16)
            elif c == "<":
                self.pb = int(t[1:])
            elif c == ">":
                self.pa = int(t[1:])
            elif t == "skip":
                self.skip = True
            elif t.startswith("name:"):
                self.name = t[5:]
            elif t.startswith("b:"):
                self.b = t[2:]
            elif c == "m" and ":" in t:
                k, h = t[1:].split(":")
                k, o = k.split("+")
                self.mem.append((int(k), int(o), bytes.fromhex(h)))
            elif c == "l" and ":" in t:
                k, h = t[1:].split(":")
                k, o = k.split("+")
                self.lab.append((int(k), int(o), [int(x) for x in h.split(",")]))
            elif c == "s" and ":" in t:
                k, n, pr, h, ls = t[1:].split(":")
                n = int(n)
                self.slots.append((int(k), n, int(pr), bytes.fromhex(h),
                                   [int(x) for x in ls.split(",")] if ls else [0] * n))
            elif t.startswith("fd"):
                self.fds.append(int(t[2:]))
            elif c == "e" and t[1:].lstrip("-").isdigit():
                self.err = int(t[1:])
            else:
                i = 0
                while i < len(t) and (t[i].isalpha() or t[i] == "_"):
                    i += 1
                if i and i < len(t):
                    self.kv[t[:i]] = t[i:]

    def iret(self):
        return int(self.ret)


class Slot:
    __slots__ = ("n", "probe", "mem", "lab", "den")

    def __init__(self, n, probe, mem, lab, den):
        self.n, self.probe = n, probe
        self.mem = bytearray(mem) + bytearray(max(0, n - len(mem)))
        self.lab, self.den = lab, den


class Model:
    def __init__(self, case, run, td, finished=True):
        self.case, self.run, self.td = case, run, td
        self.finished = finished
        self.nbad = {}
        self.V = []
        self.slots = {}
        self.regs = {}
        self.fdnum = {}
        self.fpnum = {"stdin": 0, "stdout": 1, "stderr": 2}
        self.sources = []     # (name, allowed sizes, fd)
        self.fdsrc = {}
        self.rd_off = Counter()
        self.wr_off = Counter()
        self.delivered = 0    # mask of source bytes handed to the program
        self.sinks = []
        self.branched = []
        self.cflog = []
        self.fnames = []
        self.fidx = {}
        self.events = []
        self.fixreg = {}
        self.handed = {}      # label -> raw record first seen
        self.cov = Counter()
        self.checked_bytes = 0
        self.shapes = set()
        self.maxlabel = 0
        self.strict = not case.get("nostrict")
        self.idx = self.line = None
        self.nl = td.nlabels()

    # ------------------------------------------------------------ helpers
    def bad(self, prop, what, kind=""):
        for p in prop.split(","):
            n = self.nbad[p] = self.nbad.get(p, 0) + 1
            if n <= 40:
                self.V.append(Violation(p, what, self.idx, self.line, kind))

    def den(self, label, prop):
        if label == 0:
            return 0
        if label == POISON or label >= self.nl:
            self.bad(prop, "label %d was never created (the file holds %d)" % (label, self.nl), "dangling")
            return 0
        if label > self.maxlabel:
            self.maxlabel = label
        try:
            return self.td.denote(label)
        except T.Malformed as e:
            self.bad("C01", str(e), "malformed")
            return 0

    def bit(self, src, off):
        return self.td.bit(src, off)

    def show(self, allowed):
        if len(self.V) > 200:
            return "..."
        if not isinstance(allowed, tuple):
            allowed = (allowed,)
        return " or ".join("{%s}" % ", ".join("src%d[%d]" % tuple(x) if x != "..." else x
                                              for x in self.td.explain(a)) for a in allowed)

    @staticmethod
    def ok(allowed, got):
        return got in allowed if isinstance(allowed, tuple) else got == allowed

    def sc(self, s):
        if s.startswith("r"):
            return self.regs.get(int(s[1:]), (0, 0, 0))
        return (int(s, 0), 0, 0)

    def ptr(self, s):
        if s == "null":
            return None
        at = s.split("@")
        k, _, o = at[0][1:].partition("+")
        d = self.regs.get(int(at[1][1:]), (0, 0, 0))[2] if len(at) > 1 else 0
        return (int(k), int(o or 0), d)

    def cstr(self, p):
        s = self.slots[p[0]].mem
        e = s.find(0, p[1])
        return bytes(s[p[1]:e if e >= 0 else len(s)])

    def post(self, k, off, n):
        b = bytearray(self.slots[k].mem[off:off + n])
        for (kk, o, h) in self.tok.mem:
            if kk == k:
                for i, c in enumerate(h):
                    if off <= o + i < off + n:
                        b[o + i - off] = c
        return bytes(b)

    def udens(self, p, n, start=0):
        d = 0
        s = self.slots[p[0]].den
        for i in range(start, n):
            d |= s[p[1] + i]
        return d

    def expect(self, k, off, dens):
        for i, d in enumerate(dens):
            self.pend[(k, off + i)] = d

    def src_of(self, fd):
        return self.fdsrc.get(fd)

    def add_source(self, name, sizes, fd):
        self.sources.append((name, sizes, fd))
        if len(self.sources) <= 255:
            if fd >= 0:
                self.fdsrc[fd] = len(self.sources) - 1
            return len(self.sources) - 1
        self.sources.pop()
        self.dropped = True
        return None

    # ------------------------------------------------------------ driver
    def start(self):
        env = self.case.get("env", {})
        if self.run.argv is None:
            return
        if env.get("POLYTRACKER_STDOUT_SINK") == "1" and not self.case.get("no_start"):
            self.add_source(b"/dev/stdout", None, 1)
        if env.get("POLYTRACKER_STDERR_SINK") == "1" and not self.case.get("no_start"):
            self.add_source(b"/dev/stderr", None, 2)
        if env.get("POLYTRACKER_STDIN_SOURCE") == "1" and not self.case.get("no_start"):
            si = self.case.get("stdin")
            sizes = None
            if si is not None:
                sizes = (len(si) // 2,) if self.case.get("stdin_kind", "file") == "file" else (U64,)
            self.add_source(b"/dev/stdin", sizes, 0)
        tok = self.tok = Tok(self.run.argv)
        tainted = env.get("POLYTRACKER_TAINT_ARGV", "0")[:1] == "1" and not self.case.get("no_start")
        self.idx, self.line = None, "start"
        n = 1 + len(self.case.get("argv", []))
        idx = {}
        if tainted:
            for i in range(n):
                idx[i] = self.add_source(b"argv[%d]" % i, (U64,), -1)
        for (k, sn, pr, mem, lab) in tok.slots:
            i = k - 40
            exp = [0] * sn
            if tainted and idx[i] is not None:
                for j in range(sn - 1):
                    exp[j] = self.bit(idx[i], j)
                    self.delivered |= exp[j]
            for j in range(sn):
                got = self.den(lab[j], "C03")
                if j == sn - 1:
                    exp[j] = got if got in (0,) else 0
                self.checked_bytes += 1
                if got != exp[j]:
                    self.bad("C03,C08", "argument %d byte %d stands for %s, expected %s" % (i, j, self.show(got), self.show(exp[j])), "argv")
                    exp[j] = got
            self.slots[k] = Slot(sn, pr, mem, lab, exp)
        if tainted and n > len(tok.slots):
            for i in range(len(tok.slots), n):
                for j in range(len(self.case["argv"][i - 1]) // 2):
                    self.delivered |= self.bit(idx[i], j)

    def go(self):
        self.start()
        script = self.case["script"]
        for i in self.run.order:
            line = script[i]
            self.idx, self.line = i, line
            a = line.split()
            tok = self.tok = Tok(self.run.trace[i])
            if i == self.run.last_idx and self.run.end is None:
                break  # the call never returned
            self.pend = {}
            self.newslots = {}
            self.rexp = ANY
            self.rprop = self.mprop = "C06"
            self.cov[a[0]] += 1
            if tok.skip:
                continue
            f = getattr(self, "op_" + a[0], None)
            if f:
                f(a[1:], tok)
            self.settle(a, tok)
        self.idx = self.line = None
        if self.finished:
            self.final()
        return self.V

    DEST = {"ld", "imm", "mov", "uload", "rdl", "u", "ua", "ut", "tcf", "fe", "fes", "recv", "recvfrom", "send", "read",
            "pread", "pread64", "fread", "fread_unlocked", "fgetc", "fgetc_unlocked", "getc", "getc_unlocked", "_IO_getc",
            "getchar", "getchar_unlocked", "fgets", "gets", "getdelim", "__getdelim", "write", "fwrite", "putc", "fputc", "_putc",
            "strcat", "memcpy", "memmove", "strncpy", "memset", "strcpy", "memcmp", "strncmp", "strncasecmp", "bcmp",
            "strcmp", "strcasecmp", "strlen", "strchr", "strrchr", "memchr", "strstr", "strpbrk", "strtol", "strtoll",
            "strtoul", "strtoull", "strtod", "snprintf", "stat", "fstat", "gettimeofday", "clock_gettime", "time",
            "ctime_r", "localtime_r", "inet_pton", "getcwd", "getrlimit", "getrusage", "gethostname", "sigemptyset",
            "poll", "select", "recvmsg", "thread", "sigaction", "fork", "stackread", "sysfill"}

    def settle(self, a, tok):
        # slots announced by this step
        for (k, n, pr, mem, lab) in tok.slots:
            exp = self.newslots.get(k)
            s = Slot(n, pr, mem, lab, [0] * n)
            for j in range(n):
                got = self.den(lab[j], self.mprop)
                e = exp[j] if exp is not None and j < len(exp) else ANY
                if e is ANY:
                    s.den[j] = got
                    continue
                self.checked_bytes += 1
                if not self.ok(e, got):
                    self.bad(self.mprop, "byte %d of the new block stands for %s, expected %s" % (j, self.show(got), self.show(e)), a[0] + ":mem")
                s.den[j] = got
            self.slots[k] = s
        # memory contents
        for (k, o, h) in tok.mem:
            if k in self.slots:
                self.slots[k].mem[o:o + len(h)] = h
        # labels
        touched = dict(self.pend)
        for (k, o, ls) in tok.lab:
            if k not in self.slots:
                continue
            s = self.slots[k]
            for i, l in enumerate(ls):
                s.lab[o + i] = l
                if (k, o + i) not in touched:
                    touched[(k, o + i)] = s.den[o + i]  # not supposed to change
        for (k, o), e in touched.items():
            s = self.slots.get(k)
            if s is None or o >= s.n:
                continue
            got = self.den(s.lab[o], self.mprop)
            if e is not ANY:
                self.checked_bytes += 1
                if not self.ok(e, got):
                    self.bad(self.mprop, "byte s%d+%d stands for %s, expected %s" % (k, o, self.show(got), self.show(e)), a[0] + ":mem")
            s.den[o] = got
        # result
        if tok.label is not None:
            if tok.label == POISON:
                if self.rexp is not None:
                    self.bad(self.rprop, "the result's label was not set", a[0] + ":unset")
                got = 0
            else:
                got = self.den(tok.label, self.rprop)
                if self.rexp is not ANY and self.rexp is not None:
                    self.checked_bytes += 1
                    if not self.ok(self.rexp, got):
                        self.bad(self.rprop, "the result stands for %s, expected %s" % (self.show(got), self.show(self.rexp)), a[0] + ":ret")
            if tok.raw is not None and tok.raw and tok.label < self.nl:
                fin = self.td.raw(tok.label)
                if (fin & ~T.CF_BIT) != (tok.raw & ~T.CF_BIT):
                    self.bad("C01", "label %d was recorded as %#x and later became %#x" % (tok.label, tok.raw, fin), "mutated")
            lab = tok.label if tok.label != POISON else 0
        else:
            got, lab = 0, 0
        if a[0] in self.DEST and a[1] != "_" and tok.ret is not None:
            v = tok.ret
            try:
                v = int(v)
            except ValueError:
                v = 0 if v == "null" else 1
            if a[0] in ("fe", "fes"):
                v = 0
            self.regs[int(a[1][1:])] = (v, lab, got)

    # ------------------------------------------------------------ memory
    def op_buf(self, a, t):
        pass

    op_bufl = op_buf

    def op_st(self, a, t):
        p = self.ptr(a[0])
        self.mprop = "C06"
        self.expect(p[0], p[1], [self.sc(a[1])[2]])

    def op_ld(self, a, t):
        p = self.ptr(a[1])
        self.rexp = self.slots[p[0]].den[p[1]]

    def op_imm(self, a, t):
        self.rexp = 0

    def op_mov(self, a, t):
        self.rexp = self.sc(a[2])[2]

    def op_uload(self, a, t):
        self.rprop = "C06,C01"
        self.rexp = self.udens(self.ptr(a[1]), int(a[2]))

    def op_rdl(self, a, t):
        self.rprop = "C06,C01"
        self.rexp = self.udens(self.ptr(a[1]), int(a[2]))

    def op_setl(self, a, t):
        p = self.ptr(a[0])
        self.expect(p[0], p[1], [self.sc(a[2])[2]] * int(a[1]))

    def op_addl(self, a, t):
        p = self.ptr(a[0])
        d = self.sc(a[2])[2]
        self.mprop = "C06,C01"
        self.expect(p[0], p[1], [x | d for x in self.slots[p[0]].den[p[1]:p[1] + int(a[1])]])

    def shape(self, l):
        if l == 0:
            return "0"
        try:
            return self.td.decode(self.td.raw(l))[0]
        except T.Malformed:
            return "?"

    def op_u(self, a, t):
        x, y = self.sc(a[1]), self.sc(a[2])
        self.rprop = "C01"
        self.rexp = x[2] | y[2]
        k1, k2 = self.shape(x[1]), self.shape(y[1])
        rel = "eq" if x[1] == y[1] else "adj+" if y[1] == x[1] + 1 else "adj-" if x[1] == y[1] + 1 else "lt" if x[1] < y[1] else "gt"
        ov = "disj" if not x[2] & y[2] else "same" if x[2] == y[2] else "sub" if x[2] | y[2] in (x[2], y[2]) else "over"
        res = "old" if t.label is not None and t.label <= max(x[1], y[1]) else self.shape(t.label) if t.label is not None and t.label < self.nl else "?"
        self.shapes.add((k1, k2, rel, ov, res))

    op_ua = op_ut = op_u

    # ------------------------------------------------------------ control flow
    def op_br(self, a, t):
        l = self.sc(a[0])[1]
        if l:
            self.branched.append(l)

    op_brw = op_br

    def op_tcf(self, a, t):
        x = self.sc(a[1])
        self.rprop = "C11"
        self.rexp = x[2]
        if t.iret() != x[0]:
            self.bad("C11,C05", "the logged condition came back as %d, it was %d" % (t.iret(), x[0]), "tcf:val")
        if x[1]:
            self.cflog.append((2, int(a[2], 0) & 0xFFFFFFFF, x[1]))

    def op_ent(self, a, t):
        self.cflog.append((0, int(a[0], 0) & 0xFFFFFFFF))

    def op_lev(self, a, t):
        self.cflog.append((1, int(a[0], 0) & 0xFFFFFFFF))

    def op_fe(self, a, t):
        n = bytes.fromhex(a[1][1:])
        if n not in self.fidx:
            self.fidx[n] = len(self.fnames)
            self.fnames.append(n)
        if t.iret() != self.fidx[n]:
            self.bad("C11", "function %r got index %d, expected %d" % (n, t.iret(), self.fidx[n]), "fe:index")
        self.events.append((0, self.fidx[n]))
        self.fixreg[a[0]] = self.fidx[n]

    op_fes = op_fe

    def op_fx(self, a, t):
        self.events.append((1, (self.fixreg[a[0]] if a[0].startswith("r") else int(a[0])) & 0xFFFF))

    # ------------------------------------------------------------ descriptors
    def fd(self, s):
        return self.fdnum.get(int(s[1:]), -1) if s.startswith("f") else int(s)

    def op_open(self, a, t):
        self.rexp, self.rprop = 0, "C03"
        self.fdnum[int(a[0][1:])] = t.fds[0]
        if t.ret == "1":
            z = int(t.kv.get("z", -1))
            self.add_source(bytes.fromhex(a[1][1:]), (z if z >= 0 else U64,), t.fds[0])

    op_open64 = op_open

    def op_openat(self, a, t):
        self.rexp, self.rprop = 0, "C03"
        self.fdnum[int(a[0][1:])] = t.fds[0]
        if t.ret == "1":
            z = int(t.kv.get("z", -1))
            sizes = (z if z >= 0 else U64,)
            self.add_source(bytes.fromhex(a[2][1:]), sizes, t.fds[0])

    def op_fopen(self, a, t):
        if t.label is not None:
            self.rexp, self.rprop = 0, "C03"
        if t.ret == "1":
            z = int(t.kv.get("z", -1))
            self.add_source(bytes.fromhex(a[1][1:]), (z if z >= 0 else U64,), t.fds[0])

    op_fopen64 = op_fopen

    def op_close(self, a, t):
        self.rexp, self.rprop = 0, "C03"
        self.fdsrc.pop(t.fds[0], None)

    op_fclose = op_close

    def op_pipe(self, a, t):
        self.fdnum[int(a[0][1:])], self.fdnum[int(a[1][1:])] = t.fds

    op_unix = op_pipe

    def op_dup(self, a, t):
        self.fdnum[int(a[0][1:])] = t.fds[0]

    def op_connect(self, a, t):
        self.rexp, self.rprop = 0, "C03"
        self.fdnum[int(a[0][1:])] = t.fds[0]
        if t.name and t.ret == "0":
            self.add_source(t.name.encode(), (U64,), t.fds[0])

    op_connectbad = op_connect

    def op_udp(self, a, t):
        self.rexp, self.rprop = 0, "C03"
        self.fdnum[int(a[0][1:])], self.fdnum[int(a[1][1:])] = t.fds
        if t.name and t.ret == "0":
            self.add_source(t.name.encode(), (U64,), t.fds[0])

    def op_otherconn(self, a, t):  # only internet connections are sources
        self.rprop = "C03"
        if len(t.fds) < 2:
            return
        self.rexp = 0
        self.fdnum[int(a[0][1:])], self.fdnum[int(a[1][1:])] = t.fds
        if t.kv.get("accl", "0") != "0":
            self.bad("C03", "the accepted descriptor carries label %s" % t.kv["accl"], "accept:label")

    def op_accept(self, a, t):
        self.rexp, self.rprop = 0, "C03"
        self.fdnum[int(a[0][1:])] = t.fds[0]
        if t.name and t.ret == "1":
            self.add_source(t.name.encode(), (U64,), t.fds[0])

    op_acceptdead = op_accept

    # ------------------------------------------------------------ input
    def source_dens(self, fd, off, n, stream_advance=True):
        """Denotations of n bytes from fd at off (None: position unknown)."""
        s = self.src_of(fd)
        if s is None:
            return [0] * n
        if off is None:
            off = self.rd_off[s]
            if stream_advance:
                self.rd_off[s] += n
        out = [self.bit(s, off + i) for i in range(n)]
        for d in out:
            self.delivered |= d
        return out

    def op_read(self, a, t):
        self.mprop = self.rprop = "C03"
        self.rexp = 0
        n = t.iret()
        if n > 0:
            p = self.ptr(a[2])
            self.expect(p[0], p[1], self.source_dens(t.fds[0], t.pb if t.pb >= 0 else None, n))

    def op_pread(self, a, t):
        self.mprop = self.rprop = "C03"
        self.rexp = 0
        n = t.iret()
        if n > 0:
            p = self.ptr(a[2])
            self.expect(p[0], p[1], self.source_dens(t.fds[0], self.sc(a[4])[0], n))

    op_pread64 = op_pread

    def op_stackread(self, a, t):
        self.mprop = self.rprop = "C03"
        self.rexp = 0
        n = t.iret()
        exp = self.source_dens(t.fds[0], t.pb if t.pb >= 0 else None, n) if n > 0 else []
        got = [0] * 256
        for x in (t.b or "").split(","):
            if x:
                i, l = x.split("=")
                got[int(i)] = self.den(int(l), "C03")
        exp += [0] * (256 - len(exp))
        self.checked_bytes += 256
        for i in range(256):
            if got[i] != exp[i]:
                self.bad("C03", "byte %d of the local buffer stands for %s, expected %s" % (i, self.show(got[i]), self.show(exp[i])), "stackread:mem")
                break

    def op_fread(self, a, t):
        self.mprop = self.rprop = "C03"
        self.rexp = 0
        size, cnt, r = int(a[3]), int(a[4]), t.iret()
        p = self.ptr(a[2])
        n = size * r
        if n > 0:
            self.expect(p[0], p[1], self.source_dens(t.fds[0], t.pb if t.pb >= 0 else None, n))
        if r < cnt and size > 1 and p:
            # bytes of an element that was not complete: indeterminate
            self.expect(p[0], p[1] + n, [ANY] * (size - 1))

    op_fread_unlocked = op_fread

    def op_fgetc(self, a, t):
        self.rprop = self.mprop = "C03"
        if t.iret() == -1:
            self.rexp = 0
        else:
            self.rexp = self.source_dens(t.fds[0], t.pb if t.pb >= 0 else None, 1)[0]

    op_fgetc_unlocked = op_getc = op_getc_unlocked = op__IO_getc = op_getchar = op_getchar_unlocked = op_fgetc

    def op_fgets(self, a, t):
        self.mprop = self.rprop = "C03"
        p = self.ptr(a[2])
        if t.ret == "null":
            self.rexp = 0
            s = self.slots[p[0]]
            return
        self.rexp = (p[2], 0)
        size = self.sc(a[3])[0]
        n = int(t.kv["len"])
        self.expect(p[0], p[1], self.source_dens(t.fds[0], t.pb if t.pb >= 0 else None, n))
        if n < size:
            self.expect(p[0], p[1] + n, [(self.slots[p[0]].den[p[1] + n], 0)])

    def op_gets(self, a, t):
        self.mprop = self.rprop = "C03"
        p = self.ptr(a[1])
        if t.ret == "null":
            self.rexp = 0
            return
        self.rexp = (p[2], 0)
        n = int(t.kv["len"])
        at = t.pb if t.pb >= 0 else None
        self.expect(p[0], p[1], self.source_dens(t.fds[0], at, n))
        if at is None and t.kv["st"][0] == "0":
            self.source_dens(t.fds[0], None, 1)

    def op_getdelim(self, a, t):
        self.mprop = self.rprop = "C03"
        self.rexp = 0
        n = t.iret()
        k = int(a[2][1:])
        self.newslots[k] = self.source_dens(t.fds[0], t.pb if t.pb >= 0 else None, n) if n > 0 else []

    op___getdelim = op_getdelim

    def op_mmap(self, a, t):
        self.mprop = self.rprop = "C03"
        self.rexp = 0
        if t.ret != "1":
            return
        k, ln, flags, off = int(a[0][1:]), int(a[2], 0), int(a[4], 0), int(a[5], 0)
        avail = int(t.kv["avail"])
        exp = []
        if not flags & 0x20:
            exp = self.source_dens(t.fds[0], off, min(ln, avail))
        self.newslots[k] = exp + [0] * (ln - len(exp))

    def op_munmapbad(self, a, t):
        self.rprop, self.rexp = "C06,C03", 0
        self.mprop = "C06,C03"

    def op_munmap(self, a, t):
        self.rprop, self.rexp = "C03", 0
        if int(t.kv["left"]):
            self.bad("C03", "%s labels were left behind in unmapped memory" % t.kv["left"], "munmap:left")
        self.slots.pop(int(a[0][1:]), None)

    def recv(self, a, t):
        self.mprop = self.rprop = "C03"
        self.rexp = 0
        n = min(t.iret(), int(a[3]))
        if n > 0:
            p = self.ptr(a[2])
            self.expect(p[0], p[1], self.source_dens(t.fds[0], None, n, not int(a[4], 0) & 2))

    op_recv = op_recvfrom = recv

    def op_recvmsg(self, a, t):
        self.mprop = self.rprop = "C06,C03"
        self.rexp = 0
        n = t.iret()
        for p, c in ((self.ptr(a[2]), int(a[3])), (self.ptr(a[4]), int(a[5]))):
            m = min(max(n, 0), c)
            self.expect(p[0], p[1], [0] * m)
            n -= m

    # ------------------------------------------------------------ output
    def sink(self, fd, off, dens):
        s = self.src_of(fd)
        if s is None:
            self.cov["sink-untracked"] += 1
            return
        if off is None:
            off = self.wr_off[s]
            self.wr_off[s] += len(dens)
        for i, d in enumerate(dens):
            if d:
                self.sinks.append((s, off + i, d))

    def op_write(self, a, t):
        self.rprop = self.mprop = "C04"
        self.rexp = 0
        n = t.iret()
        if n > 0:
            p = self.ptr(a[2])
            self.sink(t.fds[0], t.pa - n if t.pa is not None and t.pa >= 0 else None, self.slots[p[0]].den[p[1]:p[1] + n])

    op_send = op_write

    def op_fwrite(self, a, t):
        self.rprop = self.mprop = "C04"
        self.rexp = 0
        size, cnt, r = int(a[3]), int(a[4]), t.iret()
        n = size * r
        if n > 0:
            p = self.ptr(a[2])
            off = None
            if t.pa >= 0:
                off = t.pa - n if r == cnt else t.pb
            self.sink(t.fds[0], off, self.slots[p[0]].den[p[1]:p[1] + n])

    def op_putc(self, a, t):
        self.rprop = self.mprop = "C04"
        self.rexp = 0
        if t.iret() != -1:
            self.sink(t.fds[0], t.pa - 1 if t.pa >= 0 else None, [self.sc(a[2])[2]])

    op_fputc = op__putc = op_putc

    # ------------------------------------------------------------ heap
    def op_malloc(self, a, t):
        self.rexp = 0
        k = int(a[0][1:])
        self.slots.pop(k, None)

    def op_calloc(self, a, t):
        self.rexp = 0
        k = int(a[0][1:])
        self.slots.pop(k, None)
        for s in t.slots:
            self.newslots[k] = [0] * s[1]

    def op_realloc(self, a, t):
        self.rexp = 0
        k = int(a[0][1:])
        if t.ret == "-1":
            return
        old = self.slots.pop(k, None)
        keep = int(t.kv["keep"])
        for (kk, n, pr, mem, lab) in t.slots:
            self.newslots[k] = (old.den[:keep] if old else []) + [ANY] * (n - keep)
        # the harness then initialises the tail
        self.realloc_tail = (k, keep)
        if t.slots:
            kk, n, pr, mem, lab = t.slots[0]
            # tail labels in the announcement are from before initialisation
            t.slots[0] = (kk, n, n, mem + b"\xBB" * (n - keep), lab[:keep] + [0] * (n - keep))

    def op_free(self, a, t):
        self.slots.pop(int(a[0][1:]), None)

    # ------------------------------------------------------------ strings
    def op_memcpy(self, a, t):
        x, y, n = self.ptr(a[1]), self.ptr(a[2]), self.sc(a[3])[0]
        self.rexp = x[2]
        self.expect(x[0], x[1], list(self.slots[y[0]].den[y[1]:y[1] + n]))

    op_memmove = op_memcpy

    def op_strncpy(self, a, t):
        x, y, n = self.ptr(a[1]), self.ptr(a[2]), self.sc(a[3])[0]
        self.rexp = x[2]
        s = self.slots[y[0]]
        m = s.mem.find(0, y[1])
        ln = (m if m >= 0 else len(s.mem)) - y[1]
        if ln >= n:
            self.expect(x[0], x[1], list(s.den[y[1]:y[1] + n]))
        else:
            self.expect(x[0], x[1], list(s.den[y[1]:y[1] + ln]))
            # terminator: label of the source's terminator, or none
            self.expect(x[0], x[1] + ln, [(s.den[y[1] + ln], 0)])
            self.expect(x[0], x[1] + ln + 1, [0] * (n - ln - 1))

    def op_memset(self, a, t):
        x, c, n = self.ptr(a[1]), self.sc(a[2]), self.sc(a[3])[0]
        self.rexp = x[2]
        self.expect(x[0], x[1], [c[2]] * n)

    def op_strcpy(self, a, t):
        x, y = self.ptr(a[1]), self.ptr(a[2])
        self.rexp = x[2]
        n = len(self.cstr(y))
        d = self.slots[y[0]].den
        self.expect(x[0], x[1], list(d[y[1]:y[1] + n]) + [(d[y[1] + n], 0)])

    def op_strcat(self, a, t):
        x, y = self.ptr(a[1]), self.ptr(a[2])
        self.rexp = x[2]
        m, n = len(self.cstr(x)), len(self.cstr(y))
        d = self.slots[y[0]].den
        dx = self.slots[x[0]].den
        self.expect(x[0], x[1] + m, list(d[y[1]:y[1] + n]) + [(d[y[1] + n], 0, dx[x[1] + m + n])])

    def op_strdup(self, a, t):
        k, y = int(a[0][1:]), self.ptr(a[1])
        self.rexp = (0, y[2])
        n = len(self.cstr(y))
        d = self.slots[y[0]].den
        self.slots.pop(k, None) if k != y[0] else None
        self.newslots[k] = list(d[y[1]:y[1] + n]) + [(d[y[1] + n], 0)]

    def cmp_label(self, x, y, read):
        if self.strict:
            self.rexp = 0
        else:
            self.rexp = self.udens(x, read) | self.udens(y, read)

    def cmpcommon(self, a, t, n, string, fold):
        x, y = self.ptr(a[1]), self.ptr(a[2])
        mx, my = self.slots[x[0]].mem, self.slots[y[0]].mem
        read = 0
        for i in range(n):
            c, d = mx[x[1] + i], my[y[1] + i]
            read = i + 1
            if fold:
                c, d = bytes([c]).lower()[0], bytes([d]).lower()[0]
            if c != d or (string and (c == 0 or d == 0)):
                break
        self.cmp_label(x, y, read)

    def op_memcmp(self, a, t):
        self.cmpcommon(a, t, self.sc(a[3])[0], False, False)

    op_bcmp = op_memcmp

    def op_strncmp(self, a, t):
        self.cmpcommon(a, t, self.sc(a[3])[0], True, False)

    def op_strncasecmp(self, a, t):
        self.cmpcommon(a, t, self.sc(a[3])[0], True, True)

    def op_strcmp(self, a, t):
        self.cmpcommon(a, t, 1 << 30, True, False)

    def op_strcasecmp(self, a, t):
        self.cmpcommon(a, t, 1 << 30, True, True)

    def op_strlen(self, a, t):
        x = self.ptr(a[1])
        self.rexp = 0 if self.strict else self.udens(x, len(self.cstr(x)) + 1)

    def chr(self, a, t, read_found, read_none):
        x, c = self.ptr(a[1]), self.sc(a[2])
        if self.strict:
            self.rexp = x[2] if t.ret != "null" else (0, x[2])
        else:
            n = read_none if t.ret == "null" else read_found
            self.rexp = self.udens(x, n) | x[2] | c[2]

    def off_of(self, t, x):
        return int(t.ret.split("+")[1]) - x[1] if t.ret.startswith("s") else 0

    def op_strchr(self, a, t):
        x = self.ptr(a[1])
        self.chr(a, t, self.off_of(t, x) + 1, len(self.cstr(x)) + 1)

    def op_strrchr(self, a, t):
        x = self.ptr(a[1])
        n = len(self.cstr(x)) + 1
        self.chr(a, t, n, n)

    def op_memchr(self, a, t):
        x = self.ptr(a[1])
        self.chr(a, t, self.off_of(t, x) + 1, self.sc(a[3])[0])

    def op_strstr(self, a, t):
        x, y = self.ptr(a[1]), self.ptr(a[2])
        if self.strict:
            self.rexp = x[2] if t.ret != "null" else (0, x[2])
        else:
            ny = len(self.cstr(y))
            n = len(self.cstr(x)) + 1 if t.ret == "null" else self.off_of(t, x) + ny
            self.rexp = self.udens(x, n) | self.udens(y, ny + 1) | x[2] | y[2]

    def op_strpbrk(self, a, t):
        x, y = self.ptr(a[1]), self.ptr(a[2])
        if self.strict:
            self.rexp = x[2] if t.ret != "null" else (0, x[2])
        else:
            n = len(self.cstr(x)) + 1 if t.ret == "null" else self.off_of(t, x) + 1
            self.rexp = self.udens(x, n) | self.udens(y, len(self.cstr(y)) + 1) | x[2] | y[2]

    def strto(self, x, base, t):
        if "end" not in t.kv:
            self.rexp = ANY
            return
        n = int(t.kv["end"])
        if n <= 0:
            self.rexp = 0
            return
        used = self.udens(x, n) | base
        m = self.slots[x[0]]
        if m.mem[x[1] + n] == 0:
            self.rexp = (used | m.den[x[1] + n], used)
        else:
            self.rexp = used

    def op_strtol(self, a, t):
        self.strto(self.ptr(a[1]), self.sc(a[2])[2], t)

    op_strtoll = op_strtoul = op_strtoull = op_strtol

    def op_strtod(self, a, t):
        self.strto(self.ptr(a[1]), 0, t)

    def op_snprintf(self, a, t):
        x, size, fmt, kind = self.ptr(a[1]), int(a[2]), bytes.fromhex(a[3][1:]).decode("latin-1"), int(a[4])
        self.rexp = 0
        rest = a[5:]
        args = []
        order = {0: "", 1: "i", 2: "s", 3: "d", 4: "ic", 5: "is", 6: "s", 7: "ii", 8: "is", 9: "iis", 10: "d", 11: "iid", 12: "i", 13: "s"}[kind]
        for i, c in enumerate(order):
            if c == "s":
                p = self.ptr(rest[i])
                args.append(("s", p))
            else:
                v = self.sc(rest[i])
                args.append((c, v))
        pieces = fmt_pieces(self, fmt, args)
        if pieces is None and kind == 3 and t.iret() >= 0:
            pieces = [(b"?" * t.iret(), [args[0][1][2]] * t.iret())]
        if pieces is None:
            pieces = [(b"?" * (t.iret() + 1), [])]  # not modelled
        text = b"".join(p[0] for p in pieces)
        dens = [d for p in pieces for d in p[1]]
        if t.iret() != len(text):
            self.cov["snprintf-unmodelled"] += 1
            n = len(text) + 64
            self.pend = {}
            for i in range(x[1], self.slots[x[0]].n):
                self.pend[(x[0], i)] = ANY
            return
        self.cov["snprintf-modelled"] += 1
        lim = len(text) if size < 0 else min(len(text), max(size - 1, 0))
        self.expect(x[0], x[1], dens[:lim])
        if size != 0:
            self.expect(x[0], x[1] + lim, [(self.slots[x[0]].den[x[1] + lim], 0)])

    # ------------------------------------------------------------ system data
    def fill(self, p, n, ok, d=0):
        self.rexp = 0
        if ok and p:
            self.expect(p[0], p[1], [d] * n)

    def op_stat(self, a, t):
        self.fill(self.ptr(a[2]), 144, t.ret == "0")

    def op_fstat(self, a, t):
        self.fill(self.ptr(a[2]), 144, t.ret == "0")

    def op_gettimeofday(self, a, t):
        self.fill(self.ptr(a[1]), 16, t.ret == "0")

    def op_clock_gettime(self, a, t):
        self.fill(self.ptr(a[2]), 16, t.ret == "0")

    def op_time(self, a, t):
        self.fill(self.ptr(a[1]), 8, True)

    def op_ctime_r(self, a, t):
        x, y = self.ptr(a[1]), self.ptr(a[2])
        if t.ret == "null":
            self.rexp = 0
            return
        self.rexp = y[2]
        n = self.post(y[0], y[1], 64).find(b"\0")
        u = self.udens(x, 8)
        self.expect(y[0], y[1], [u] * n + [(u, 0)])

    def op_localtime_r(self, a, t):
        x, y = self.ptr(a[1]), self.ptr(a[2])
        if t.ret == "null":
            self.rexp = 0
            return
        self.rexp = y[2]
        self.expect(y[0], y[1], [self.udens(x, 8)] * 56)

    def op_inet_pton(self, a, t):
        x, y = self.ptr(a[2]), self.ptr(a[3])
        self.rexp = 0
        if t.ret == "1":
            n = len(self.cstr(x))
            u, v = self.udens(x, n), self.udens(x, n + 1)
            self.expect(y[0], y[1], [(v, u)] * (4 if a[1] == "2" else 16))

    def op_getcwd(self, a, t):
        x = self.ptr(a[1])
        self.rexp = 0 if t.ret == "null" else x[2]
        if t.ret != "null":
            self.expect(x[0], x[1], [0] * (int(t.kv["len"]) + 1))

    def op_getrlimit(self, a, t):
        self.fill(self.ptr(a[2]), 16, t.ret == "0")

    def op_getrusage(self, a, t):
        self.fill(self.ptr(a[2]), 144, t.ret == "0")

    def op_gethostname(self, a, t):
        self.rexp = 0
        if t.ret == "0":
            p = self.ptr(a[1])
            self.expect(p[0], p[1], [0] * (int(t.kv["len"]) + 1))

    def op_sigemptyset(self, a, t):
        self.fill(self.ptr(a[1]), 128, True)

    def op_poll(self, a, t):
        p = self.ptr(a[2])
        self.rexp = 0
        if t.iret() >= 0:
            self.expect(p[0], p[1] + 6, [0, 0])

    def op_select(self, a, t):
        p, q = self.ptr(a[2]), self.ptr(a[3])
        self.rexp = 0
        self.expect(p[0], p[1], [0] * 128)
        if q:
            self.expect(q[0], q[1], [0] * 16)

    def op_socketpair(self, a, t):
        self.fdnum[int(a[0][1:])], self.fdnum[int(a[1][1:])] = t.fds
        p = self.ptr(a[2])
        self.rexp = 0
        self.expect(p[0], p[1], [0] * 8)

    def op_thread(self, a, t):
        p = self.ptr(a[1])
        self.rexp = 0
        if p:
            self.expect(p[0], p[1], [0] * 8)

    def op_sigaction(self, a, t):
        self.rexp = 0
        p = self.ptr(a[2])
        if p and a[3] not in "HID":
            n = 152
            if t.ret == "0":
                self.expect(p[0], p[1], [0] * n)
            else:
                self.expect(p[0], p[1], [ANY] * n)

    def op_sysfill(self, a, t):
        self.rexp = 0
        p = self.ptr(a[2])
        for key, d in (("opens", ANY), ("fills", 0)):
            for part in t.kv.get(key, ":")[1:].split(";"):
                if part:
                    o, n = map(int, part.split(","))
                    self.expect(p[0], p[1] + o, [d] * n)
        if t.kv.get("clean", "1") != "1":
            self.bad("C06", "the string returned carries labels", "sysfill:clean")

    def op_fork(self, a, t):
        self.rexp = 0

    # ------------------------------------------------------------ end of run
    def final(self):
        td = self.td
        try:
            for e in td.structural_errors():
                self.bad("C08,C07", e, "structure")
            got_src = td.sources()
        except T.Malformed as e:
            self.bad("C08", str(e), "structure")
            return
        # sources
        names = [s[0] for s in got_src]
        want = [s[0] for s in self.sources]
        if names != want:
            self.bad("C03", "sources recorded %r, expected %r" % (names[:12], want[:12]), "sources")
        else:
            for i, (n, fd, sz) in enumerate(got_src):
                if self.sources[i][1] is not None and sz not in self.sources[i][1]:
                    self.bad("C03,C07", "source %d (%r) has size %d, expected %s" % (i, n, sz, self.sources[i][1]), "size")
        # labels
        raws = td.all_raw()
        if not raws or raws[0] & ~T.CF_BIT:
            self.bad("C01", "label 0 is not the empty label", "label0")
        srcset = set()
        for l in range(1, len(raws)):
            d = td.decode(raws[l])
            if d[0] == "src":
                srcset.add(l)
                b = td.bit(d[1], d[2])
                if not b & self.delivered:
                    self.bad("C03", "label %d stands for byte %d of source %d, which the program never received" % (l, d[2], d[1]), "stray-source")
                    break
            elif d[0] == "none":
                self.bad("C01,C08", "label %d has no record" % l, "empty-record")
                break
            else:
                if d[2] >= l or d[1] == 0:
                    self.bad("C01", "label %d refers to %d..%d" % (l, d[1], d[2]), "operands")
                    break
        try:
            for l in range(1, len(raws)):
                td.denote(l)
        except T.Malformed as e:
            self.bad("C01", str(e), "malformed")
            return
        bits = td.index_bits()
        if bits != srcset:
            x = sorted(bits ^ srcset)[:8]
            self.bad("C03,C07,C12", "source-label index disagrees with the labels on %s" % x, "index")
        # control flow
        closure = set()
        st = list(self.branched)
        while st:
            l = st.pop()
            if l in closure or l >= len(raws):
                continue
            closure.add(l)
            d = td.decode(raws[l])
            if d[0] == "range":
                st.extend(range(d[1], d[2] + 1))
            elif d[0] == "union":
                st.extend(d[1:])
        self.closure = closure
        marked = {l for l in range(len(raws)) if raws[l] & T.CF_BIT}
        if marked - closure:
            self.bad("C02", "labels %s are marked as affecting control flow but no branch depended on them" % sorted(marked - closure)[:8], "cf-extra")
        if closure - marked:
            self.bad("C02", "labels %s affect control flow but are not marked" % sorted(closure - marked)[:8], "cf-missing")
        # outputs
        got = Counter()
        for (i, off, l) in td.sinks():
            if l == 0 or l >= len(raws):
                self.bad("C04", "output record at %d of %d has label %d" % (off, i, l), "sink-label")
                continue
            got[(i, off, td.denote(l))] += 1
        exp = Counter(self.sinks)
        for kind, diff in (("missing", exp - got), ("unexpected", got - exp)):
            for (i, off, d), c in list(diff.items())[:4]:
                self.bad("C04", "%s output record: output %d offset %d taint %s (x%d)" % (kind, i, off, self.show(d), c), "sink-" + kind)
        # functions and logs
        if td.functions() != self.fnames:
            self.bad("C11", "functions recorded %r, expected %r" % (td.functions()[:12], self.fnames[:12]), "functions")
        if td.events() != self.events:
            self.bad("C11", "function events differ at %s" % first_diff(td.events(), self.events), "events")
        try:
            cf = td.cflog()
            if cf != self.cflog:
                self.bad("C11", "control-flow log differs at %s" % first_diff(cf, self.cflog), "cflog")
        except T.Malformed as e:
            self.bad("C11", str(e), "cflog")


def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else "nothing"
        y = b[i] if i < len(b) else "nothing"
        if x != y:
            return "entry %d: recorded %s, expected %s (lengths %d, %d)" % (i, x, y, len(a), len(b))
    return "nowhere"


def fmt_pieces(m, fmt, args):
    """[(bytes, denotations)] of what the format produces, or None."""
    out = []
    i = 0
    ai = 0
    while i < len(fmt):
        if fmt[i] != "%":
            j = i
            while j < len(fmt) and fmt[j] != "%":
                j += 1
            b = fmt[i:j].encode("latin-1")
            out.append((b, [0] * len(b)))
            i = j
            continue
        j = i + 1
        spec = "%"
        stars = []
        while j < len(fmt) and fmt[j] in "-+ #0123456789.*hlqjztL":
            if fmt[j] == "*":
                stars.append(args[ai][1][0])
                if stars[-1] < 0 and spec.endswith("."):
                    spec = spec[:-1]  # a negative precision is no precision
                else:
                    spec += str(stars[-1])
                ai += 1
            else:
                if fmt[j] not in "hlqjztL":
                    spec += fmt[j]
            j += 1
        if j >= len(fmt):
            return None
        c = fmt[j]
        i = j + 1
        if c == "%":
            out.append((b"%", [0]))
            continue
        if "2147483648" in spec:
            return None
        if c == "n":
            continue
        if c == "m":
            b = ((spec + "s") % "No such file or directory").encode()
            out.append((b, [0] * len(b)))
            continue
        if ai >= len(args):
            return None
        k, v = args[ai]
        ai += 1
        if c == "s":
            s = b"(null)" if v is None else m.cstr(v)
            mods = spec[1:]
            left = mods.startswith("-") or "-" in mods.split(".")[0]
            w, _, pr = mods.lstrip("-+ #0").partition(".")
            width = abs(int(w)) if w else 0
            if "." in mods:
                p = int(pr) if pr else 0
                if p >= 0:
                    if v is None:
                        return None
                    s = s[:p]
            dens = [0] * len(s) if v is None else list(m.slots[v[0]].den[v[1]:v[1] + len(s)])
            pad = max(0, width - len(s))
            if left:
                out.append((s + b" " * pad, dens + [0] * pad))
            else:
                out.append((b" " * pad + s, [0] * pad + dens))
            continue
        if k == "s":
            return None
        val = v[0]
        try:
            if c in "di":
                if "hh" in fmt[:j]:
                    val = (val + 128) % 256 - 128
                elif fmt[j - 1] == "h":
                    val = (val + (1 << 15)) % (1 << 16) - (1 << 15)
                elif k == "i" and fmt[j - 1] not in "lqjzt":
                    val = (val + (1 << 31)) % (1 << 32) - (1 << 31)
                txt = c_int(spec, c, val)
            elif c in "uxXo":
                bits = 64 if fmt[j - 1] in "lqjzt" else 8 if fmt[j - 2:j] == "hh" else 16 if fmt[j - 1] == "h" else 32
                txt = c_int(spec, c, val % (1 << bits))
            elif c == "c":
                txt = (spec + "c") % chr(val & 0xFF)
            elif c in "eEfFgG":
                txt = (spec + c) % (val / 3.0)
            else:
                return None
        except (ValueError, TypeError, OverflowError):
            return None
        b = txt.encode("latin-1")
        out.append((b, [v[2]] * len(b)))
    return out


def c_int(spec, c, val):
    return (spec + ("d" if c in "iu" else c)) % val
