"""Workload generator: random but well-defined programs for ptvm.

A generated script only makes calls that are valid C (no overlapping copies, no
writes past a buffer, strings terminated inside their buffer) so that anything
odd observed is the runtime's doing.  Failing calls (bad descriptors, missing
files, full devices, exhausted memory) are valid and wanted.
"""
import random

O = dict(RD=0, WR=1, RW=2, CREAT=0o100, EXCL=0o200, TRUNC=0o1000, APPEND=0o2000, NONBLOCK=0o4000, DIR=0o200000)
WORDS = [b"123", b"  -42abc", b"+0x1fZ", b"0777", b"99999999999999999999999", b"3.25e2x", b"-inf", b"zz", b"", b"1e400",
         b"\t 7", b"0b11", b"127.0.0.1", b"::1", b"fe80::12", b"256.1.1.1", b"nan(1)", b"0x", b"-", b"aBcD", b"ABCD"]


def hx(b):
    if isinstance(b, str):
        b = b.encode()
    return "x" + b.hex()


class Gen:
    def __init__(self, seed, profile, nops):
        self.r = random.Random(seed)
        self.p = profile
        self.lines = []
        self.files = {}
        self.env = {}
        self.case = {"seed": seed, "profile": profile.get("name", "?")}
        self.size = {}       # usable memory: slot -> size
        self.heap = set()
        self.nreg = 0
        self.regs = []
        self.bytes_regs = []
        self.fds = []        # dicts
        self.fps = []
        self.nfd = 0
        self.nfp = 0
        self.opens = 0
        self.maps = set()
        self.maplen = {}
        self.lineslots = 0
        self.listen = 0
        self.conns = []
        self.udp = []
        self.fn = []
        self.stack = []
        self.nops = nops

    # ---------------------------------------------------------------- basics
    def e(self, *a):
        self.lines.append(" ".join(str(x) for x in a))

    def reg(self):
        if self.nreg < 8000 and (self.nreg < 40 or self.r.random() < 0.7):
            k = self.nreg
            self.nreg += 1
        else:
            k = self.r.randrange(self.nreg)
        if k not in self.regs:
            self.regs.append(k)
        return "r%d" % k

    def areg(self):
        """a register that probably holds something tainted"""
        if not self.regs:
            return "0"
        x = self.r.random()
        if x < 0.08:
            return str(self.r.choice([0, 1, 65, 255]))
        if x < 0.55:
            return "r%d" % self.r.choice(self.regs[-25:])
        return "r%d" % self.r.choice(self.regs)

    def slot(self, need=1):
        c = [k for k, n in self.size.items() if n >= need]
        return self.r.choice(c) if c else None

    def span(self, maxn=None):
        """(slot, off, n) of usable memory"""
        k = self.slot()
        n = self.size[k]
        off = self.r.choice([0, 0, self.r.randrange(n), max(0, n - 1)])
        m = n - off
        if maxn is not None:
            m = min(m, maxn)
        ln = self.r.choice([m, self.r.randint(0, m), self.r.randint(0, min(m, 9)), min(1, m)])
        return k, off, ln

    def ptr(self, k, off, tl=True):
        s = "s%d+%d" % (k, off)
        if tl and self.regs and self.r.random() < 0.15:
            s += "@r%d" % self.r.choice(self.regs)
        return s

    def term(self, k, off, maxlen=None):
        """make sure there is a string at k+off; returns its space bound"""
        n = self.size[k]
        end = n - 1 if maxlen is None else min(n - 1, off + maxlen)
        self.e("poke", "s%d+%d" % (k, end), "x00")
        return end - off

    def data(self, n, nul=True):
        r = self.r
        m = r.random()
        if m < 0.4:
            b = bytes(r.choice(b"abcdefghijklmnop 0123456789\n,.;\n") for _ in range(n))
        elif m < 0.7:
            b = bytes(r.randrange(256) for _ in range(n))
        else:
            b = bytes((7 * i + 3) & 0xFF for i in range(n))
        if not nul:
            b = b.replace(b"\0", b"N")
        return b

    # ---------------------------------------------------------------- set-up
    def setup(self):
        r = self.r
        for i in range(r.randint(2, 5)):
            n = r.choice([0, 1, 7, 40, 100, 257, 600, 2000]) if i else r.choice([120, 300, 700])
            self.files["in%d" % i] = self.data(n).hex()
        self.files["sub/inner"] = self.data(60).hex()
        self.files["ro"] = {"kind": "data", "hex": self.data(30).hex(), "mode": 0o444}
        self.files["fifo"] = {"kind": "fifo"}
        self.files["link"] = {"kind": "symlink", "to": "in0"}
        self.files["dangling"] = {"kind": "symlink", "to": "nowhere"}
        if r.random() < self.p.get("stdin", 0.3):
            kind = r.choice(["file", "pipe"])
            self.case["stdin"] = self.data(r.choice([0, 5, 200])).hex()
            self.case["stdin_kind"] = kind
            self.stdin_mode = r.choice(["FILE", "fd", "reopen"])
            if r.random() < 0.8:
                self.env["POLYTRACKER_STDIN_SOURCE"] = r.choice(["1", "1", "1", "0"])
        else:
            self.stdin_mode = None
        if r.random() < self.p.get("stdout", 0.3):
            self.env["POLYTRACKER_STDOUT_SINK"] = r.choice(["1", "1", "0"])
        if r.random() < self.p.get("stdout", 0.3):
            self.env["POLYTRACKER_STDERR_SINK"] = r.choice(["1", "1", "0"])
        if r.random() < 0.3:
            self.env["POLYTRACKER_TAINT_ARGV"] = r.choice(["1", "1", "0"])
        if r.random() < 0.4:
            self.case["argv"] = [self.data(r.choice([0, 1, 9, 30]), nul=False).replace(b"\0", b"x").hex()
                                 for _ in range(r.randint(0, 4))]
        self.case["out_kind"] = r.choice(["file", "pipe"])
        self.case["nostrict"] = r.random() < self.p.get("nostrict", 0.5)
        for k, n in enumerate([r.choice([1, 8, 33]), 64, 160, r.choice([200, 320]), r.choice([500, 700]), 24]):
            self.e(r.choice(["buf", "buf", "bufl"]), "s%d" % k, n)
            self.size[k] = n
        for i in range(1 + len(self.case.get("argv", []))):
            if i < 8:
                n = (len(self.case["argv"][i - 1]) // 2 if i else 4) + 1
                if n > 1:
                    self.size[40 + i] = n
        # some input right away so that there is taint to move around
        self.e("open", "f0", hx("in0"), 0)
        self.fds.append(dict(k=0, rd=True, wr=False, kind="file", path="in0"))
        self.nfd = 1
        self.opens = 1
        self.e("read", "_", "f0", "s%d+0" % 3, 100)
        self.e("read", "_", "f0", "s%d+10" % 4, 200)
        for i in range(6):
            d = self.reg()
            self.e("ld", d, "s%d+%d" % (self.r.choice([3, 4]), self.r.randrange(100)))

    # ---------------------------------------------------------------- categories
    def c_dag(self):
        r = self.r
        op = lambda: r.choice(["u", "u", "ua", "ut"])
        m = r.random()
        if m < 0.04:
            self.wide(op)
        elif m < 0.12:
            k, off, n = self.span(60)
            for i in range(r.randint(1, 5)):
                if off + i < self.size[k]:
                    self.e("ld", self.reg(), "s%d+%d" % (k, off + i))
        elif m < 0.2:
            k, off, n = self.span(16)
            if n:
                self.e("uload", self.reg(), "s%d+%d" % (k, off), n)
        elif m < 0.25:
            k, off, n = self.span(40)
            self.e("rdl", self.reg(), "s%d+%d" % (k, off), n)
        elif m < 0.31:
            k, off, n = self.span(12)
            self.e(r.choice(["setl", "addl"]), "s%d+%d" % (k, off), n, self.areg())
        elif m < 0.36:
            k, off, n = self.span()
            self.e("st", "s%d+%d" % (k, off), self.areg())
        elif m < 0.62:
            d = self.reg()
            self.e(op(), d, self.areg(), self.areg())
        elif m < 0.72:  # chain over consecutive bytes, forwards or backwards
            k, off, n = self.span(30)
            idx = list(range(off, min(off + n, self.size[k])))
            if r.random() < 0.5:
                idx.reverse()
            acc = None
            for i in idx:
                x = self.reg()
                self.e("ld", x, "s%d+%d" % (k, i))
                if acc:
                    d = self.reg()
                    self.e(op(), d, *(r.choice([(acc, x), (x, acc)])))
                    acc = d
                else:
                    acc = x
        elif m < 0.82:  # tree
            w = [self.areg() for _ in range(r.choice([4, 6, 8]))]
            while len(w) > 1:
                if r.random() < 0.3:
                    r.shuffle(w)
                nw = []
                for i in range(0, len(w) - 1, 2):
                    d = self.reg()
                    self.e(op(), d, w[i], w[i + 1])
                    nw.append(d)
                if len(w) % 2:
                    nw.append(w[-1])
                w = nw
        elif m < 0.9:  # the same pairs again, mirrored, nested
            x, y = self.areg(), self.areg()
            d1, d2, d3 = self.reg(), self.reg(), self.reg()
            self.e(op(), d1, x, y)
            self.e(op(), d2, y, x)
            self.e(op(), d3, d1, r.choice([x, y, d2]))
            d4 = self.reg()
            self.e(op(), d4, d3, self.areg())
            self.e(op(), self.reg(), d4, r.choice([x, y, d1]))
        else:  # deep sharing
            q = [self.areg() for _ in range(4)]
            for _ in range(r.choice([6, 20])):
                d = self.reg()
                self.e(op(), d, q[-2], q[-3])
                q.append(d)

    def wide(self, op):
        """many unions side by side (their labels are neighbours), then joined: in order a
        range of unions, otherwise a graph with a wide front"""
        r = self.r
        n = r.choice([3, 6, 15, 31, 33, 40, 64, 70, 100])
        step = r.choice([2, 3, 5])
        w = []
        for i in range(n):
            x, y, d = self.reg(), self.reg(), self.reg()
            self.e("ld", x, "s4+%d" % (10 + i * step % 190))
            self.e("ld", y, "s4+%d" % (10 + (i * step + r.choice([20, 21, 50, 77])) % 190))
            self.e(op(), d, *r.choice([(x, y), (y, x)]))
            w.append(d)
        how = r.random()
        if how < 0.3:
            w.reverse()
        elif how < 0.4:
            r.shuffle(w)
        if how < 0.75:
            for group in ([w] if r.random() < 0.6 else [w[:n // 2], w[n // 2:]]):
                acc = group[0]
                for x in group[1:]:
                    d = self.reg()
                    self.e(op(), d, acc, x)
                    acc = d
                w.append(acc)
        else:
            while len(w) > 1:
                nw = []
                for i in range(0, len(w) - 1, 2):
                    d = self.reg()
                    self.e(op(), d, w[i], w[i + 1])
                    nw.append(d)
                if len(w) % 2:
                    nw.append(w[-1])
                w = nw
        if self.p["name"] != "dag" and r.random() < 0.6:
            self.e(r.choice(["br", "brw"]), w[-1])

    def c_cf(self):
        r = self.r
        m = r.random()
        if m < 0.7:
            self.e(r.choice(["br", "brw"]), self.areg())
        else:
            self.e("tcf", self.reg(), self.areg(), r.choice([0, 1, 127, 128, 16383, 16384, 2**31, 2**32 - 1, r.randrange(2**32)]))

    def c_fn(self):
        r = self.r
        m = r.random()
        ids = [0, 1, 2, 127, 128, 255, 300, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 2**32 - 1]
        if m < 0.25:
            f = r.choice(ids)
            self.stack.append(f)
            self.e("ent", f)
        elif m < 0.5:
            f = self.stack.pop() if self.stack and r.random() < 0.9 else r.choice(ids)
            self.e("lev", f)
        elif m < 0.85:
            base = r.choice(["f", "main", "_ZN3fooEv", "very_long_name_" * r.randint(1, 8), "", "a", "ab", "é"])
            n = base + (str(r.randrange(12)) if r.random() < 0.6 else "")
            d = self.reg()
            self.e(r.choice(["fe", "fes"]), d, hx(n))
            self.fn.append(d)
        elif self.fn:
            self.e("fx", self.fn.pop() if r.random() < 0.8 else r.choice([0, 3, 65535]))

    def newfd(self):
        k = self.nfd
        self.nfd += 1
        return k

    def c_open(self):
        r = self.r
        if self.opens > self.p.get("maxopens", 90) or self.nfd > 280 or self.nfp > 60:
            return
        m = r.random()
        if m < 0.45:
            self.opens += 1
            k = self.newfd()
            name = r.choice(["in0", "in1", "in1", "link", "./in0", "sub/../in1", "sub/inner"])
            fl = r.choice([0, 0, 0, O["RW"], O["RW"] | O["APPEND"]])
            op = r.choice(["open", "open", "open64", "openat"])
            if op == "openat":
                self.e("openat", "f%d" % k, -100, hx(name), fl)
            else:
                self.e(op, "f%d" % k, hx(name), fl)
            self.fds.append(dict(k=k, rd=True, wr=fl & 3 != 0, kind="file", path=name))
        elif m < 0.7:
            self.opens += 1
            k = self.newfd()
            name = "out%d" % r.randrange(8)
            fl = r.choice([O["WR"], O["RW"]]) | O["CREAT"] | r.choice([0, O["TRUNC"], O["APPEND"], O["APPEND"] | O["TRUNC"], 0])
            mode = r.choice([0o600, 0o644, 0o666, 0o700, 0o640])
            op = r.choice(["open", "open64", "openat"])
            if op == "openat":
                self.e("openat", "f%d" % k, -100, hx(name), fl, mode)
            else:
                self.e(op, "f%d" % k, hx(name), fl, mode)
            self.fds.append(dict(k=k, rd=fl & 3 == 2, wr=True, kind="file", path=name))
        elif m < 0.8:
            self.opens += 1
            k = self.newfd()
            self.e("open", "f%d" % k, hx("fifo"), O["RW"] | O["NONBLOCK"])
            if r.random() < 0.7:
                self.e("pipesz", "f%d" % k, 4096)
            self.fds.append(dict(k=k, rd=True, wr=True, kind="fifo", path="fifo"))
        elif m < 0.86:  # failures
            k = self.newfd()
            self.e(*r.choice([("open", "f%d" % k, hx("missing"), 0), ("open64", "f%d" % k, hx("dangling"), 0),
                              ("open", "f%d" % k, hx("in0"), O["WR"] | O["CREAT"] | O["EXCL"], 0o600),
                              ("open", "f%d" % k, hx("in0/x"), 0), ("open", "f%d" % k, hx(""), 0),
                              ("openat", "f%d" % k, -5, hx("in0"), 0),
                              ("open", "f%d" % k, hx("in0"), O["DIR"])]))
        elif m < 0.9:
            self.opens += 1
            k = self.newfd()
            self.e("open", "f%d" % k, hx(r.choice(["/dev/zero", "sub", "/dev/full"])), 0)
            self.fds.append(dict(k=k, rd=True, wr=False, kind="dev", path="dev"))
        elif m < 0.94:  # untracked pipe
            a, b = self.newfd(), self.newfd()
            self.e("pipe", "f%d" % a, "f%d" % b)
            self.e("nonblock", "f%d" % a)
            self.e("nonblock", "f%d" % b)
            self.e("feed", "f%d" % b, hx(self.data(r.choice([3, 60]))))
            self.fds.append(dict(k=a, rd=True, wr=False, kind="pipe", path=None))
            self.fds.append(dict(k=b, rd=False, wr=True, kind="pipe", path=None))
        elif m < 0.97:  # relative to a directory
            self.opens += 2
            d, k = self.newfd(), self.newfd()
            self.e("open", "f%d" % d, hx("sub"), O["DIR"])
            self.e("openat", "f%d" % k, "f%d" % d, hx("inner"), 0)
            self.fds.append(dict(k=k, rd=True, wr=False, kind="file", path="sub/inner"))
        elif self.fds:
            k = self.newfd()
            s = r.choice(self.fds)
            if s["kind"] == "file":
                self.e("dup", "f%d" % k, "f%d" % s["k"])
                self.fds.append(dict(k=k, rd=s["rd"], wr=s["wr"], kind="file", path=s["path"]))

    def c_fopen(self):
        r = self.r
        if self.opens > self.p.get("maxopens", 90) or self.nfp > 60:
            return
        k = self.nfp
        self.nfp += 1
        m = r.random()
        op = r.choice(["fopen", "fopen64"])
        if m < 0.5:
            self.opens += 1
            name = r.choice(["in0", "in1", "in1", "link"])
            mode = r.choice(["r", "r", "rb", "r+"])
        elif m < 0.9:
            self.opens += 1
            name = "fo%d" % r.randrange(6)
            mode = r.choice(["w", "w+", "a", "a+", "wb"])
        else:
            self.e(op, "F%d" % k, hx(r.choice(["missing", "dangling", "sub/none/x"])), hx("r"))
            return
        self.e(op, "F%d" % k, hx(name), hx(mode))
        if r.random() < 0.4:
            self.e("setvbuf", "F%d" % k, r.choice([0, 1, 2]))
        self.fps.append(dict(k=k, rd=mode[0] == "r" or "+" in mode, wr=mode[0] != "r" or "+" in mode, last=None, ung=False, seek=True))

    def pick_fd(self, rd=False, wr=False):
        c = [f for f in self.fds if (not rd or f["rd"]) and (not wr or f["wr"]) and f["kind"] != "sock"]
        return self.r.choice(c) if c else None

    def c_read(self):
        r = self.r
        if r.random() < 0.06:
            k, off, n = self.span()
            bad = r.choice([("read", "_", "-1", "s%d+%d" % (k, off), n), ("read", "_", "777", "s%d+%d" % (k, off), n),
                            ("pread", "_", "-1", "s%d+%d" % (k, off), n, 0)])
            self.e(*bad)
            return
        f = self.pick_fd(rd=r.random() < 0.93)
        if not f:
            return
        k, off, n = self.span()
        m = r.random()
        fd = "f%d" % f["k"]
        if m < 0.5 or f["kind"] in ("fifo", "pipe"):
            self.e("read", self.reg(), fd, self.ptr(k, off), n)
        elif m < 0.75:
            o = r.choice([0, 1, r.randrange(700), 5000, -1, r.choice([0, 1 << 54, 1 << 62]) if f["kind"] == "file" else 1])
            self.e(r.choice(["pread", "pread64"]), self.reg(), fd, self.ptr(k, off), n, o)
        elif m < 0.8:
            self.e("stackread", "_", fd, r.randint(1, 256))
        elif m < 0.83:
            self.e("read", "_", fd, "null", r.choice([0, 10]))
        elif f["kind"] == "file" and r.random() < 0.05:  # further away than a label can say; nothing is there
            self.e("lseek", fd, (1 << 54) + 5, 0)
            self.e("read", self.reg(), fd, self.ptr(k, off), n)
            self.e("lseek", fd, 0, 0)
        elif f["kind"] == "file":
            self.e("lseek", fd, r.choice([0, 3, r.randrange(300), 10000]), r.choice([0, 0, 2]) if r.random() < 0.9 else 1)
            self.e("read", self.reg(), fd, self.ptr(k, off), n)

    def files_(self, rd=False, wr=False):
        c = [f for f in self.fps if (not rd or f["rd"]) and (not wr or f["wr"])]
        return self.r.choice(c) if c else None

    def switch(self, f, d):
        if f["last"] not in (None, d):
            self.e("fseek", "F%d" % f["k"], self.r.choice([0, 0, 5]), self.r.choice([1, 0, 2]))
        f["last"] = d

    def file_read_op(self, F, seekable=True):
        r = self.r
        m = r.random()
        if m < 0.35:
            k, off, n = self.span()
            size = r.choice([1, 1, 1, 2, 3, 8])
            self.e(r.choice(["fread", "fread_unlocked"]), self.reg(), F, self.ptr(k, off), size, n // size)
        elif m < 0.6:
            self.e(r.choice(["fgetc", "fgetc_unlocked", "getc", "getc_unlocked", "_IO_getc"]), self.reg(), F)
        elif m < 0.85:
            k, off, n = self.span()
            if n >= 1:
                self.e("fgets", self.reg(), F, self.ptr(k, off), n)
        else:
            self.e(r.choice(["getdelim", "__getdelim"]), self.reg(), F, "s%d" % r.choice([30, 31, 32]),
                   r.choice([10, 10, 32, 0, 255]), r.choice([-1, -1, 4, 120]))

    def c_file(self):
        r = self.r
        f = self.files_(rd=r.random() < 0.95)
        if not f:
            return
        F = "F%d" % f["k"]
        self.switch(f, "r")
        m = r.random()
        if m < 0.15:
            self.e("fseek", F, r.choice([0, 2, r.randrange(200), 4000]), r.choice([0, 0, 2]))
        self.file_read_op(F)

    def c_stdin(self):
        r = self.r
        if not self.stdin_mode:
            return
        if self.stdin_mode == "FILE":
            if r.random() < 0.3:
                big = [k for k, n in self.size.items() if n > 256]
                if big and r.random() < 0.25:
                    k = r.choice(big)
                    self.e("gets", self.reg(), self.ptr(k, 0), self.size[k])
                else:
                    self.e(r.choice(["getchar", "getchar_unlocked"]), self.reg())
            else:
                self.file_read_op("stdin")
        elif self.stdin_mode == "fd":
            k, off, n = self.span()
            self.e("read", self.reg(), "0", self.ptr(k, off), n)
            if r.random() < 0.08:
                self.e("close", "0")
                self.stdin_mode = None
                self.c_open()
        else:
            if not hasattr(self, "stdin_F"):
                self.stdin_F = self.nfp
                self.nfp += 1
                self.opens += 1
                self.e("fopen", "F%d" % self.stdin_F, hx("/dev/stdin"), hx("r"))
            self.file_read_op("F%d" % self.stdin_F)

    def c_mmap(self):
        r = self.r
        if r.random() < 0.35 and self.maps:
            k = r.choice(sorted(self.maps))
            self.maps.discard(k)
            self.size.pop(k, None)
            self.e("munmap", "s%d" % k)
            return
        if r.random() < 0.12:
            k, off, n = self.span(60)
            if n > 2:
                self.e("munmapbad", "s%d+%d" % (k, off), n)
            return
        if r.random() < 0.1 and self.maps:  # replace a mapping in place
            k = r.choice(sorted(self.maps))
            n = self.maplen[k]
            c = [f for f in self.fds if f["kind"] == "file" and f["rd"] and f["path"].startswith("in")]
            if c and r.random() < 0.5:
                self.size.pop(k, None)
                self.e("mmap", "s%d" % k, "f%d" % r.choice(c)["k"], n, 1, 0x10 | r.choice([1, 2]), 0)
            else:
                self.e("mmap", "s%d" % k, "-1", n, 3, 0x32, 0)
                self.size[k] = min(n, 600)
            return
        free = [k for k in range(20, 26) if k not in self.maps]
        if not free:
            return
        k = r.choice(free)
        if r.random() < 0.25:
            fd = r.choice(["-1", "f0"])
            n = r.choice([100, 4096, 5000])
            self.e("mmap", "s%d" % k, fd, n, 3, 0x22, 0)
            self.maps.add(k)
            self.maplen[k] = n
            self.size[k] = min(n, 600)
            return
        c = [f for f in self.fds if f["kind"] == "file" and f["rd"] and f["path"].startswith("in")]
        if not c:
            return
        f = r.choice(c)
        n = r.choice([1, 40, 300, 4096, 9000])
        off = r.choice([0, 0, 0, 4096, 8192, 1])
        self.e("mmap", "s%d" % k, "f%d" % f["k"], n, 1, r.choice([1, 2, 2, 3]), off)
        if off != 1:
            self.maps.add(k)
            self.maplen[k] = n

    def c_close(self):
        r = self.r
        m = r.random()
        if m < 0.6:
            c = [f for f in self.fds if f["kind"] != "sock"]
            if len(c) < 2:
                return
            f = r.choice(c)
            self.fds.remove(f)
            self.e("close", "f%d" % f["k"])
            if r.random() < 0.2:
                self.e("close", "f%d" % f["k"])
            if r.random() < 0.25:
                k, off, n = self.span()
                self.e("read", "_", "f%d" % f["k"], "s%d+%d" % (k, off), n)
            x = r.random()
            if x < 0.3:  # the number is reused by something untracked
                a, b = self.newfd(), self.newfd()
                if b > 290:
                    return
                self.e("pipe", "f%d" % a, "f%d" % b)
                self.e("nonblock", "f%d" % a)
                self.e("nonblock", "f%d" % b)
                self.e("feed", "f%d" % b, hx(self.data(20)))
                k, off, n = self.span()
                self.e("read", "_", "f%d" % a, "s%d+%d" % (k, off), n)
                k, off, n = self.span()
                self.e("write", "_", "f%d" % b, "s%d+%d" % (k, off), min(n, 1000))
                self.fds.append(dict(k=a, rd=True, wr=False, kind="pipe", path=None))
                self.fds.append(dict(k=b, rd=False, wr=True, kind="pipe", path=None))
            elif x < 0.7:
                self.c_open()
        else:
            if len(self.fps) < 2:
                return
            f = r.choice(self.fps)
            self.fps.remove(f)
            self.e("fclose", "F%d" % f["k"])
            if r.random() < 0.5:
                self.c_fopen()
        if r.random() < 0.05:
            self.e("close", "-1")

    def c_write(self):
        r = self.r
        f = self.pick_fd(wr=r.random() < 0.93)
        if not f:
            return
        k, off, n = self.span()
        if f["kind"] == "fifo" and r.random() < 0.3 and r.random() < 0.5:
            f2 = "f%d" % f["k"]
            # fill the pipe to force a partial write
            big = 3 if 3 in self.size else k
            for _ in range(r.randint(2, 30)):
                self.e("write", "_", f2, "s%d+0" % big, self.size[big])
            return
        if f["kind"] == "file" and r.random() < 0.2:
            self.e("lseek", "f%d" % f["k"], r.choice([0, 5, r.randrange(200), 3000]), r.choice([0, 0, 2]))
        self.e("write", self.reg(), "f%d" % f["k"], self.ptr(k, off), n)

    def c_fwrite(self):
        r = self.r
        m = r.random()
        if m < 0.3:
            F = r.choice(["stdout", "stderr"])
        else:
            f = self.files_(wr=r.random() < 0.93)
            if not f:
                return
            self.switch(f, "w")
            F = "F%d" % f["k"]
            if r.random() < 0.15:
                self.e("fseek", F, r.choice([0, 2, r.randrange(100)]), r.choice([0, 0, 2]))
            if r.random() < 0.05:
                self.e("fflush", F)
        if r.random() < 0.5:
            k, off, n = self.span()
            size = r.choice([1, 1, 2, 5])
            self.e("fwrite", self.reg(), F, self.ptr(k, off), size, n // size)
        else:
            self.e(r.choice(["putc", "fputc", "_putc"]), self.reg(), F, self.areg())

    def c_outfd(self):
        k, off, n = self.span(60)
        self.e("write", "_", self.r.choice(["1", "2"]), "s%d+%d" % (k, off), n)

    def c_heap(self):
        r = self.r
        m = r.random()
        k = r.randint(10, 18)
        if m < 0.15 and self.regs:
            self.e("taintheap", r.choice([8, 24, 100, 500, 3000]), self.areg())
        if m < 0.35:
            if k in self.heap:
                self.e("free", "s%d" % k)
            n = r.choice([1, 8, 24, 100, 500, 3000])
            self.e("malloc", "s%d" % k, n)
            self.heap.add(k)
            self.size[k] = n
        elif m < 0.5:
            if k in self.heap:
                self.e("free", "s%d" % k)
            a, b = r.choice([(1, 24), (10, 10), (3, 333), (100, 1)])
            self.e("calloc", "s%d" % k, a, b)
            self.heap.add(k)
            self.size[k] = a * b
        elif m < 0.54:
            self.e(*r.choice([("malloc", "s19", 1 << 62), ("calloc", "s19", 1 << 40, 1 << 40), ("calloc", "s19", 1 << 40, 1 << 10), ("calloc", "s19", 0, 8)]))
            self.size.pop(19, None)
        elif m < 0.9:
            n = r.choice([1, 8, 24, 25, 100, 500, 3000, 20000])
            if r.random() < 0.06:
                n = 1 << 60
                self.e("realloc", "s%d" % k, n)
                return
            self.e("realloc", "s%d" % k, n)
            self.heap.add(k)
            self.size[k] = n
        elif k in self.heap:
            self.e("free", "s%d" % k)
            self.heap.discard(k)
            self.size.pop(k, None)

    def two(self):
        ks = list(self.size)
        a = self.r.choice(ks)
        b = self.r.choice([k for k in ks if k != a])
        return a, b

    def num(self, n):
        """a length, sometimes carried by a tainted register"""
        if self.regs and self.r.random() < 0.15:
            d = self.reg()
            self.e("imm", d, n)
            d2 = self.reg()
            self.e("mov", d2, d, self.areg())
            return d2
        return str(n)

    def c_str(self):
        r = self.r
        a, b = self.two()
        na, nb = self.size[a], self.size[b]
        oa, ob = r.randrange(na), r.randrange(nb)
        if r.random() < 0.4:
            oa = 0
        if r.random() < 0.4:
            ob = 0
        m = r.random()
        d = self.reg() if r.random() < 0.8 else "_"
        if m < 0.14:
            n = r.randint(0, min(na - oa, nb - ob))
            self.e(r.choice(["memcpy", "memmove"]), d, self.ptr(a, oa), self.ptr(b, ob), self.num(n))
        elif m < 0.18:
            o2 = r.randrange(na)
            n = r.randint(0, na - max(oa, o2))
            self.e("memmove", d, self.ptr(a, oa), self.ptr(a, o2), n)
        elif m < 0.24:
            self.e("memset", d, self.ptr(a, oa), self.areg(), self.num(r.randint(0, na - oa)))
        elif m < 0.31:
            n = r.randint(0, na - oa)
            if r.random() < 0.5 or nb - ob < n:
                self.term(b, ob, r.randint(0, nb - ob - 1))
            self.e("strncpy", d, self.ptr(a, oa), self.ptr(b, ob), self.num(n))
        elif m < 0.38:
            room = na - oa - 1
            self.term(b, ob, r.randint(0, min(room, nb - ob - 1)))
            self.e("strcpy", d, self.ptr(a, oa), self.ptr(b, ob))
        elif m < 0.46:
            la = r.randint(0, na - oa - 1)
            self.term(a, oa, la)
            self.term(b, ob, r.randint(0, min(na - oa - la - 1, nb - ob - 1)))
            self.e("strcat", d, self.ptr(a, oa), self.ptr(b, ob))
        elif m < 0.5:
            self.term(b, ob)
            k = 19
            if k in self.heap:
                self.e("free", "s19")
            if b == 19:
                return
            self.heap.add(k)
            self.size.pop(k, None)
            self.e("strdup", "s19", self.ptr(b, ob))
        elif m < 0.58:
            n = r.randint(0, min(na - oa, nb - ob))
            if r.random() < 0.5 and n:
                self.e("memcpy", "_", "s%d+%d" % (a, oa), "s%d+%d" % (b, ob), n)
                if r.random() < 0.6:
                    self.e("poke", "s%d+%d" % (a, oa + r.randrange(n)), "x%02x" % r.choice([0, 65, 128, 255]))
            self.e(r.choice(["memcmp", "bcmp"]), d, self.ptr(a, oa), self.ptr(b, ob), self.num(n))
        elif m < 0.68:
            x, y = r.choice(WORDS), r.choice(WORDS)
            if r.random() < 0.5:
                y = x[:-1] + bytes([x[-1] ^ 0x20]) if x else x
            if r.random() < 0.2:
                x = x[:1] + b"\xff" + x[2:]
            x, y = x[:max(0, na - oa - 1)], y[:max(0, nb - ob - 1)]
            self.e("poke", "s%d+%d" % (a, oa), hx(x + b"\0"))
            self.e("poke", "s%d+%d" % (b, ob), hx(y + b"\0"))
            op = r.choice(["strcmp", "strcasecmp", "strncmp", "strncasecmp"])
            if op in ("strcmp", "strcasecmp"):
                self.e(op, d, self.ptr(a, oa), self.ptr(b, ob))
            else:
                self.e(op, d, self.ptr(a, oa), self.ptr(b, ob), self.num(r.choice([0, 1, 2, 3, 4, 100])))
        elif m < 0.73:
            self.term(a, oa)
            self.e("strlen", d, self.ptr(a, oa))
        elif m < 0.81:
            self.term(a, oa)
            c = r.choice(["0", "10", "97", "255", "353", "-1", self.areg()])
            op = r.choice(["strchr", "strrchr", "memchr"])
            if op == "memchr":
                self.e(op, d, self.ptr(a, oa), c, r.randint(0, na - oa))
            else:
                self.e(op, d, self.ptr(a, oa), c)
        elif m < 0.86:
            self.term(a, oa)
            w = r.choice([b"", b"a", b"b", b"ab", b"xyz", b"0", b"1\xff", b" "])[:max(0, nb - ob - 1)]
            self.e("poke", "s%d+%d" % (b, ob), hx(w + b"\0"))
            self.e(r.choice(["strstr", "strpbrk"]), d, self.ptr(a, oa), self.ptr(b, ob))
        elif m < 0.94:
            w = r.choice(WORDS)[:max(0, na - oa - 1)]
            self.e("poke", "s%d+%d" % (a, oa), hx(w + b"\0"))
            op = r.choice(["strtol", "strtoll", "strtoul", "strtoull", "strtod"])
            if op == "strtod":
                self.e(op, d, self.ptr(a, oa), r.choice([1, 1, 0]))
            else:
                self.e(op, d, self.ptr(a, oa), self.num(r.choice([0, 10, 16, 8, 2, 36])), r.choice([1, 1, 0]))
        else:
            self.c_fmt()

    def c_fmt(self):
        r = self.r
        big = [k for k, n in self.size.items() if n >= 160]
        if not big:
            return
        a = r.choice(big)
        b = r.choice([k for k in self.size if k != a])
        self.term(b, 0, r.randint(0, min(30, self.size[b] - 1)))
        oa = r.choice([0, 5])
        size = r.choice([-1, 0, 1, 2, 5, 10, 20, 100])
        if size >= 0 and r.random() < 0.3:
            oa = self.size[a] - size if size <= self.size[a] else 0
        d = self.reg()
        sp = "s%d+0" % b
        k, f, args = r.choice([
            (0, r.choice(["", "hello", "100%%", "%%x%%y"]), []),
            (1, r.choice(["%d", "<%5d>", "%-8d|", "%x", "%#X", "%u", "a%ib%%", "%hhd", "%c", "%o", "%+d", "%03d"]), ["I"]),
            (2, r.choice(["%s", "[%s]", "%.3s|", "%10s", "%-12s!", "a%sb", "%8.2s", "%.0s"]), ["S"]),
            (3, r.choice(["%f", "%.2e", "%g", "%10.3f"]), ["I"]),
            (4, r.choice(["%ld%c", "%li:%c;", "%lx %c"]), ["I", "I"]),
            (5, r.choice(["%d%s", "%d=%s.", "%5d %-9s|", "x%dy%sz"]), ["I", "S"]),
            (6, r.choice(["%s%n", "ab%sc%nd"]), ["S"]),
            (7, r.choice(["%*d", "<%*d>", "%.*d"]), ["W", "I"]),
            (8, r.choice(["%*s", "%.*s|", "%-*s"]), ["W", "S"]),
            (9, r.choice(["%*.*s", "[%-*.*s]"]), ["W", "P", "S"]),
            (2, r.choice(["%.12s", "%.25s|", "%25.11s", "%-25.13s", "%013.010s"]), ["S"]),
            (4, r.choice(["%zu%c", "%jd:%c", "%td%c", "%qd%c", "%lld %c", "%llx%c", "%lo,%c"]), ["I", "I"]),
            (1, r.choice(["%hd", "%hx", "%hhx", "%hhu", "%5.3d", "% d", "%-+7i|", "%.0d", "%2147483648d"]), ["I"]),
            (3, r.choice(["%E", "%G", "%a", "%A", "%-+9.1f|", "%F", "%#.0f"]), ["I"]),
            (10, r.choice(["%Lf", "%.2Le", "%Lg", "[%12.3Lf]"]), ["I"]),
            (11, r.choice(["%*.*Lf", "<%-*.*Le>", "%+*.*Lg"]), ["W", "P", "I"]),
            (12, r.choice(["%m", "<%m>", "%d: %m", "%m (%d)", "%30m|", "%m%%"]), ["I"]),
            (13, r.choice(["%s%hhn", "ab%sc%hnd", "%s%ln", "%s%lln", "%s%jn", "%s%zn", "%s%tn"]), ["S"]),
        ])
        out = []
        for x in args:
            if x == "I":
                out.append(self.areg())
            elif x == "S":
                out.append(sp if r.random() < 0.97 or "." in f else "null")
            elif x == "W":
                out.append(r.choice([0, 3, 12, -9]))
            else:
                out.append(r.choice([0, 2, 40, -1]))
        self.e("snprintf", d, "s%d+%d" % (a, oa), size, hx(f), k, *out)

    def room(self, n):
        c = [k for k, s in self.size.items() if s >= n]
        if not c:
            return None
        k = self.r.choice(c)
        return "s%d+%d" % (k, self.r.randint(0, self.size[k] - n))

    def room8(self, n):
        # suitably aligned for structures
        c = [k for k, s in self.size.items() if s >= n + 16 and (k in self.heap)]
        if not c:
            return None
        return "s%d+0" % self.r.choice(c)

    def c_sys(self):
        r = self.r
        d = self.reg() if r.random() < 0.6 else "_"
        op = r.choice(["stat", "fstat", "gettimeofday", "clock_gettime", "time", "ctime_r", "localtime_r", "inet_pton",
                       "getcwd", "getrlimit", "getrusage", "gethostname", "sigemptyset", "poll", "select", "thread",
                       "sigaction", "recvmsg", "fork", "socketpair"] + ["sysfill"] * 7)
        need = dict(stat=144, fstat=144, gettimeofday=16, clock_gettime=16, time=8, getrlimit=16, getrusage=144,
                    sigemptyset=128, poll=8, select=128, thread=8, sigaction=152, socketpair=8, sysfill=384).get(op)
        if need:
            p = self.room8(need)
            if not p:
                k = 18
                if k in self.heap:
                    self.e("free", "s18")
                self.e("malloc", "s18", 512)
                self.heap.add(18)
                self.size[18] = 512
                p = "s18+0"
            if self.regs and r.random() < 0.8:
                self.e("setl", p, need + r.choice([0, 4, 16]), self.areg())
        if op == "stat":
            self.e("stat", d, hx(r.choice(["in0", "missing", "sub"])), p)
        elif op == "fstat":
            self.e("fstat", d, r.choice(["f0", "-1"]), p)
        elif op == "gettimeofday":
            self.e(op, d, p)
        elif op == "clock_gettime":
            self.e(op, d, r.choice([0, 1, 99]), p)
        elif op == "time":
            self.e(op, d, r.choice([p, "null"]))
        elif op in ("ctime_r", "localtime_r"):
            q = self.room8(80)
            if not q:
                return
            src = [k for k in self.heap if self.size.get(k, 0) >= 24 and "s%d+0" % k != q]
            if not src:
                return
            s = r.choice(src)
            self.e("poke", "s%d+0" % s, hx(r.choice([0, 10**9, -5, 2**40, 2**62]).to_bytes(8, "little", signed=True)))
            self.e(op, d, "s%d+0" % s, q + ("@" + self.areg() if self.regs and r.random() < .2 and False else ""))
        elif op == "inet_pton":
            q = self.room(16)
            a = [k for k in self.size if q and self.size[k] >= 20 and not q.startswith("s%d+" % k)]
            if not a:
                return
            a = r.choice(a)
            self.e("poke", "s%d+0" % a, hx(r.choice(WORDS[12:16] + [b"10.0.0.1"]) + b"\0"))
            self.e(op, d, r.choice([2, 10, 2, 77]), "s%d+0" % a, q)
        elif op == "getcwd":
            k, off, n = self.span()
            if n:
                self.e(op, d, "s%d+%d" % (k, off), n)
        elif op in ("getrlimit", "getrusage"):
            self.e(op, d, r.choice([0, 0, 99]) if op == "getrlimit" else r.choice([0, 0, 55]), p)
        elif op == "gethostname":
            k, off, n = self.span()
            if n:
                self.e(op, d, "s%d+%d" % (k, off), n)
        elif op == "sigemptyset":
            self.e(op, d, p)
        elif op == "sysfill":
            w = r.choice(["epoll_wait", "curdir", "getpwuid_r", "getsockopt", "sockname", "peername", "nanosleep",
                          "recvname", "recvname", "recvmmsg", "affinity", "altstack", "phdr", "broadcast"])
            self.e(op, d, w, p, r.randrange(32))
        elif op == "poll":
            self.e(op, d, r.choice(["f0", "-1"]), p)
        elif op == "select":
            t = "null"
            self.e(op, d, "f0", p, "s5+0" if False else t) if False else None
            q = [k for k in self.heap if self.size.get(k, 0) >= 16 and "s%d+0" % k != p]
            if q:
                self.e(op, d, "f0", p, "s%d+0" % r.choice(q))
        elif op == "thread":
            self.e(op, d, r.choice([p, "null"]))
        elif op == "sigaction":
            sg = r.choice([10, 10, 12, 34, 34, 9, 999])
            for _ in range(r.choice([1, 2, 6])):
                self.e(op, d, sg, r.choice([p, p, "null"]), r.choice("hhhaaiidqqqHHID"))
        elif op == "fork":
            if r.random() < 0.3:
                self.e(op, d)
        elif op == "socketpair":
            if self.nfd < 270:
                a, b = self.newfd(), self.newfd()
                self.e(op, "f%d" % a, "f%d" % b, p)
        elif op == "recvmsg":
            if self.nfd > 270:
                return
            a, b = self.newfd(), self.newfd()
            self.e("unix", "f%d" % a, "f%d" % b)
            self.e("feed", "f%d" % b, hx(self.data(r.choice([1, 9, 30]))))
            x, y = self.two()
            nx, ny = min(8, self.size[x]), min(10, self.size[y])
            self.e("recvmsg", d, "f%d" % a, "s%d+0" % x, nx, "s%d+0" % y, ny)

    def c_sock(self):
        r = self.r
        if not self.listen:
            self.e("listen", 0)
            self.listen = 1
        if (len(self.conns) < 2 or r.random() < 0.1) and self.nfd < 270 and self.opens < 90:
            m = r.random()
            if m < 0.2:
                a, b = self.newfd(), self.newfd()
                self.opens += 1
                if m < 0.14:
                    self.e("udp", "f%d" % a, "f%d" % b)
                    self.udp.append(dict(a=a, b=b, pend=[]))
                else:
                    self.e("otherconn", "f%d" % a, "f%d" % b, r.choice([0, 0, 1]))
            elif m < 0.3:
                k = self.newfd()
                self.e("connectbad", "f%d" % k)
                self.opens += 1
            elif m < 0.38:
                k = self.newfd()
                self.opens += 1
                self.e("acceptdead", "f%d" % k, 0)
            else:
                a, b = self.newfd(), self.newfd()
                self.opens += 2
                self.e("connect", "f%d" % a, 0)
                self.e("accept", "f%d" % b, 0, r.choice([0, 1]), r.choice([0, 1]))
                self.conns.append([dict(k=a, pend=0), dict(k=b, pend=0)])
            return
        if self.udp and r.random() < 0.25:
            u = r.choice(self.udp)
            m = r.random()
            if m < 0.4 or not u["pend"]:
                if len(u["pend"]) < 6:
                    n = r.choice([1, 5, 20, 60])
                    self.e("feed", "f%d" % u["b"], hx(self.data(n)))
                    u["pend"].append(n)
            else:
                k, off, n = self.span(80)
                fl = r.choice([0x40, 0x40, 0x60, 0x42, 0x62])
                if fl & 2 == 0:
                    u["pend"].pop(0)
                if r.random() < 0.5:
                    self.e("recv", self.reg(), "f%d" % u["a"], "s%d+%d" % (k, off), n, fl)
                else:
                    self.e("recvfrom", self.reg(), "f%d" % u["a"], "s%d+%d" % (k, off), n, fl, r.choice([0, 1]))
            return
        if not self.conns:
            return
        c = r.choice(self.conns)
        x, y = c if r.random() < 0.5 else c[::-1]
        m = r.random()
        if m < 0.45:
            k, off, n = self.span(200)
            if r.random() < 0.5:
                self.e("send", self.reg(), "f%d" % x["k"], "s%d+%d" % (k, off), n, r.choice([0, 0x4000]))
            else:
                self.e("write", self.reg(), "f%d" % x["k"], "s%d+%d" % (k, off), n)
            y["pend"] += n
        elif m < 0.9:
            if y["pend"] == 0:
                k, off, n = self.span(100)
                self.e("recv", self.reg(), "f%d" % y["k"], "s%d+%d" % (k, off), n, 0x40)
                return
            k, off, n = self.span(y["pend"])
            n = min(n, y["pend"])
            if n == 0:
                return
            z = r.random()
            if z < 0.2:
                self.e("recv", self.reg(), "f%d" % y["k"], "s%d+%d" % (k, off), n, 0x102)
            elif z < 0.35:
                self.e("read", self.reg(), "f%d" % y["k"], "s%d+%d" % (k, off), 1)
                y["pend"] -= 1
            elif z < 0.7:
                self.e("recvfrom", self.reg(), "f%d" % y["k"], "s%d+%d" % (k, off), n, 0x100, r.choice([0, 1]))
                y["pend"] -= n
            else:
                self.e("recv", self.reg(), "f%d" % y["k"], "s%d+%d" % (k, off), n, 0x100)
                y["pend"] -= n
        else:
            self.conns.remove(c)
            self.e("close", "f%d" % x["k"])
            self.e("close", "f%d" % y["k"])

    def generate(self):
        self.setup()
        w = self.p["w"]
        cats = list(w)
        ws = [w[c] for c in cats]
        while len(self.lines) < self.nops:
            getattr(self, "c_" + self.r.choices(cats, ws)[0])()
        # everything that is known at the end goes through a final round of loads
        for k in sorted(self.size)[:6]:
            if k < 20:
                self.e("rdl", "_", "s%d+0" % k, self.size[k])
        code = self.r.choice([0, 0, 0, 3, 255])
        self.e(*self.r.choice([("return", code), ("return", code), ("exit", code), ("threadexit", code)]))
        self.case.update(files=self.files, env=self.env, script=self.lines)
        return self.case


PROFILES = {
    "dag": dict(name="dag", stdin=0.1, stdout=0.1, w=dict(dag=60, read=6, cf=4, str=3, write=2)),
    "cf": dict(name="cf", stdin=0.1, stdout=0.1, w=dict(dag=50, cf=25, read=8, str=3)),
    "in": dict(name="in", stdin=0.7, w=dict(read=25, file=25, open=10, fopen=8, close=10, mmap=6, sock=8, stdin=12, write=4, fwrite=2, dag=3, str=4)),
    "out": dict(name="out", stdin=0.2, stdout=0.7, w=dict(write=25, fwrite=28, open=10, fopen=8, close=8, sock=10, outfd=5, read=8, file=3, dag=6, str=6)),
    "str": dict(name="str", stdin=0.1, stdout=0.1, w=dict(str=60, sys=12, heap=14, read=6, dag=5, mmap=2)),
    "log": dict(name="log", stdin=0.1, stdout=0.1, w=dict(fn=70, cf=15, dag=10, read=3)),
    "det": dict(name="det", stdin=0.4, w=dict(dag=14, cf=6, fn=10, open=6, fopen=5, read=10, file=10, stdin=4, close=4, write=9, fwrite=9, str=10)),
    "mix": dict(name="mix", stdin=0.4, w=dict(dag=12, cf=4, fn=4, open=6, fopen=5, read=10, file=10, stdin=4, mmap=3, close=5, write=8,
                                              fwrite=8, outfd=2, heap=8, str=20, sys=6, sock=5)),
}


def make(profile, seed, nops=260):
    return Gen("%s-%s" % (profile, seed), PROFILES[profile], nops).generate()
