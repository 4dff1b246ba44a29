"""Independent reader of TDAG files.

Written from the format description only (header, section table, fixed-size
records); shares no code with polytracker.taint_dag, so the two can be compared.
"""
import mmap
import os
import struct

T_SOURCES, T_LABELS, T_STRINGS, T_SINKS, T_SLI, T_FUNCS, T_EVENTS, T_CFLOG = range(1, 9)
NAMES = {1: "sources", 2: "labels", 3: "strings", 4: "sinks", 5: "source-label-index",
         6: "functions", 7: "events", 8: "control-flow-log"}
SRC_BIT, CF_BIT = 1 << 63, 1 << 62
M31 = (1 << 31) - 1


class Malformed(Exception):
    pass


class Tdag:
    """`unfinished=True` reads a file whose writer never ran its finalizer."""

    def __init__(self, path, unfinished=False, nlabels=None):
        self.path = path
        self.f = open(path, "rb")
        self.file_size = os.fstat(self.f.fileno()).st_size
        self.m = mmap.mmap(self.f.fileno(), 0, prot=mmap.PROT_READ)
        if self.m[:4] != b"TDAG":
            raise Malformed("bad magic bytes %r" % self.m[:4])
        self.magic, self.count = struct.unpack_from("<HH", self.m, 4)
        self.sections = {}
        self.order = []
        for i in range(self.count):
            tag, align, off, size = struct.unpack_from("<IIQQ", self.m, 8 + 24 * i)
            if tag in self.sections:
                raise Malformed("section tag %d appears twice" % tag)
            self.sections[tag] = (off, size, align)
            self.order.append(tag)
        self.header_end = 8 + 24 * self.count
        self.unfinished = unfinished
        self._den = {}
        self._bits = {}
        self._bitlist = []
        self.label_limit = nlabels

    def close(self):
        self.m.close()
        self.f.close()

    def sec(self, tag):
        off, size, _ = self.sections[tag]
        return off, size

    # ---- structural well-formedness -------------------------------------
    def structural_errors(self):
        errs = []
        want = {1, 2, 3, 4, 5, 6, 7, 8}
        if set(self.sections) != want:
            errs.append("sections present %s, wanted %s" % (sorted(self.sections), sorted(want)))
        if self.magic != (sum(self.sections) ^ self.count):
            errs.append("version number %d does not match its sections" % self.magic)
        spans = []
        rec = {1: 16, 2: 8, 4: 16, 6: 4, 7: 4}
        for tag, (off, size, align) in self.sections.items():
            if align and off % align:
                errs.append("section %d at %d is not aligned to %d" % (tag, off, align))
            if off < self.header_end or off + size > self.file_size:
                errs.append("section %d [%d,+%d) outside the file" % (tag, off, size))
            if tag in rec and size % rec[tag]:
                errs.append("section %d size %d is not a whole number of records" % (tag, size))
            spans.append((off, off + size, tag))
        spans.sort()
        for a, b in zip(spans, spans[1:]):
            if a[1] > b[0]:
                errs.append("sections %d and %d overlap" % (a[2], b[2]))
        return errs

    # ---- strings ---------------------------------------------------------
    def string_at(self, rel):
        off, size = self.sec(T_STRINGS)
        if not self.unfinished and rel + 2 > size:
            raise Malformed("string offset %d beyond table of %d" % (rel, size))
        (n,) = struct.unpack_from("<H", self.m, off + rel)
        if not self.unfinished and rel + 2 + n > size:
            raise Malformed("string at %d (+%d) beyond table of %d" % (rel, n, size))
        return self.m[off + rel + 2: off + rel + 2 + n]

    def sources(self):
        off, size = self.sec(T_SOURCES)
        out = []
        for i in range(size // 16):
            so, fd, sz = struct.unpack_from("<IiQ", self.m, off + 16 * i)
            out.append((self.string_at(so), fd, sz))
        return out

    # ---- labels ----------------------------------------------------------
    def nlabels(self):
        if self.label_limit is not None:
            return self.label_limit
        return self.sec(T_LABELS)[1] // 8

    def raw(self, label):
        off, size = self.sec(T_LABELS)
        if not self.unfinished and label * 8 + 8 > size:
            raise Malformed("label %d beyond the %d recorded" % (label, size // 8))
        return struct.unpack_from("<Q", self.m, off + 8 * label)[0]

    def all_raw(self):
        off, size = self.sec(T_LABELS)
        return struct.unpack_from("<%dQ" % (size // 8), self.m, off)

    @staticmethod
    def decode(v):
        """('none',) | ('src', idx, offset) | ('range', a, b) | ('union', lo, hi)"""
        if v & SRC_BIT:
            return ("src", v & 0xFF, (v >> 8) & ((1 << 54) - 1))
        a, b = (v >> 31) & M31, v & M31
        if a == 0 and b == 0:
            return ("none",)
        if a < b:
            return ("range", a, b)
        return ("union", b, a)

    @staticmethod
    def cf(v):
        return bool(v & CF_BIT)

    def bit(self, src, off):
        k = (src, off)
        b = self._bits.get(k)
        if b is None:
            b = self._bits[k] = len(self._bitlist)
            self._bitlist.append(k)
        return 1 << b

    def explain(self, mask, limit=12):
        out = []
        while mask and len(out) < limit:
            low = mask & -mask
            out.append(self._bitlist[low.bit_length() - 1])
            mask ^= low
        return out + (["..."] if mask else [])

    def denote(self, label):
        """Bit set of the (source, offset) pairs a label stands for."""
        d = self._den.get(label)
        if d is not None:
            return d
        stack = [label]
        while stack:
            x = stack[-1]
            if x in self._den:
                stack.pop()
                continue
            t = self.decode(self.raw(x))
            if t[0] == "none":
                self._den[x] = 0
            elif t[0] == "src":
                self._den[x] = self.bit(t[1], t[2])
            else:
                kids = range(t[1], t[2] + 1) if t[0] == "range" else (t[1], t[2])
                if max(kids) >= x:
                    raise Malformed("label %d refers to label %d, not an earlier one" % (x, max(kids)))
                todo = [k for k in kids if k not in self._den]
                if todo:
                    stack.extend(todo)
                    continue
                d = 0
                for k in kids:
                    d |= self._den[k]
                self._den[x] = d
        return self._den[label]

    # ---- the rest --------------------------------------------------------
    def sinks(self):
        off, size = self.sec(T_SINKS)
        out = []
        for i in range(size // 16):
            o, l, idx = struct.unpack_from("<qIB", self.m, off + 16 * i)
            out.append((idx, o, l))
        return out

    def index_bits(self):
        """Labels flagged as source labels in the index section."""
        off, size = self.sec(T_SLI)
        data = self.m[off: off + size]
        return {8 * i + b for i, c in enumerate(data) if c for b in range(8) if c >> b & 1}

    def functions(self):
        off, size = self.sec(T_FUNCS)
        return [self.string_at(struct.unpack_from("<I", self.m, off + 4 * i)[0]) for i in range(size // 4)]

    def events(self):
        off, size = self.sec(T_EVENTS)
        out = []
        for i in range(size // 4):
            k, fn = struct.unpack_from("<BxH", self.m, off + 4 * i)
            out.append((k, fn))
        return out

    def cflog(self):
        off, size = self.sec(T_CFLOG)
        data = self.m[off: off + size]
        out = []
        p = 0

        def varint():
            nonlocal p
            r = s = 0
            while True:
                if p >= len(data):
                    raise Malformed("control-flow log ends inside a number")
                c = data[p]
                p += 1
                r |= (c & 0x7F) << s
                s += 7
                if not c & 0x80:
                    return r

        while p < len(data):
            k = data[p]
            p += 1
            if k in (0, 1):
                out.append((k, varint()))
            elif k == 2:
                f = varint()
                out.append((k, f, varint()))
            else:
                raise Malformed("control-flow log has event kind %d" % k)
        return out
