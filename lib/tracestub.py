"""A recorder of parser runs behind polytracker's abstract trace interface: the runtime's own
function-level traces cannot be loaded as such, so the recorded history is supplied by generated
parsers instead; everything that judges or transforms it is polytracker's own code."""
from polytracker.inputs import Input
from polytracker.tracing import (BasicBlock, BasicBlockEntry, ByteAccessType, ByteOffset, Function, FunctionEntry,
                                 FunctionReturn, ProgramTrace, TaintAccess, Taints, TraceEvent)


class Fn(Function):
    def taints(self):
        raise NotImplementedError()

    calls_to = called_from = taints


class Block(BasicBlock):
    def taints(self):
        raise NotImplementedError()

    entries = taints


class Event(TraceEvent):
    def __init__(self, tr, frame):
        TraceEvent.__init__(self, len(tr.events))
        tr.events.append(self)
        self.tr = tr
        self.frame = frame

    @property
    def previous_event(self):
        return self.tr.events[self.uid - 1] if self.uid else None

    @property
    def next_event(self):
        return self.tr.events[self.uid + 1] if self.uid + 1 < len(self.tr.events) else None

    previous_global_event = previous_event
    next_global_event = next_event

    @property
    def function_entry(self):
        return self.frame

    @property
    def function(self):
        return self.frame.fn

    def taints(self):
        return Taints(())


class Entry(Event, FunctionEntry):
    def __init__(self, tr, fn):
        self.fn = fn
        self.ret = None
        Event.__init__(self, tr, self)

    @property
    def function_return(self):
        return self.ret

    @property
    def function(self):
        return self.fn


class BB(Event, BasicBlockEntry):
    def __init__(self, tr, frame, block):
        Event.__init__(self, tr, frame)
        self.block = block
        self.consumed = []

    @property
    def basic_block(self):
        return self.block

    def taints(self):
        return Taints(ByteOffset(source=self.tr.source, offset=i) for i in self.consumed)


class Ret(Event, FunctionReturn):
    def __init__(self, tr, frame, block):
        Event.__init__(self, tr, frame)
        self.block = block

    @property
    def basic_block(self):
        return self.block


class Access(TaintAccess):
    def __init__(self, i, ev, off):
        super().__init__(i, ev, 1, ByteAccessType.INPUT_ACCESS)
        self.off = off

    def taints(self):
        return Taints([ByteOffset(source=self.event.tr.source, offset=self.off)])


class Trace(ProgramTrace):
    ENTRY = Entry

    def __init__(self, data):
        self.source = Input(uid=1, path="in", size=len(data), content=data)
        self.data = data
        self.events = []
        self.fns = {}
        self.blocks = {}
        self.stack = []
        self.cur = []
        self.accesses = []
        self.pos = 0

    # recording
    def call(self, name):
        fn = self.fns.setdefault(name, Fn(name, len(self.fns)))
        self.stack.append(self.ENTRY(self, fn))
        self.cur.append(None)
        self.bb("entry")

    def bb(self, name):
        fn = self.stack[-1].fn
        bs = self.blocks.setdefault(fn.name, {})
        if name not in bs:
            bs[name] = Block(fn, len(bs))
        self.cur[-1] = BB(self, self.stack[-1], bs[name])

    def ret(self):
        e = self.stack.pop()
        b = self.cur.pop()
        e.ret = Ret(self, e, b.block)
        if self.stack:
            self.bb("after_" + e.fn.name)

    def peek(self, n):
        got = self.data[self.pos:self.pos + n]
        self.cur[-1].consumed.extend(range(self.pos, self.pos + len(got)))
        self.accesses += [(self.cur[-1], self.pos + i) for i in range(len(got))]
        return got

    def read(self, n):
        got = self.peek(n)
        self.pos += len(got)
        return got

    # ProgramTrace
    def __len__(self):
        return len(self.events)

    def __iter__(self):
        return iter(self.events)

    def __getitem__(self, uid):
        return self.events[uid]

    get_event = __getitem__

    def __contains__(self, uid):
        return 0 <= uid < len(self.events)

    has_event = __contains__

    @property
    def functions(self):
        return self.fns.values()

    @property
    def basic_blocks(self):
        return [b for bs in self.blocks.values() for b in bs.values()]

    def get_function(self, name):
        return self.fns[name]

    def has_function(self, name):
        return name in self.fns

    def access_sequence(self):
        return (Access(i, ev, o) for i, (ev, o) in enumerate(self.accesses))

    @property
    def num_accesses(self):
        return len(self.accesses)

    @property
    def inputs(self):
        return (self.source,)

    @property
    def outputs(self):
        return ()

    @property
    def output_taints(self):
        return ()

    @property
    def taint_forest(self):
        raise NotImplementedError()

    def file_offset(self, node):
        raise NotImplementedError()
