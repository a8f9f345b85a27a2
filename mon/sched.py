"""A seeded scheduler for threads running pysolar code.

Every thread runs only while it holds the baton; at traced points (lines, or single opcodes, of pysolar code) the baton may be handed to
another thread, as the random stream decides. A thread that blocks on a lock of the library loses the baton after
a while, so code that synchronises correctly makes progress. The hand-overs are recorded: their sequence identifies the interleaving."""
import contextlib
import os
import random
import sys
import threading

STEAL_S = 0.02


class Baton:
    def __init__(self, n, seed, p, root, opcodes):
        self.cv = threading.Condition(threading.Lock())
        self.r = random.Random(seed)
        self.alive = set(range(n))
        self.holder = None
        self.n, self.p, self.root, self.opcodes = n, p, root, opcodes
        self.trail = []
        self.events = 0
        self.opcode_events = 0
        self.switches = 0
        self.steals = 0
        self.ids = {}
        self.burst = 0

    def enter(self, me):
        self.ids[threading.get_ident()] = me
        with self.cv:
            if len(self.ids) == self.n:
                self.holder = self.r.choice(sorted(self.alive))
                self.cv.notify_all()
            self._wait(me)

    def _wait(self, me):
        while self.holder != me:
            seen = self.events
            if not self.cv.wait(STEAL_S) and self.holder is not None and self.events == seen and self.holder != me and len(self.ids) == self.n:
                self.steals += 1
                self.holder = me
                self.cv.notify_all()

    def leave(self, me):
        with self.cv:
            self.alive.discard(me)
            if self.holder == me and self.alive:
                self.holder = self.r.choice(sorted(self.alive))
            self.cv.notify_all()

    def point(self, me, where):
        self.events += 1
        if self.holder == me and self.r.random() >= self.p:
            return
        with self.cv:
            if self.holder == me:
                others = sorted(self.alive - {me})
                if not others:
                    return
                self.holder = self.r.choice(others)
                self.switches += 1
                self.trail.append((me, self.holder, where))
                self.cv.notify_all()
            self._wait(me)

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        me = self.ids.get(threading.get_ident())
        if me is None:
            return None
        def local(f, ev, a):
            if ev == 'line':
                self.point(me, f.f_lineno)
            return local
        self.point(me, frame.f_lineno)
        return local


def codes(root):
    """the code objects of the loaded library"""
    todo, seen = [], set()
    for m in [m for m in list(sys.modules.values()) if (getattr(m, '__file__', None) or '').startswith(root)]:
        for v in list(vars(m).values()):
            while v is not None:
                if isinstance(v, type):
                    todo += [f.__code__ for f in vars(v).values() if hasattr(f, '__code__')]
                if hasattr(v, '__code__'):
                    todo.append(v.__code__)
                v = getattr(v, '__wrapped__', None)
    while todo:
        c = todo.pop()
        if c in seen or not c.co_filename.startswith(root):
            continue
        seen.add(c)
        todo += [x for x in c.co_consts if hasattr(x, 'co_code')]
    return seen


class Opcodes:
    """points at every instruction of the library, through sys.monitoring (settrace's opcode events crash CPython 3.12 with threads)"""

    def __init__(self, baton):
        self.b, self.codes = baton, codes(baton.root)

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(4, 'verif-sched')

        def instruction(code, offset):
            me = self.b.ids.get(threading.get_ident())
            if me is not None:
                self.b.opcode_events += 1
                self.b.point(me, (code.co_firstlineno, offset))
        mon.register_callback(4, mon.events.INSTRUCTION, instruction)
        for c in self.codes:
            mon.set_local_events(4, c, mon.events.INSTRUCTION)

    def __exit__(self, *a):
        mon = sys.monitoring
        for c in self.codes:
            mon.set_local_events(4, c, 0)
        mon.register_callback(4, mon.events.INSTRUCTION, None)
        mon.free_tool_id(4)


def run(workers, seed, p, root, opcodes=False, limit=60):
    """run the callables under a seeded schedule; returns (results, baton) or None when it did not end"""
    b = Baton(len(workers), seed, p, root.rstrip(os.sep) + os.sep, opcodes)
    res = [None] * len(workers)

    def body(i):
        b.enter(i)
        try:
            if not opcodes:
                sys.settrace(b.tracer)
            res[i] = workers[i]()
        finally:
            sys.settrace(None)
            b.leave(i)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(workers))]
    with Opcodes(b) if opcodes and hasattr(sys, 'monitoring') else contextlib.nullcontext():
        for t in ts:
            t.start()
        for t in ts:
            t.join(limit)
            if t.is_alive():
                return None
    return res, b


def free_run(workers, interval, limit=60):
    """run the callables preemptively with a tiny switch interval"""
    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    gate = threading.Barrier(len(workers))
    res = [None] * len(workers)

    def body(i):
        gate.wait()
        res[i] = workers[i]()
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(workers))]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(limit)
            if t.is_alive():
                return None
    finally:
        sys.setswitchinterval(old)
    return res
