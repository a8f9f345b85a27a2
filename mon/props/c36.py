"""each public function called a thousand times with ever new and related arguments in a fork, failing calls and calls with arrays, with time zones never used before, and spans abandoned early included: memory blocks still
allocated, open files and threads before and after; when the number of blocks grows the run is extended until it either levels off (a bounded cache)
or has grown without bound; spans advanced row by row: memory per row and library lines executed per row, for spans of any length; library lines
executed by one call, for all arguments and before and after the others."""
import gc
import os
import pickle
import random
import signal
import sys
import threading
import warnings
import datetime as dt
from .. import core
from ..calls import Caller
from ..gen import Gen, OddTz
from .c27 import PLACE, STAGE, TIMES
from .c28 import BAD
from .c29 import forked, run_raw
QUICK = 1
DRESS = None
FLOOR = 300
REQUIRED = ('memory_runs', 'calls_measured', 'failing_calls_measured', 'array_calls_measured', 'new_zones_measured', 'abandoned_spans', 'span_rows', 'long_spans', 'work_measured')
PER_CALL = .4          # blocks; what is kept of a call needs one or more
MAX_LINES = 20000


def fds():
    return len(os.listdir('/proc/self/fd'))


def lines_of(root, f):
    """library lines executed by f()"""
    n = [0]

    def local(frame, event, arg):
        n[0] += event == 'line'
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(root) else None
    sys.settrace(tracer)
    try:
        f()
    finally:
        sys.settrace(None)
    return n[0]


def arrayed(c):
    """the call with arrays of three for its numbers"""
    import numpy as np
    return c[0], tuple(np.array([x, x / 2, x]) if isinstance(x, (int, float)) else x for x in c[1]), {}


def zoned(c, r):
    """the call with time zones never used before"""
    off = dt.timedelta(microseconds=r.randrange(-80000000000, 80000000000))
    z = r.random()
    tz = dt.timezone(off) if z < .5 else dt.timezone(off, f'Z{r.random()}') if z < .75 else OddTz(r.randint(-700, 700), 60)

    def new(x):
        return x.replace(tzinfo=tz) if isinstance(x, dt.datetime) and x.tzinfo is not None else x
    return c[0], tuple(new(x) for x in c[1]), {k: new(v) for k, v in c[2].items()}


def perform(ns, c, how):
    if how != '~':
        return run_raw(ns, c)
    m, _, f = c[0].partition('.')      # a span that is dropped or closed after a row or two
    try:
        it = getattr(ns[m], f)(*c[1], **c[2])
        for _ in range(len(repr(c[1][-1])) % 3):
            next(it)
        if len(repr(c[1])) % 2:
            it.close()
    except Exception:
        pass


def vary(c, how, r):
    return arrayed(c) if how == '[]' else zoned(c, r) if how == '@' else c


def quiet():
    signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    warnings.simplefilter('ignore')


def memory():
    gc.collect()
    return sys.getallocatedblocks()


def grow(ns, calls, chunks, how):
    """blocks left behind by each chunk of the calls (the first one is warm-up), and files and threads left behind"""
    quiet()
    size = len(calls) // chunks
    blobs = [pickle.dumps(c) for c in calls]
    out = []
    for k in range(chunks):
        if k == 1:
            f, t = fds(), threading.active_count()
        m = memory()
        for b in blobs[k * size:(k + 1) * size]:      # new objects, which are gone after the call unless they are kept
            perform(ns, pickle.loads(b), how)
        b = None
        out.append(memory() - m)
    return out[1:], fds() - f, threading.active_count() - t


def long_run(ns, maker, seed, steps, per, how):
    """growth in each of the steps of a longer run"""
    quiet()
    r = random.Random(seed)
    mk = Caller(Gen(r, ((), ())), lambda n: n in maker[1])
    out = []
    for k in range(steps):
        m = memory()
        for _ in range(per):
            c = mk.make(maker[0]) if maker[0] else r.choice(BAD) + ({},)
            perform(ns, vary(c, how, r), how)
        out.append(memory() - m)
    return out


def rows(ns, args, n):
    """blocks left behind by each n rows of a span"""
    quiet()
    it = ns['simulate'].simulate_span(*args)
    out = []
    for _ in range(4):
        m = memory()
        for _ in range(n):
            next(it)
        out.append(memory() - m)
    return out[1:]


def run(ctx):
    g, r = ctx.gen, ctx.rng
    ns = ctx.api
    root = os.path.join(os.path.abspath(core.REPO), 'pysolar') + os.sep
    maker = Caller(g, ctx.has)
    warnings.simplefilter('ignore')
    ctx.cov.stop()
    for k in range(30000):      # fills the interpreter's own pools of small objects
        (dt.datetime(1970, 1, 1) + dt.timedelta(seconds=99991 * k)).utctimetuple()
    heavy = set(maker.heavy) | {n for n in maker.names if n.startswith(('util.', 'simulate.'))}
    timed = [n for n in maker.names if any(isinstance(x, dt.datetime) for x in maker.make(n)[1])]
    names = [(n, '') for n in maker.names] + [(None, '')] * 8 + [(n, '[]') for n in PLACE + TIMES + STAGE if n in maker.names]
    names += [(n, '@') for n in timed] + [(n, '~') for n in maker.names if n.startswith('simulate.')]
    for i in ctx.rounds(2 * ctx.nshards):
        ctx.backend('numpy')
        for name, how in ctx.share(names):
            chunks, size = (5, 300) if name in heavy else (5, 600)
            calls, c = [], None
            for _ in range(chunks * size):
                if name is None:
                    c = r.choice([b for b in BAD if ctx.has(b[0])]) + ({},)
                    if r.random() < .3:
                        c = (c[0], tuple(x if not isinstance(x, float) else r.uniform(-90, 90) for x in c[1]), {})
                else:
                    c = maker.make(name) if c is None or r.random() < .7 else maker.nudge(c)
                calls.append(vary(c, how, r))
            ev = [('numpy', *calls[-1])]
            got = forked(lambda: grow(ns, calls, chunks, how))
            ctx.counters['memory_runs'] += 1
            ctx.fn_events[name or 'failing calls'] += len(calls)
            ctx.counters['calls_measured' if name else 'failing_calls_measured'] += len(calls)
            ctx.distinct.update(hash((c[0], core.fingerprint(c[1]), core.fingerprint(c[2]))) for c in calls)
            if got[0] == 'error':
                raise RuntimeError(f'{name}: {got}')
            blocks, files, threads = got
            ctx.note_max('blocks_per_call', min(blocks) / size)
            ctx.expect(files <= 0 and threads <= 0, 'handles', f'{name} leaves files or threads behind', ev, '0, 0', (files, threads))
            ctx.judged()
            if min(blocks) > size * PER_CALL:
                ctx.counters['extended_runs'] += 1
                steps = forked(lambda: long_run(ns, (name, set(maker.names)), r.random(), 6, 2500, how))
                if steps[0] == 'error':
                    raise RuntimeError(f'{name}: {steps}')
                if min(steps[-3:]) > 2500 * PER_CALL:
                    ctx.violation('memory', f'{name or "failing calls"}: memory grows without bound', ev, f'under {PER_CALL} blocks per call',
                                  [f'{s / 2500:.2f} blocks per call' for s in steps])
            ctx.counters['array_calls_measured'] += len(calls) if how == '[]' else 0
            ctx.counters['new_zones_measured'] += len(calls) if how == '@' else 0
            ctx.counters['abandoned_spans'] += len(calls) if how == '~' else 0
            if name and not how and not name.startswith('simulate'):
                def work():
                    quiet()
                    pick = calls[:1] + calls[-6:]
                    a = [lines_of(root, lambda c=c: run_raw(ns, c)) for c in pick]
                    for c in calls[1:120]:
                        run_raw(ns, c)
                    return a, [lines_of(root, lambda c=c: run_raw(ns, c)) for c in pick]
                a, b = forked(work)
                ctx.counters['work_measured'] += len(a) + len(b)
                ctx.note_max('library_lines_of_a_call', max(a + b))
                ctx.expect(max(a + b) <= MAX_LINES, 'work', f'{name} executes {max(a + b)} library lines', ev, MAX_LINES, (a, b))
                for x, y in zip(a, b):
                    ctx.expect(y <= 1.5 * x + 100, 'history_cost', f'{name} takes more work after other calls', ev, x, y)
        if not ctx.has('simulate.simulate_span'):
            continue
        lat, lon, step = g.lat(66), g.lon(False), r.choice((1, 10, 30, 60))
        start = g.modern().astimezone(dt.timezone.utc)
        horizon = [r.uniform(0, 40) for _ in range(361)]
        n = 500
        ctx.fn_events['simulate.simulate_span'] += 1
        args = (lat, lon, horizon, start, start + dt.timedelta(minutes=step * (4 * n + 100)), step)
        ev = [('numpy', 'simulate.simulate_span', args, {})]
        m = forked(lambda: rows(ns, args, n))
        ctx.counters['span_rows'] += 4 * n
        ctx.expect(isinstance(m, list) and min(m) <= n * PER_CALL, 'span_memory', 'memory grows with the rows of a span', ev, n * PER_CALL, m)

        def first(end):
            def f():
                quiet()
                out = []
                it = None

                def begin():
                    nonlocal it
                    it = ns['simulate'].simulate_span(lat, lon, horizon, start, end, step)
                    next(it)
                next(ns['simulate'].simulate_span(lat, lon, horizon, start, end, step))
                out.append(lines_of(root, begin))
                out.append(lines_of(root, lambda: next(it)))
                it2 = ns['simulate'].datetime_range(start, end, step)
                out.append(lines_of(root, lambda: next(iter(it2))))
                return out
            return forked(f)
        short = first(start + dt.timedelta(minutes=4 * step))
        longer = first(start + dt.timedelta(minutes=r.choice((10**4, 10**5)) * step))
        ctx.counters['long_spans'] += 1
        ctx.expect(all(isinstance(x, int) and isinstance(y, int) and x <= 1.5 * y + 200 for x, y in zip(longer, short)), 'lazy',
                   'the first rows of a long span take more work than those of a short one', ev, short, longer)
