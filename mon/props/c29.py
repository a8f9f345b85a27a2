"""2 to 5 threads issuing clusters of near-duplicate calls (first use of the library in that process included), under a seeded baton scheduler that
switches threads at any line or opcode of the library, and under preemption with a tiny switch interval; with and without a thread
that switches the backend; several span generators advanced alternately; calls made in the middle of other calls on the same thread
(at a line or opcode), and in a process forked while another thread is in the middle of a call. Every outcome is compared with the sequential one."""
import os
import pickle
import random
import signal
import sys
import threading
import warnings
from .. import core, sched
from ..calls import Caller
from ..child import norm, run_one
from .c26 import distance, perturbed
QUICK = 4
DRESS = None
FLOOR = 1500
REQUIRED = ('scheduled_rounds', 'preempted_rounds', 'thread_switches', 'opcode_rounds', 'opcode_points', 'toggling_rounds', 'generators_interleaved', 'outcomes', 'nested_calls', 'forks_in_the_middle')


def forked(f, limit=0):
    """f() in a fork (the library there is imported and unused); ('hangs',) if it takes too long"""
    a, b = os.pipe()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')      # of forking with threads
        pid = os.fork()
    if pid == 0:
        try:
            if limit:      # seconds of the clock: waiting for a lock takes no other
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(limit)
            blob = pickle.dumps(f())
        except BaseException as e:
            blob = pickle.dumps(('error', repr(e)))
        while blob:
            blob = blob[os.write(b, blob):]
        os._exit(0)
    os.close(b)
    with os.fdopen(a, 'rb') as g:
        blob = g.read()
    st = os.waitpid(pid, 0)[1]
    return pickle.loads(blob) if blob or not os.WIFSIGNALED(st) or os.WTERMSIG(st) != signal.SIGALRM else ('hangs',)


def nested(ns, outer, inner, seed, p, root, opcodes, spot=None):
    """outer calls with inner ones made in the middle of them, on the same thread (as by a signal handler or a finalizer)"""
    root = root + os.sep
    q = random.Random(seed)
    got, at = [], []

    def point(where):
        if len(got) < 12 and q.random() < p:
            k = q.randrange(len(inner))
            at.append((where, k))
            off()
            got.append((k, None))
            n = len(got) - 1
            got[n] = k, run_raw(ns, inner[k])
            on()

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(root):
            return None
        if spot is None:
            if event in ('call', 'line'):
                point(frame.f_lineno)
        elif frame.f_lineno == spot[1] and frame.f_code.co_filename == spot[0]:
            visits[0] += 1
            if visits[0] == spot[2]:
                point(spot[1:])
        return tracer

    visits = [0]
    mon, codes = sys.monitoring, sched.codes(root) if opcodes else ()
    busy = []

    def instruction(code, offset):
        if not busy:
            busy.append(1)
            try:
                point((code.co_firstlineno, offset))
            finally:
                busy.clear()
    if opcodes:
        off = on = lambda: None
        mon.use_tool_id(4, 'verif-nested')
        mon.register_callback(4, mon.events.INSTRUCTION, instruction)
        for c in codes:
            mon.set_local_events(4, c, mon.events.INSTRUCTION)
    else:
        def off():
            sys.settrace(None)

        def on():
            sys.settrace(tracer)
        on()
    try:
        res = [run_raw(ns, c) for c in outer]
    finally:
        if opcodes:
            for c in codes:
                mon.set_local_events(4, c, 0)
            mon.free_tool_id(4)
        else:
            off()
    return res, got, at


def places(ns, calls, root):
    """the lines of the library these calls come to, and how often"""
    root = root + os.sep
    seen = {}

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(root):
            return None
        k = frame.f_code.co_filename, frame.f_lineno
        seen[k] = seen.get(k, 0) + 1
        return tracer
    sys.settrace(tracer)
    try:
        for c in calls:
            run_raw(ns, c)
    finally:
        sys.settrace(None)
    return seen


def copied(ns, outer, inner, point, root):
    """inner calls in a process forked while a thread is in the middle of the outer calls: at a line, for the nth time"""
    root = root + os.sep
    there, go = threading.Event(), threading.Event()
    count, out = [0], []
    file, line, nth = point

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(root):
            return None
        if frame.f_lineno == line and frame.f_code.co_filename == file:
            count[0] += 1
            if count[0] == nth:
                there.set()
                go.wait(30)
        return tracer

    def body():
        sys.settrace(tracer)
        try:
            out.append([run_raw(ns, c) for c in outer])
        finally:
            sys.settrace(None)
            there.set()
    t = threading.Thread(target=body, daemon=True)
    t.start()
    there.wait(30)
    middle = count[0] == nth
    got = forked(lambda: [run_raw(ns, c) for c in inner], 10)
    go.set()
    t.join(30)
    return out, got, middle


def interleaved(ns, calls, order):
    """generators advanced in the given order"""
    gens, out = [], [[] for _ in calls]
    for n, a, k in calls:
        m, _, f = n.partition('.')
        try:
            gens.append(getattr(ns[m], f)(*a, **k))
        except Exception as e:
            gens.append(iter(()))
    for j in order:
        try:
            out[j].append(norm(next(gens[j])))
        except StopIteration:
            pass
    for j, g in enumerate(gens):
        out[j].extend(norm(x) for x in g)
    return out


def run(ctx):
    g, r = ctx.gen, ctx.rng
    ns = ctx.api
    root = os.path.join(os.path.abspath(core.REPO), 'pysolar')
    maker = Caller(g, ctx.has)
    warnings.simplefilter('ignore')
    ctx.cov.stop()          # sys.monitoring and settrace together would slow the schedules down
    for i in ctx.rounds(520):
        nthreads = r.choice((2, 2, 3, 5))
        cluster = [maker.make(r.choice(maker.heavy) if r.random() < .6 else None)]
        for k in range(r.choice((2, 5, 8))):
            cluster.append(maker.nudge(r.choice(cluster)) if r.random() < .8 else maker.make())
        plans = [[r.choice(cluster) for _ in range(r.choice((1, 2, 3)))] for _ in range(nthreads)]
        mode = r.choice(('scheduled', 'scheduled', 'opcodes', 'preempted'))
        toggling = r.random() < .2
        start_math = r.random() < .3
        seed, p = r.getrandbits(40), 10 ** r.uniform(-2.5, -.5)
        switches = [r.choice(('numpy', 'math')) for _ in range(6)]

        def job(threads):
            warnings.simplefilter('ignore')
            if start_math:
                ns['pysolar'].use_math()

            def worker(plan):
                return lambda: [run_raw(ns, c) for c in plan]

            def toggler():
                for s in switches:
                    (ns['pysolar'].use_math if s == 'math' else ns['pysolar'].use_numpy)()
                return []
            ws = [worker(q) for q in plans]
            if not threads:
                return [w() for w in ws], (), 0, 0, 0, 0
            if toggling:
                ws.append(toggler)
            if mode == 'preempted':
                res = sched.free_run(ws, 1e-6)
                return (res, (), 0, 0, 0, 0) if res is not None else None
            got = sched.run(ws, seed, p, root, mode == 'opcodes')
            if got is None:
                return None
            return got[0], hash(tuple(got[1].trail)), got[1].switches, got[1].events, got[1].steals, got[1].opcode_events
        want, got = forked(lambda: job(False)), forked(lambda: job(True))
        events = [('math' if start_math else 'numpy', n, a, k) for plan in plans for n, a, k in plan]
        for e in events:
            ctx.fn_events[e[1]] += 1
        if got is None:
            ctx.counters['rounds_not_ended'] += 1
            continue
        if got[0] == 'error' or want[0] == 'error':
            raise RuntimeError(f'round failed: {got} {want}')
        ctx.counters['opcode_rounds'] += mode == 'opcodes'
        ctx.counters['scheduled_rounds' if mode != 'preempted' else 'preempted_rounds'] += 1
        ctx.counters['toggling_rounds'] += toggling
        ctx.counters['thread_switches'] += got[2]
        ctx.counters['traced_points'] += got[3]
        ctx.counters['batons_stolen'] += got[4]
        ctx.counters['opcode_points'] += got[5]
        ctx.distinct.add(got[1] if mode != 'preempted' else hash((seed, mode)))
        for plan, x, y in zip(plans, want[0], got[0]):
            for k, c in enumerate(plan):
                ctx.counters['outcomes'] += 1
                ctx.judged()
                ev = [('math' if start_math else 'numpy', *c)]
                if y is None:
                    ctx.violation('thread_died', 'a thread ended without a result', ev, x[k], None)
                    continue
                if repr(x[k]) == repr(y[k]):
                    continue
                if toggling and distance(x[k], y[k]) <= 1e-9:
                    continue
                if toggling and any(distance(x[k], forked(lambda q=q: run_raw(ns, q))) > 1e-9 for q in perturbed(c)):
                    ctx.counters['ill_conditioned_skipped'] += 1
                    continue
                ctx.violation('threads' + (':toggling' if toggling else ''), f'{c[0]} in a thread ({mode}, schedule seed {seed}) differs from the sequential outcome',
                              ev + events, x[k], y[k])
        if i % 3 == 0:
            inner = [c for c in cluster if not c[0].startswith('simulate')] or [maker.make('solar.get_position')]
            outer = plans[0]
            opcodes = r.random() < .5 and hasattr(sys, 'monitoring')
            cold = r.random() < .5      # not even warm: the first calls after the import
            p = 10 ** r.uniform(-3.5, -1)
            seen = forked(lambda: places(ns, outer, root))
            if not isinstance(seen, dict):
                raise RuntimeError(f'round failed: {seen}')
            at, spot = (None, None)
            if seen:
                at, spot = ((*k, r.randint(1, min(seen[k], r.choice((1, 1, 3, 1000))))) for k in (r.choice(sorted(seen)), r.choice(sorted(seen))))
            if opcodes or r.random() < .5:
                spot = None
            else:
                p = 1

            def job():
                warnings.simplefilter('ignore')
                if not cold:
                    [run_raw(ns, c) for c in inner[:1]]
                return nested(ns, outer, inner, seed, p, root, opcodes, spot)
            alone = [[forked(lambda c=c: run_raw(ns, c)) for c in x] for x in (outer, inner)]
            got = forked(job, 40)
            ev = [('numpy', *c) for c in outer + inner]
            if got == ('hangs',):
                ctx.violation('nested_hangs', f'{outer[0][0]} with a call in the middle of it does not end (schedule seed {seed})', ev, 'results', 'nothing in 40 s')
                return
            elif got[0] == 'error':
                raise RuntimeError(f'round failed: {got}')
            else:
                ctx.counters['nested_calls'] += len(got[1])
                ctx.distinct.add(hash(tuple(got[2])))
                for c, x, y in zip(outer, alone[0], got[0]):
                    ctx.expect(repr(x) == repr(y), 'nested', f'{c[0]} interrupted by other calls (schedule seed {seed}) differs from the sequential outcome', [('numpy', *c)] + ev, x, y)
                for k, y in got[1]:
                    ctx.expect(repr(alone[1][k]) == repr(y), 'nested', f'{inner[k][0]} in the middle of another call (schedule seed {seed}) differs from the sequential outcome',
                               [('numpy', *inner[k])] + ev, alone[1][k], y)
            if at:
                got = forked(lambda: copied(ns, outer, inner, at, root), 60)
                if got[0] == 'error' or got == ('hangs',):
                    raise RuntimeError(f'round failed: {got}')
                if got[2]:
                    ctx.counters['forks_in_the_middle'] += 1
                    if ctx.expect(got[1] != ('hangs',) and got[1][0] != 'error', 'fork', f'{inner[0][0]} in a process forked while a thread is at point {at} of {outer[0][0]}', ev, 'results', got[1]):
                        for c, x, y in zip(inner, alone[1], got[1]):
                            ctx.expect(repr(x) == repr(y), 'fork', f'{c[0]} in a process forked while a thread is at point {at} of {outer[0][0]}', [('numpy', *c)] + ev, x, y)
                        for c, x, y in zip(outer, alone[0], got[0][0] if got[0] else ()):
                            ctx.expect(repr(x) == repr(y), 'fork', f'{c[0]} during which the process is forked', [('numpy', *c)] + ev, x, y)
        if i % 4 == 0:
            calls = [maker.make('simulate.' + r.choice(('simulate_span', 'simulate_span', 'datetime_range'))) for _ in range(r.choice((2, 3)))]
            if r.random() < .3:
                calls.append(calls[0])
            order = [r.randrange(len(calls)) for _ in range(20)]
            x = forked(lambda: [interleaved(ns, [c], [0] * 20)[0] for c in calls])
            y = forked(lambda: interleaved(ns, calls, order))
            ctx.counters['generators_interleaved'] += len(calls)
            for c, p_, q_ in zip(calls, x, y):
                ctx.fn_events[c[0]] += 1
                ctx.expect(repr(p_) == repr(q_), 'generators', f'{c[0]} advanced alternately with another one gives other rows', [('numpy', *c)], p_, q_)


def run_raw(ns, c):
    """as child.run_one, without catch_warnings (not safe with threads)"""
    m, _, f = c[0].partition('.')
    try:
        return ('ok', norm(getattr(ns[m], f)(*c[1], **c[2])))
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:200])
