"""public calls, backend switches, generator steps and imports cut short by an exception (KeyboardInterrupt, MemoryError, a BaseException of the
caller's) raised at a chosen line or opcode of the library, in a fork whose library is unused or warmed up; the interruption must reach the caller,
module state must be as it was, and the calls that follow, the same one first, must give bit for bit what they give in a fork without the interruption."""
import itertools
import os
import signal
import sys
import warnings
from .. import core
from ..calls import Caller
from ..child import norm
from .c26 import distance
from .c28 import tables, world
from .c29 import forked, run_raw
QUICK = 2
DRESS = None
FLOOR = 1500
REQUIRED = ('interrupted_calls', 'interrupted_switches', 'interrupted_imports', 'interrupted_generators', 'cold_interruptions', 'opcode_interruptions', 'follow_ups', 'thrown_into_spans', 'looked_for_first_use')


class Cut(BaseException):
    """what a caller's own signal handler might raise"""


KINDS = (KeyboardInterrupt, MemoryError, Cut, TimeoutError)


class Tracer:
    """counts line (or opcode) events of library code; raises at the k-th when given one"""

    def __init__(self, root, opcodes, k=None, exc=None):
        self.root, self.opcodes, self.k, self.exc = root, opcodes, k, exc
        self.n, self.where, self.raised = 0, [], False

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.n += 1
            if self.k is None:
                if len(self.where) < 60000:
                    self.where.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno, frame.f_lasti if self.opcodes else 0))
            elif self.n > self.k and not self.raised:
                self.raised = True
                raise self.exc('injected')
        return self.local

    def run(self, f):
        if self.opcodes:
            sys._getframe().f_trace_opcodes = True      # CPython 3.12 looks at this only when tracing starts
        sys.settrace(self)
        try:
            return f()
        finally:
            sys.settrace(None)


def backend_state(ns):
    """what the numeric module's names are bound to"""
    return {k: f'{getattr(v, "__module__", "")}.{getattr(v, "__name__", v)}' for k, v in vars(ns['numeric']).items()
            if not k.startswith('_') and not isinstance(v, type(sys))}


def thrown(ctx, maker, r):
    """an exception thrown into a span that waits between two rows; spans closed early"""
    ns = ctx.api
    c = maker.make(r.choice(('simulate.simulate_span', 'simulate.datetime_range')))
    m, _, f = c[0].partition('.')
    make = lambda: getattr(ns[m], f)(*c[1], **c[2])
    ev = [('numpy', *c)]
    try:
        rows = [repr(norm(x)) for x, _ in zip(make(), range(8))]
        it, n = make(), r.randrange(len(rows) + 1)
        for _ in range(n):
            next(it)
    except Exception:
        return
    exc = r.choice(KINDS + (ValueError, GeneratorExit, IndexError, AttributeError))
    ctx.counters['thrown_into_spans'] += 1
    ctx.fn_events[c[0]] += 1
    if not hasattr(it, 'throw'):      # an iterator of another kind
        return
    err = exc('thrown')
    try:
        if r.random() < .2:
            it.close()
            got = err
        else:
            got = it.throw(err)
    except BaseException as e:
        got = e
    ctx.expect(got is err, 'swallowed', f'{exc.__name__} thrown into {c[0]} after {n} rows does not reach the caller', ev, repr(err), repr(got)[:300])
    end = next(it, None)
    ctx.expect(end is None, 'goes_on', f'{c[0]} goes on after {exc.__name__} was thrown into it', ev, 'the end', repr(end)[:300])
    again = [repr(norm(x)) for x, _ in zip(make(), range(8))]
    ctx.expect(again == rows, 'follow_up', f'{c[0]} gives other rows after {exc.__name__} was thrown into a span', ev, rows, again)


def first_use(ctx, maker, r, root):
    """the bytecodes that only the first of two equal calls passes (what is computed once, and kept): cut at many of them"""
    ns = ctx.api

    def go(c):
        m, _, f = c[0].partition('.')
        v = getattr(ns[m], f)(*c[1], **c[2])
        if hasattr(v, '__next__'):
            list(itertools.islice(v, 2))

    def quiet():
        signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.alarm(60)
        warnings.simplefilter('ignore')

    def look(c):
        quiet()
        seen = []
        for _ in range(2):
            t = Tracer(root, True)
            try:
                t.run(lambda: go(c))
            except Exception:
                pass
            seen.append(t.where)
        later, at = set(seen[1]), {}
        for j, w in enumerate(seen[0]):
            if w not in later:
                at.setdefault(w, []).append(j)
        return {w: sorted({js[0], js[len(js) // 2], js[-1]}) for w, js in at.items()}

    def job(c, after, k, exc):
        quiet()
        t, caught = Tracer(root, True, k, exc), None
        if k is not None:
            try:
                t.run(lambda: go(c))
            except BaseException as e:
                caught = e
        return t.raised, not t.raised or isinstance(caught, exc), [run_raw(ns, x) for x in after]
    for name in ctx.share(maker.names):
        c = maker.make(name)
        at = forked(lambda: look(c))
        if not isinstance(at, dict):
            continue
        ctx.counters['looked_for_first_use'] += 1
        ctx.fn_events[name] += 1
        spots = [(w, k) for w, ks in sorted(at.items()) for k in ks]
        r.shuffle(spots)
        after = [c, maker.make(r.choice(maker.heavy)), maker.nudge(c)]
        want = forked(lambda: job(c, after, None, None)) if spots else None
        for w, k in spots[:int(60 * max(1, min(ctx.scale, 10)))]:
            exc = r.choice(KINDS)
            got = forked(lambda: job(c, after, k, exc))
            desc = f'first call of {name} interrupted by {exc.__name__} at {w[0]}:{w[1]}'
            ev = [('numpy', *c)]
            if got[0] == 'error' or want[0] == 'error':
                ctx.violation('after', f'{desc}: the library cannot be used afterwards', ev, want, got)
                continue
            if not got[0]:
                continue
            ctx.counters['first_use_cut'] += 1
            ctx.counters['opcode_interruptions'] += 1
            ctx.distinct.add(hash(('first', name, w, k, exc.__name__)))
            ctx.expect(got[1], 'swallowed', f'{desc}: does not reach the caller', ev, exc.__name__, 'continued')
            for x, a, b in zip(after, got[2], want[2]):
                ctx.expect(repr(a) == repr(b), 'follow_up', f'{desc}: afterwards {x[0]} gives another outcome', [('numpy', *x)] + ev, b, a)


def run(ctx):
    g, r = ctx.gen, ctx.rng
    ns = ctx.api
    root = os.path.join(os.path.abspath(core.REPO), 'pysolar') + os.sep
    maker = Caller(g, ctx.has)
    warnings.simplefilter('ignore')
    ctx.cov.stop()
    seen = set()
    first_use(ctx, maker, r, root)
    rounds = 0
    for i in ctx.rounds(440):
        rounds += 1
        z = r.random()
        what = 'switch' if z < .12 else 'import' if z < .2 else 'generator' if z < .3 else 'call'
        target = maker.make('simulate.simulate_span' if what == 'generator' else r.choice(maker.heavy) if r.random() < .6 else None)
        start = 'math' if r.random() < .3 else 'numpy'
        to = r.choice(('numpy', 'math'))
        warm = r.random() < .35 and what != 'import'
        opcodes = r.random() < .3 and what != 'import'
        after = [target if what in ('call', 'generator') else maker.make(r.choice(maker.heavy))]
        for _ in range(r.choice((2, 3, 5))):
            after.append(maker.make(r.choice(maker.heavy)) if r.random() < .4 else maker.nudge(r.choice(after)) if r.random() < .6 else maker.make())

        def job(k, exc):
            """runs in a fork: (locations, raised?, reached the caller?, changed state, outcomes)"""
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.alarm(60)
            warnings.simplefilter('ignore')
            n = ns
            if start == 'math':
                n['pysolar'].use_math()
            if warm:
                for c in after[1:3]:
                    run_raw(n, c)
            if what == 'import':
                core.purge()
            state = None if what == 'import' else (tables(n), world(), backend_state(n))
            tr = Tracer(root, opcodes, k, exc)
            caught, swallowed = None, False

            def body():
                if what == 'import':
                    return core.load()
                if what == 'switch':
                    (n['pysolar'].use_math if to == 'math' else n['pysolar'].use_numpy)()
                elif what == 'generator':
                    list(getattr(n['simulate'], 'simulate_span')(*target[1], **target[2]))
                else:
                    m, _, f = target[0].partition('.')
                    v = getattr(n[m], f)(*target[1], **target[2])
                    if hasattr(v, '__next__'):
                        list(v)
            try:
                tr.run(body)
            except BaseException as e:
                caught = e
            reached = not tr.raised or isinstance(caught, exc)
            if what == 'import':
                n = core.load()
                if start == 'math':
                    n['pysolar'].use_math()
            changed = {}
            if state is not None:
                for a, b in zip(state, (tables(n), world(), backend_state(n))):
                    changed.update({key: (a.get(key), b.get(key)) for key in a.keys() | b.keys() if a.get(key) != b.get(key)})
            out = [run_raw(n, c) for c in after] if what == 'switch' else []
            if what == 'switch':
                (n['pysolar'].use_math if to == 'math' else n['pysolar'].use_numpy)()
            return tr.where, tr.raised, reached, changed if what != 'switch' else {}, out, [run_raw(n, c) for c in after]
        clean = forked(lambda: job(None, None))
        if clean[0] == 'error':
            ctx.violation('import' if what == 'import' else 'uninterrupted', 'cannot be used', [('numpy', *target)], 'outcomes', clean)
            continue
        where = clean[0]
        if not where:
            ctx.counters['no_library_lines'] += 1
            continue
        first = {}
        for j, w in enumerate(where):
            first.setdefault(w, j)
        firsts = sorted(first.values())
        for _ in range(6):
            k = r.choice(firsts) if r.random() < .7 else r.randrange(len(where))
            exc = r.choice(KINDS)
            ctx.fn_events[target[0] if what in ('call', 'generator') else what] += 1
            ev = [(start, *target)] if what in ('call', 'generator') else [(start, c[0], *c[1:]) for c in after[:1]]
            desc = f'{what} {target[0] if what in ("call", "generator") else to if what == "switch" else "pysolar"} interrupted by {exc.__name__} at {where[k][0]}:{where[k][1]}'
            if len(ctx.samples) < 12:
                ctx.samples.append({'call': desc, 'args': core.fingerprint(target[1])[:300], 'then': [c[0] for c in after]})
            got = forked(lambda: job(k, exc))
            if got[0] == 'error':
                ctx.violation('after', f'{desc}: the library cannot be used afterwards', ev, clean[5], got)
                continue
            _, raised, reached, changed, mixed, out = got
            if not raised:
                ctx.counters['not_reached'] += 1
                continue
            ctx.counters[f'interrupted_{what}' + ('es' if what == 'switch' else 's')] += 1
            ctx.counters['cold_interruptions'] += not warm
            ctx.counters['opcode_interruptions'] += opcodes
            seen.add((what, *where[k]))
            ctx.distinct.add(hash((what, target[0], where[k], exc.__name__, warm, start)))
            ctx.expect(reached, 'swallowed', f'{desc}: does not reach the caller', ev, exc.__name__, 'continued')
            ctx.expect(not changed, 'state', f'{desc}: module state changed', ev, {a: b[0] for a, b in changed.items()}, {a: b[1] for a, b in changed.items()})
            for c, x, y in zip(after, out, clean[5]):
                ctx.counters['follow_ups'] += 1
                ctx.expect(repr(x) == repr(y), 'follow_up', f'{desc}: afterwards {c[0]} gives another outcome', [(start, *c)] + ev, y, x)
            for c, x, y in zip(after, mixed, clean[4]):      # half switched: still right to rounding
                if distance(x, y) > 1e-6:
                    ctx.counters['half_switched_differences'] += 1
    for _ in range(min(rounds, 2000)):        # in this process, which is used from here on
        thrown(ctx, maker, r)
    ctx.counters['interruption_points'] = len(seen)
