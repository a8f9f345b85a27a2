"""long histories per process: clusters of near-duplicate calls (same day or instant, rounded or negated arguments, other time zone), repeats,
calls that must fail, long walks through the arguments of one function, thousands of calls going round in a pool of arguments (small, or larger than any cache), arrays changed in place or much like earlier ones, mutation of returned containers, backend switches, shuffled order; every outcome, warnings included, is compared bit for bit with the same call as the
first call after an import, and arguments, constants, tables, warning filters, numpy error state, random state, environment and stdout are watched."""
import contextlib
import copy
import datetime
import io
import os
import random
import time
import warnings
from .. import core
from ..calls import SPEC, Caller, spoilt
from ..child import Child, norm, told
from .c27 import PLACE, STAGE, TIMES
QUICK = 2
DRESS = None
FLOOR = 6000
REQUIRED = ('repeats', 'near_duplicates', 'failed_calls', 'fresh_compared', 'state_snapshots', 'mutated_results', 'walk_calls', 'endurance_calls', 'array_calls')
TABLES = {'constants': None, 'solartime': None, 'util': None, 'rest': None}
BAD = (('solar.get_position', (40.0, 10.0, datetime.datetime(2020, 6, 1))), ('solar.get_altitude', (40.0, 10.0, None)),
       ('solar.get_position', ('40', 10.0, datetime.datetime(2020, 6, 1, tzinfo=datetime.timezone.utc))),
       ('solar.get_position', (40.0, None, datetime.datetime(2020, 6, 1, tzinfo=datetime.timezone.utc))),
       ('solar.get_nutation', (None,)), ('solar.get_azimuth', (40.0,)), ('solartime.get_julian_solar_day', (2455000.5,)),
       ('util.get_sunrise_time', (89.0, 0.0, datetime.datetime(2020, 12, 21, tzinfo=datetime.timezone.utc))),
       ('rest.get_water_vapor_transmittance', ('high-frequency', 1.0, None)),
       ('radiation.get_radiation_direct', (datetime.datetime(2020, 6, 1, tzinfo=datetime.timezone.utc), None)))


def tables(ns):
    """public numbers, strings and tables of the modules, by value"""
    out = {}
    for m in TABLES:
        for k, v in vars(ns[m]).items():
            if not k.startswith('_') and isinstance(v, (int, float, str, list, tuple)) and v is not None:
                out[m + '.' + k] = core.fingerprint(v)
    return out


def world():
    import numpy
    return {'warnings.filters': repr(warnings.filters), 'numpy.geterr': repr(numpy.geterr()), 'environ': repr(sorted(os.environ.items())),
            'cwd': os.getcwd(), 'random': hash(random.getstate()), 'numpy.random': hash(numpy.random.get_state()[1].tobytes())}


def outcome(o):
    if o.ok:
        try:
            with warnings.catch_warnings(record=True) as more:
                warnings.simplefilter('always')
                v = norm(o.value)
            return 'ok', v, told([*o.warned, *more])
        except Exception as e:
            return 'raised', type(e).__name__, str(e)[:200]
    return 'raised', type(o.exc).__name__, str(o.exc)[:200]


def endure(ctx, maker, name, seconds):
    """calls going round in a pool of arguments for so long: always the same answers"""
    r = ctx.rng
    f = ctx.resolve(name)
    pool, c = [], None
    for _ in range(r.choice((2, 7, 40, 150, 300, 700, 1500) if name not in maker.heavy else (2, 7, 40, 150))):
        c = maker.make(name) if c is None or r.random() < .5 else maker.nudge(c)
        pool.append(c)
    first, n = {}, 0
    end = time.process_time() + seconds
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        while time.process_time() < end:
            for k, (_, a, kw) in enumerate(pool):
                try:
                    v = norm(f(*a, **kw))
                except Exception as e:
                    v = 'raised', type(e).__name__, str(e)[:200]
                if first.setdefault(k, v) != v and repr(first[k]) != repr(v):
                    ctx.violation('endurance', f'{name}: another answer at call {n}', [('numpy', *pool[k])], first[k], v)
                    return
                n += 1
                if n % 64 == 0 and time.process_time() > end:
                    break
    ctx.judged(n)
    ctx.counters['endurance_calls'] += n
    ctx.note_max('endurance_calls_of_one_function', n)


def arrays(ctx, maker, fresh):
    """calls with arrays, the same arrays changed in place between them or others that look alike; results are kept, and changed by the caller"""
    import numpy as np
    r = ctx.rng
    ctx.backend('numpy')
    name = r.choice([n for n in PLACE * 4 + TIMES * 3 + STAGE if ctx.has(n)])
    kinds = [k.lstrip('?') for k in SPEC[name] if not isinstance(k, dict)]
    n = r.choice((1, 2, 5, 40, 1500) if name not in PLACE else (1, 2, 5, 40, 1100))
    args, mine = [], []
    for k in kinds:
        if k == 'when' and (name in PLACE or r.random() < .3) or k == 'nut' or k not in ('when', 'nut') and mine and r.random() < .3:
            args.append(maker.arg(k))
        elif k == 'when':
            args.append(np.array([np.datetime64(ctx.gen.utc(), 's') for _ in range(n)]))
            mine.append(len(args) - 1)
        else:
            args.append(np.resize(np.array([float(maker.arg(k)) for _ in range(min(n, 60))]), n))
            mine.append(len(args) - 1)
    if not mine:
        return
    asked, got, kept = [], [], []
    for j in range(r.choice((2, 4, 8))):
        o = ctx.call(name, *args)
        asked.append(('numpy', name, copy.deepcopy(tuple(args)), {}))
        got.append((outcome(o), o.event))
        ctx.counters['array_calls'] += 1
        parts = [p for p in (o.value if isinstance(o.value, tuple) else (o.value,)) if isinstance(p, np.ndarray) and p.ndim and not any(p is a or isinstance(a, np.ndarray) and np.shares_memory(p, a) for a in args)] if o.ok else []
        for p, was, ev in kept:
            ctx.expect(np.array_equal(p, was, equal_nan=True), 'result_kept', f'the array returned by {name} changes when it is called again', [ev, o.event], was, p)
        for p in parts:
            if r.random() < .5:
                p[...] = 1e9        # what the caller does to a result is the caller's business
                ctx.counters['mutated_results'] += 1
            kept.append((p, p.copy(), o.event))
        i = r.choice(mine)
        z = r.random()
        v = args[i] if z < .5 else args[i].copy()      # the same object with other values, or another one much like it
        if v.dtype.kind == 'M':
            v[r.randrange(n)] += np.timedelta64(r.choice((1, 86400, 3600, -86400 * 365)), 's')
        elif z < .7 and n > 1:
            v[n // 2] = float(maker.arg(kinds[i]))
        elif z < .8:
            v[...] = v[::-1].copy()
        else:
            v[r.randrange(n):] = float(maker.arg(kinds[i]))
        args[i] = v
        if r.random() < .15 and n > 1:      # other lengths, other shapes
            args = [a[:n // 2].copy() if isinstance(a, np.ndarray) and a.ndim else a for a in args]
            n = n // 2
    for (res, ev), want in zip(got, fresh.ask(asked)):
        ctx.counters['fresh_compared'] += 1
        ctx.expect(repr(res) == repr(want), 'array_history', f'{ev[1]} depends on the calls before it', [ev], str(want)[:400], str(res)[:400])


def refilled(old, k, v):
    """the container given in this place before, with the new contents"""
    if type(v) not in (list, dict):
        return v
    w = old.setdefault((k, type(v)), v)
    if w is not v:
        if type(v) is list:
            w[:] = v
        else:
            w.clear()
            w.update(v)
    return w


def run(ctx):
    g, r = ctx.gen, ctx.rng
    fresh = Child('fresh', core.VERIF, opts={'warnings': 'record'})
    other = Child('numpy', core.VERIF, opts={'warnings': 'record'})
    maker = Caller(g, ctx.has)
    before = tables(ctx.api)
    w0 = world()
    try:
        # one function, many related arguments in a row: here in order, elsewhere shuffled; where the two histories disagree,
        # the first call after an import decides
        for i in ctx.rounds(240):
            ctx.backend('numpy')
            name = r.choice(maker.names) if r.random() < .5 else r.choice([n for n in maker.names if 'when' in SPEC[n]])
            c, walk, good = maker.make(name), [], []
            for j in range(15 if name.startswith('simulate') else 60 if name in maker.heavy else 200):
                if j and r.random() < .04:      # calls that fail, one or a few in a row
                    walk += [spoilt(c, r) for _ in range(r.choice((1, 2, 5)))]
                    ctx.counters['failed_calls'] += 1
                walk.append(c)
                good.append(c)
                c = maker.make(name) if r.random() < .05 else maker.nudge(r.choice(good[-3:]))
            got = []
            reuse = {}
            for n, a, kw in walk:
                if r.random() < .5:
                    a = tuple(refilled(reuse, k, v) for k, v in enumerate(a))
                keep = copy.deepcopy((a, kw))
                got.append((outcome(ctx.call(n, *a, **kw)), keep))
            ctx.counters['walk_calls'] += len(walk)
            order = list(range(len(walk)))
            r.shuffle(order)
            answers = other.ask([(name, *got[k][1]) for k in order])
            for k, want in zip(order, answers):
                ctx.judged()
                if repr(want) != repr(got[k][0]):
                    first = fresh.ask([('numpy', name, *got[k][1])])[0]
                    ctx.violation('walk', f'{name} depends on the calls before it', [('numpy', name, *walk[k][1:])], first, (got[k][0], want))
        for i in ctx.rounds(ctx.nshards):
            ctx.backend('numpy')
            for name in ctx.share(maker.names):
                endure(ctx, maker, name, 4 if name == 'solar.get_nutation' else 2 if name in maker.heavy else .8)
        for i in ctx.rounds(400):
            arrays(ctx, maker, fresh)
        for i in ctx.rounds(300):
            plan = []
            for k in range(r.choice((1, 2, 6, 12))):
                c = maker.make()
                cluster = [c]
                for j in range(r.choice((2, 4, 8))):
                    src = r.choice(cluster)
                    z = r.random()
                    if z < .25:
                        cluster.append(src)
                        ctx.counters['repeats'] += 1
                    elif z < .35:      # the same arguments through another function of the same shape
                        same = [n for n in maker.names if _shape(n) == _shape(src[0])]
                        cluster.append((r.choice(same), src[1], {}))
                    else:
                        cluster.append(maker.nudge(src))
                        ctx.counters['near_duplicates'] += 1
                if r.random() < .5:
                    r.shuffle(cluster)
                plan.append(cluster)
            if r.random() < .5:      # interleave the clusters
                flat = [c for cl in plan for c in cl]
                r.shuffle(flat)
            else:
                flat = [c for cl in plan for c in cl]
            asked, got = [], []
            for c in flat:
                if r.random() < .08:
                    ctx.backend(r.choice(('numpy', 'math')))
                if r.random() < .06:
                    if r.random() < .5:
                        n, a, kw = spoilt(c, r)
                        ctx.call(n, *a, **kw)
                    n, a = r.choice(BAD)
                    if ctx.has(n):
                        ctx.call(n, *a)
                        ctx.counters['failed_calls'] += 1
                had = core.fingerprint((c[1], c[2]))
                keep = copy.deepcopy((c[1], c[2]))
                said = io.StringIO()
                with contextlib.redirect_stdout(said):
                    o = ctx.call(c[0], *c[1], **c[2])
                    res = outcome(o)
                ctx.expect(core.fingerprint((c[1], c[2])) == had, 'arguments', f'{c[0]} changed its arguments', [o.event], had, c[1:])
                ctx.expect(not said.getvalue(), 'output', f'{c[0]} printed', [o.event], '', said.getvalue()[:200])
                if o.ok and isinstance(o.value, (dict, list)) and 'aberration_coeffs' not in c[0]:
                    ctx.counters['mutated_results'] += 1
                    if isinstance(o.value, dict):
                        for k in list(o.value):
                            o.value[k] = 1e9
                    else:
                        o.value[:] = [1e9] * len(o.value)
                asked.append((ctx.backend_name, c[0], *keep))
                got.append((res, o.event))
            order = list(range(len(asked)))
            r.shuffle(order)
            answers = fresh.ask([asked[k] for k in order])
            for k, want in zip(order, answers):
                res, ev = got[k]
                ctx.counters['fresh_compared'] += 1
                ctx.expect(repr(res) == repr(want), 'history', f'{ev[1]} depends on the calls before it', [ev], want, res)
            ctx.counters['state_snapshots'] += 1
            now, w = tables(ctx.api), world()
            for k in before:
                ctx.expect(now.get(k) == before[k], 'table', f'{k} changed while the library was used', [got[-1][1]], before[k][:200], str(now.get(k))[:200])
            for k in w0:
                ctx.expect(w[k] == w0[k], 'side_effect', f'{k} changed while the library was used', [got[-1][1]], w0[k], w[k])
    finally:
        fresh.close()
        other.close()


def _shape(name):
    from ..calls import SPEC
    return tuple(k for k in SPEC[name] if not isinstance(k, dict))
