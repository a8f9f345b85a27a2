"""random histories of backend switches (including redundant ones, and ones between creating and reading a generator) interleaved with
calls of every public function; each outcome is compared bit for bit, types included, with the outcome of the same call in a process
that never switched (numpy) or cannot import numpy at all (math), and between the two backends within rounding."""
from .. import core, lib
from ..calls import Caller
from ..child import Child, norm, numbers
DRESS = None
FLOOR = 6000
REQUIRED = ('switches', 'compared_backends', 'no_numpy_calls', 'redundant_switches', 'generator_across_switch')


def seconds(x):
    import datetime
    return lib.seconds(lib.utc(datetime.datetime.fromisoformat(x)))


def distance(a, b, circular=False):
    """largest difference between two outcomes; inf when their shapes differ"""
    if (a[0] == 'ok') != (b[0] == 'ok'):
        p, q = (a, b) if a[0] != 'ok' else (b, a)
        v = numbers(q)
        # a scalar division by zero is an infinity in numpy and an exception in math
        if p[1] in ('ZeroDivisionError', 'OverflowError', 'ValueError') and any(isinstance(x, float) and (x != x or abs(x) > 1e290) for x in v):
            return 0.0
        return float('inf')
    if a[0] != 'ok':
        return 0.0 if a[1] == b[1] else float('inf')
    x, y = numbers(a), numbers(b)
    if len(x) != len(y):
        return float('inf')
    d = 0.0
    for p, q in zip(x, y):
        if isinstance(p, str) or isinstance(q, str):
            if p != q:
                d = max(d, abs(seconds(p) - seconds(q)) / 1e5)
            continue
        if p == q or p != p and q != q:
            continue
        e = abs(p - q) / max(1.0, abs(p), abs(q)) if p == p and q == q else float('inf')
        if abs(abs(p - q) - 360) < 1e-3:
            e = min(e, abs(abs(p - q) - 360))
        d = max(d, e)
    return d


def perturbed(call):
    name, args, kw = call
    for s in (1e-11, -1e-11, 4e-11, -3e-11):
        for i, a in enumerate(args):
            if isinstance(a, (int, float)) and not isinstance(a, bool) and name.split('.')[0] != 'simulate':
                yield name, args[:i] + (a + s * max(1.0, abs(a)),) + args[i + 1:], kw


def run(ctx):
    g, r = ctx.gen, ctx.rng
    pkg = ctx.api['pysolar']
    plain, bare = Child('numpy', core.VERIF), Child('nonumpy', core.VERIF)
    maker = Caller(g, ctx.has)
    try:
        for i in ctx.rounds(240):
            batch, got = [], []
            for k in range(60):
                if r.random() < .4:
                    to = r.choice(('numpy', 'math'))
                    if to == ctx.backend_name:
                        ctx.counters['redundant_switches'] += 1
                    target = pkg if r.random() < .7 else ctx.api['numeric']
                    (target.use_numpy if to == 'numpy' else target.use_math)()
                    ctx.backend_name = to
                    ctx.counters['switches'] += 1
                    mod = getattr(ctx.api['numeric'], 'current_mod', to)
                    ctx.expect(mod == to, 'current_mod', f'numeric.current_mod after use_{to}()', [], to, mod)
                c = maker.make() if not batch or r.random() < .7 else maker.nudge(batch[-1])
                o = ctx.call(c[0], *c[1], **c[2])
                split = False
                if o.ok and hasattr(o.value, '__next__'):
                    if r.random() < .4:
                        split = True
                        ctx.counters['generator_across_switch'] += 1
                        (pkg.use_math if ctx.backend_name == 'numpy' else pkg.use_numpy)()
                        ctx.backend_name = 'math' if ctx.backend_name == 'numpy' else 'numpy'
                    try:
                        res = ('ok', norm(o.value))
                    except Exception as e:
                        res = ('raised', type(e).__name__, str(e)[:200])
                elif o.ok:
                    res = ('ok', norm(o.value))
                else:
                    res = ('raised', type(o.exc).__name__, str(o.exc)[:200])
                batch.append(c)
                got.append((ctx.backend_name, res, o.event, split))
            plain.send(batch)
            bare.send(batch)
            a, b = plain.recv(), bare.recv()
            for c, (mode, res, ev, split), x, y in zip(batch, got, a, b):
                if y[0] == 'noimport' or x[0] == 'noimport':
                    ctx.violation('import', 'pysolar cannot be imported', [ev], 'an import', (x, y))
                ctx.counters['no_numpy_calls'] += 1
                want = x if mode == 'numpy' else y
                if not split:
                    ctx.expect(repr(res) == repr(want), 'switched:' + mode,
                               f'{c[0]} after switching to {mode} differs from a process that only ever used it', [ev], want, res)
                elif res != want:
                    ctx.expect(distance(res, want) <= 1e-9, 'switched:generator', f'{c[0]} read across a switch', [ev], want, res)
                d = distance(x, y)
                ctx.counters['compared_backends'] += 1
                ctx.judged()
                if d > 1e-9:
                    vary = [distance(y, z) for z in bare.ask(list(perturbed(c)))]
                    if any(v >= d / 20 for v in vary):
                        ctx.counters['ill_conditioned_skipped'] += 1
                        continue
                    ctx.violation('backends', f'{c[0]}: numpy and math differ by {d:.3g}', [ev], x, y)
                else:
                    ctx.note_max('backend_difference', d)
    finally:
        plain.close()
        bare.close()
