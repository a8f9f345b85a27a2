"""random well-formed calls of every public function, both backends, one numeric argument (positional, keyword, or a member of the nutation)
replaced by NaN of several kinds, or an angle or a date by an infinity; the outcome must be an exception or NaN (or infinity, when one was given) in every part, unless that part is
seen not to depend on the argument: other values for it, near and far, give exactly the same part."""
import math
from ..calls import Caller, SPEC
FLOOR = 8000
REQUIRED = ('nan_given', 'infinity_given', 'nan_returned', 'no_influence', 'keyword_nan', 'nan_in_nutation', 'refused')
OPTIONAL = {n: {a: b for k in s if isinstance(k, dict) for a, b in k.items()} for n, s in SPEC.items()}
POSITIONAL = {n: [k.lstrip('?') for k in s if not isinstance(k, dict)] for n, s in SPEC.items()}
CYCLIC = ('lat', 'lon', 'angle', 'jd', 'jce', 'jme', 'day', 'decl', 'zen', 'slope', 'obl')     # an infinite one is no angle or date either
NOT = ('when', 'modern', 'start', 'end', 'step', 'horizon', 'band')


def parts(v):
    """the numbers (or other leaves) of a result, in order"""
    if isinstance(v, (tuple, list)):
        return [x for y in v for x in parts(y)]
    if isinstance(v, dict):
        return [x for k in sorted(v) for x in parts(v[k])]
    return [v]


def missing(x):
    try:
        return float(x) != float(x)
    except (TypeError, ValueError):
        return False


def infinite(x):
    try:
        return math.isinf(x)
    except TypeError:
        return False


def same(x, y):
    try:
        return float(x) == float(y)
    except (TypeError, ValueError):
        return x == y


def rows(o):
    if o.ok and hasattr(o.value, '__next__'):
        try:
            return parts([tuple(x) for x in o.value])
        except Exception:
            return None
    return parts(o.value) if o.ok else None


def run(ctx):
    import numpy as np
    g, r = ctx.gen, ctx.rng
    mk = Caller(g, ctx.has)
    nans = (math.nan, -math.nan, float('nan'), np.float64('nan'), math.inf - math.inf)
    for i in ctx.rounds(60000):
        ctx.backend(r.choice(('numpy', 'math')))
        name, args, kw = mk.make()
        spots = [('pos', j, k) for j, k in enumerate(POSITIONAL[name][:len(args)]) if k not in NOT] + [('kw', n, OPTIONAL[name][n]) for n in kw]
        if not spots:
            continue
        how, at, kind = r.choice(spots)
        member = r.choice(('longitude', 'obliquity')) if kind == 'nut' else None

        def put(v):
            a, k = list(args), dict(kw)
            where = a if how == 'pos' else k
            where[at] = dict(where[at], **{member: v}) if member else v
            return ctx.call(name, *a, **k)
        ctx.counters['nan_given'] += 1
        ctx.counters['keyword_nan'] += how == 'kw'
        ctx.counters['nan_in_nutation'] += member is not None
        bad = r.choice(nans)
        if kind in CYCLIC and r.random() < .2:
            bad = r.choice((math.inf, -math.inf))
            ctx.counters['infinity_given'] += 1
        o = put(bad)
        got = rows(o)
        ctx.judged()
        if got is None:
            ctx.counters['refused'] += 1
            continue
        numbers = [j for j, x in enumerate(got) if not missing(x) and not (bad in (math.inf, -math.inf) and infinite(x))]
        if not numbers:
            ctx.counters['nan_returned'] += 1
            continue
        # which of the parts that are numbers depend on this argument?
        base = (args[at] if how == 'pos' else kw[at])
        base = base[member] if member else base
        others = [base, base + .01 * max(1, abs(base))] + [mk.arg(kind)[member] if member else mk.arg(kind) for _ in range(3)]
        seen = [rows(put(v)) for v in others]
        for j in numbers:
            vary = [s[j] for s in seen if s is not None and len(s) == len(got)]
            if any(s is None or len(s) != len(got) for s in seen) or any(not same(v, vary[0]) and not (missing(v) and missing(vary[0])) for v in vary):
                ctx.violation('number_from_nan', f'{name} made a number out of {bad} given as {at!r}' + (f' ({member})' if member else ''), [o.event], 'NaN or an exception', o)
                break
        else:
            ctx.counters['no_influence'] += 1
