"""random calls of every public function in which whole-valued or plain arguments are replaced, one, some or all at a time, by the same values in other types: int, float,
numpy integers and floats, 0-d arrays, subclasses of int, float, str, dict, list and datetime, tuples and arrays for lists; the result must be the
same number (1e-9) each time, with either backend."""
import datetime
import math
from .. import core
from ..calls import SPEC, Caller
EPOCH = datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone.utc)
DRESS = None
FLOOR = 8000
REQUIRED = ('variants', 'whole_numbers', 'np_integers', 'np_floats', 'zero_dim', 'subclasses', 'containers', 'all_at_once', 'rounded_domain')
DOMAIN = {'lat': (-90, 90), 'up': (1, 90), 'zen': (0, 90), 'slope': (0, 90), 'mass': (1, 38), 'alpha': (1, 2), 'beta': (0, 1), 'un': (0, 0), 'uo': (0, 0), 'w': (0, 10), 'mbar': (300, 1100),
          'frac': (-1, 1), 'R': (1, 1), 'obl': (22, 25), 'small': (0, 0), 'par': (0, 1), 'decl': (-24, 24), 'sc': (1300, 1400), 'ty': (360, 370), 'tl': (1, 10), 'am': (1, 4), 'ghi': (1, 1000),
          'lam': (1, 2), 'temp': (200, 330), 'press': (0, 120000), 'alt': (-90, 90), 'day': (1, 366), 'jd': (2400000, 2500000), 'jce': (-2, 2), 'jme': (-2, 2), 'step': (1, 1440)}


class Int(int):
    """a whole number with a meaning"""


class Float(float):
    """a number with a meaning"""


class Text(str):
    """a string with a meaning"""


class Table(dict):
    """a dictionary with a meaning"""


class Row(list):
    """a list with a meaning"""


class Moment(datetime.datetime):
    """a datetime of another library"""


def kinds(name, args, kw):
    """[(place, kind)]: the positions and names of the arguments of a call"""
    opt = {a: b for k in SPEC[name] if isinstance(k, dict) for a, b in k.items()}
    pos = [k.lstrip('?') for k in SPEC[name] if not isinstance(k, dict)]
    return [(i, pos[i]) for i in range(len(args))] + [(k, opt[k]) for k in kw]


def whole(v, kind):
    """a whole number near v that the function is made for"""
    lo, hi = DOMAIN.get(kind, (-10 ** 6, 10 ** 6))
    return min(max(round(v), lo), hi)


def variants(v, kind, backend):
    """the same value in other types: [(counter, value)]"""
    import numpy as np
    if isinstance(v, datetime.datetime):
        return [('subclasses', Moment(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, v.tzinfo, fold=v.fold))]
    if isinstance(v, str):
        return [('subclasses', Text(v)), ('subclasses', np.str_(v))]
    if isinstance(v, dict):
        return [('subclasses', Table(v)), ('subclasses', {k: np.float64(x) for k, x in reversed(list(v.items()))})]
    if isinstance(v, (list, tuple)):
        return [('containers', tuple(v)), ('containers', Row(v)), ('containers', np.array(v)), ('containers', [np.float64(x) for x in v])]
    out = [('np_floats', np.float64(v)), ('subclasses', Float(v)), ('zero_dim', np.array(float(v)))]
    if v == int(v) and abs(v) < 2 ** 31:
        n = int(v)
        out += [('whole_numbers', n), ('whole_numbers', float(n)), ('subclasses', Int(n)), ('np_integers', np.int64(n)), ('np_integers', np.int32(n)), ('zero_dim', np.array(n))]
    return out


def run(ctx):
    g, r = ctx.gen, ctx.rng
    maker = Caller(g, ctx.has)
    for i in ctx.rounds(900):
        backend = ctx.backend(r.choice(('numpy', 'math')))
        for name in [r.choice(maker.names) for _ in range(4)]:
            n, args, kw = maker.make(name)
            places = kinds(n, args, kw)
            a, k = list(args), dict(kw)

            def put(where, a, k, v):
                if isinstance(where, int):
                    a[where] = v
                else:
                    k[where] = v
            if r.random() < .7:      # whole numbers throughout, or here and there
                p = r.choice((1, .5))
                for w, kind in places:
                    v = args[w] if isinstance(w, int) else kw[w]
                    if isinstance(v, (int, float)) and math.isfinite(v) and kind not in ('lapse', 'molar', 'ground') and r.random() < p:
                        put(w, a, k, float(whole(v, kind)) if kind != 'step' else whole(v, kind))
                        ctx.counters['rounded_domain'] += 1
            base = ctx.call(n, *a, **k)
            want = read(base)
            for j in range(6):
                aa, kk, used = list(a), dict(k), set()
                every = r.random() < .3
                chosen = [x for x in places if r.random() < .7] if every else []
                for w, kind in chosen or [r.choice(places)] if places else []:
                    v = a[w] if isinstance(w, int) else k[w]
                    c, x = r.choice(variants(v, kind, backend))
                    used.add(c)
                    put(w, aa, kk, x)
                if not used:
                    continue
                o = ctx.call(n, *aa, **kk)
                for c in used:
                    ctx.counters[c] += 1
                ctx.counters['variants'] += 1
                ctx.counters['all_at_once'] += len(chosen) > 1
                got = read(o)
                ctx.expect(agree(got, want), 'type', f'{n} depends on the type of a number, string or container', [base.event, o.event], base, o)


def read(o):
    """the numbers of an outcome; 'no number' for errors and infinities of a division by zero"""
    if not o.ok:
        return 'no number' if isinstance(o.exc, (ArithmeticError, ValueError)) else type(o.exc).__name__
    out = []

    def walk(v):
        if isinstance(v, datetime.datetime):
            out.extend(((v - EPOCH).total_seconds(), v.utcoffset().total_seconds()))
        elif isinstance(v, dict):
            for k in sorted(v):
                walk(v[k])
        elif isinstance(v, (list, tuple)) or hasattr(v, '__next__'):
            for x in v:
                walk(x)
        else:
            out.append(float(v))
    try:
        walk(o.value)
    except Exception as e:
        return 'no number' if isinstance(e, (ArithmeticError, ValueError)) else type(e).__name__
    return 'no number' if len(out) == 1 and not math.isfinite(out[0]) else out


def agree(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    if len(x) != len(y):
        return False
    return all(p == q or p != p and q != q or abs(p - q) <= 1e-9 * max(1, abs(q)) or abs(abs(p - q) - 360) <= 1e-9 for p, q in zip(x, y))
