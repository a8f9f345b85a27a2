"""random instants 1950 to 2050 and places, both backends: the fast model's altitude and azimuth against the precise
ones, judged by the largest difference and by the mean error over the run."""
import math
from .. import lib
from .c09 import sep
FLOOR = 4000
REQUIRED = ('points',)


def run(ctx):
    g, r = ctx.gen, ctx.rng
    n = tot = 0
    for i in ctx.rounds(16000):
        ctx.backend(r.choice(('numpy', 'math')))
        w, lat, lon = g.when(1950, 2050, 0), g.lat(89.9), g.lon(False)
        o = ctx.call('solar.get_position', lat, lon, w, pressure=0)
        a = ctx.call('solar.get_altitude_fast', lat, lon, w)
        z = ctx.call('solar.get_azimuth_fast', lat, lon, w)
        if not ctx.expect(o.ok and a.ok and z.ok, 'raised', 'raised', [o.event, a.event, z.event], 'numbers', (o, a, z)):
            continue
        ctx.counters['points'] += 1
        d = abs(float(a.value) - float(o.value[1]))
        s = sep(float(o.value[0]), float(o.value[1]), float(z.value), float(a.value))
        ctx.note_max('altitude_difference', d)
        ctx.note_max('separation', s)
        n, tot = n + 1, tot + s
        ctx.expect(d < 1.9, 'altitude', 'fast and precise altitude differ', [o.event, a.event], o.value[1], a)
        ctx.expect(s < 1.9, 'direction', 'fast and precise sun directions differ', [o.event, a.event, z.event], o.value, (z, a))
    ctx.note_max('mean', tot / max(n, 1))
    if n > 200:
        ctx.expect(tot / n < 0.55, 'mean', 'mean difference between the models', [], '< 0.9 degrees', tot / n)
