"""random and boundary instants and places, default and random solar constants, scalar and array irradiation data, both backends:
extraterrestrial irradiance against the Fourier series times the cosine of the fast model's zenith angle, zero at night,
bounds, and the clearness index as a ratio to it."""
import math
from .. import lib
FLOOR = 6000
REQUIRED = ('day', 'night', 'index_scalar', 'index_array')


def extra(when, lat, lon, sc=1367.0):
    n = lib.yday(when)
    a = 2 * math.pi * (n - 1) / 365
    e0 = 1.00010 + .034221 * math.cos(a) + .001280 * math.sin(a) + .000719 * math.cos(2 * a) + .000077 * math.sin(2 * a)
    h = math.radians(15 * (lib.solar_time(when, lon) - 12))
    d, f = math.radians(lib.declination(n)), math.radians(lat)
    mu = math.sin(f) * math.sin(d) + math.cos(f) * math.cos(d) * math.cos(h)
    return (sc * mu * e0 if mu > 0 else 0.0), mu, e0


def run(ctx):
    import numpy as np
    g, r = ctx.gen, ctx.rng
    for i in ctx.rounds(16000):
        ctx.backend(r.choice(('numpy', 'math')))
        w, (lat, lon) = g.when(), g.place()
        kw, sc = {}, 1367.0
        if r.random() < .3:
            kw['SC'] = sc = r.choice((1361, 1366.1, 1.0, 0, 0.0, r.uniform(1000, 2000)))
        o = ctx.call('util.extraterrestrial_irrad', lat, lon, w, *kw.values()) if r.random() < .5 else \
            ctx.call('util.extraterrestrial_irrad', lat, lon, w, **kw)
        want, mu, e0 = extra(w, lat, lon, sc)
        ctx.counters['day' if mu > 0 else 'night'] += 1
        ok = ctx.near(o, want, 1e-8, 'irradiance', rel=1e-10)
        if ok:
            ctx.expect(0 <= float(o.value) <= sc * 1.0366, 'bounds', 'outside 0..1.0366 solar constants', [o.event], want, o)
        if mu > 1e-4:
            base, _, _ = extra(w, lat, lon)
            ghi = r.uniform(0, 1200)
            ctx.counters['index_scalar'] += 1
            ctx.near(ctx.call('util.clear_index', ghi, lat, lon, w), ghi / base, 1e-9, 'clear_index', rel=1e-9)
            if i % 3 == 0:
                arr = np.array([r.uniform(0, 1200) for _ in range(5)])
                keep = arr.copy()
                q = ctx.call('util.clear_index', arr, lat, lon, w)
                ctx.counters['index_array'] += 1
                ctx.expect(q.ok and np.allclose(q.value, keep / base, rtol=1e-9) and (arr == keep).all(), 'clear_index_array',
                           'clearness index of an array', [q.event], keep / base, q)
                q = ctx.call('util.diffuse_ratio', keep / 3, keep)
                ctx.expect(q.ok and np.allclose(q.value, 1 / 3), 'diffuse_ratio', 'ratio of arrays', [q.event], 1 / 3, q)
            x, y = r.uniform(0, 1000), r.uniform(1, 1000)
            ctx.near(ctx.call('util.diffuse_ratio', x, y), x / y, 0, 'diffuse_ratio', rel=1e-12)
