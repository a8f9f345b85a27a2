"""random instants, places, atmospheres and turbidities, default and explicit arguments (positional and by keyword), both
backends: every factor of the clear-sky and overcast models against its published formula at the altitude the library itself
reports for the same arguments, and the global clear-sky irradiance against the sum of its parts for the same arguments."""
import math
from .. import lib
QUICK = 4
FLOOR = 8000
REQUIRED = ('defaults', 'explicit', 'day', 'night', 'distance_days')


def kd(when):
    return 1 - .0335 * math.sin(2 * math.pi * (lib.yday(when) - 94) / 365)


def dt_(tl):
    return -21.657 + 41.752 * tl + .51905 * tl * tl


def fd(alt):
    s = math.sin(math.radians(alt))
    return .038175 + 1.5458 * s - .59980 * s * s


def fo(alt):
    s = math.sin(math.radians(alt))
    return -.0067133 + .78600 * s + .22401 * s * s


def rayleigh(m):
    """optical thickness per air mass, Kasten 1996"""
    return 1 / (6.6296 + 1.7513 * m - .1202 * m ** 2 + .0065 * m ** 3 - .00013 * m ** 4)


def among(ctx, o, wanted, kind):
    v = float(o.value) if o.ok else None
    ctx.expect(o.ok and any(v == w or abs(v - w) <= 1e-6 + 1e-8 * abs(w) for w in wanted), kind,
               f'{o.event[1]} does not follow from its arguments', [o.event], wanted[0], o)


def run(ctx):
    g, r = ctx.gen, ctx.rng
    for i in ctx.rounds(8000):
        ctx.backend(r.choice(('numpy', 'math')))
        w, (lat, lon) = g.when(), g.place()
        if r.random() < .3:
            from .c08 import aim
            lon = aim(lib.sun(w), lat, r.uniform(-1, 60), r)
        kw = {}
        if r.random() < .6:
            kw = g.atmosphere()
        ctx.counters['explicit' if kw else 'defaults'] += 1
        a = ctx.call('solar.get_altitude', lat, lon, w, **kw)
        if not a.ok:
            continue
        alt = float(a.value)
        ctx.counters['day' if alt > 0 else 'night'] += 1
        ctx.counters['distance_days'] += 1
        ctx.near(ctx.call('util.mean_earth_sun_distance', w), kd(w), 1e-10, 'distance')
        ctx.near(ctx.call('util.solarelevation_function_clear', lat, lon, w, **kw), fd(alt), 1e-8, 'elevation_clear')
        ctx.near(ctx.call('util.solarelevation_function_overcast', lat, lon, w, **kw), fo(alt), 1e-8, 'elevation_overcast')
        if len(kw) == 3:     # positional order as documented: each function has its own
            e, t, p = kw['elevation'], kw['temperature'], kw['pressure']
            ctx.near(ctx.call('util.solarelevation_function_clear', lat, lon, w, t, p, e), fd(alt), 1e-8, 'elevation_clear')
            ctx.near(ctx.call('util.solarelevation_function_overcast', lat, lon, w, e, t, p), fo(alt), 1e-8, 'elevation_overcast')
        ty = r.choice((365, 366, 365.25, r.uniform(300, 400)))
        n = lib.yday(w)
        ctx.near(ctx.call('util.declination_degree', w), lib.declination(n), 1e-9, 'declination')
        ctx.near(ctx.call('util.declination_degree', w, ty), 23.45 * math.sin(2 * math.pi / ty * (n - 81)), 1e-9, 'declination')
        tkw, tl = {}, 1.0
        if r.random() < .7:
            tkw['TL'] = tl = g.num(0, 10 if r.random() < .8 else 30, (0, 0.0, 1, 1.0, 2, 3.5))
        ctx.near(ctx.call('util.diffuse_transmittance', **tkw), dt_(tl), 1e-9, 'transmittance')
        if abs(alt) > 1e-7:
            ctx.near(ctx.call('util.diffuse_underclear', lat, lon, w, **kw, **tkw), kd(w) * dt_(tl) * fd(alt) if alt > 0 else 0.0,
                     1e-6, 'diffuse_clear', rel=1e-8)
            ctx.near(ctx.call('util.global_irradiance_overcast', lat, lon, w, **kw), max(0.0, 572 * fo(alt)), 1e-5, 'global_overcast')
        if tl > 10:      # the recorded defect of the direct irradiance overflows there
            continue
        ckw = dict(kw, **tkw)
        am = {}
        if r.random() < .5:
            am['AM'] = g.num(.5, 3, (1, 2, 1.5, 2.0))
        if r.random() < .3:
            am['TY'] = ty
        # these two have recorded defects (see C23): they are what they are, for the arguments given, or repaired
        rep = rayleigh(am.get('AM', 2.0))
        o = ctx.call('util.diffuse_underovercast', lat, lon, w, **ckw)
        among(ctx, o, (kd(w) * dt_(tl) * alt, kd(w) * dt_(tl) * fo(alt), max(0.0, kd(w) * dt_(tl) * fo(alt)), max(0.0, 572 * fo(alt)),
                       0.0 if alt < 0 else kd(w) * dt_(tl) * fo(alt)), 'overcast_diffuse')
        q = ctx.call('util.global_irradiance_clear', lat, lon, w, **ckw, **am)
        x = ctx.call('util.direct_underclear', lat, lon, w, **ckw, **am)
        y = ctx.call('util.diffuse_underclear', lat, lon, w, **ckw)
        dec = 23.45 * math.sin(2 * math.pi / am.get('TY', 365) * (n - 81))
        s = math.sin(math.radians(alt))
        e1, e2 = (1367 * kd(w) * math.exp(min(700, -.8662 * am.get('AM', 2.0) * tl * z)) * s for z in (dec, rep))
        if abs(e1) < 1e280:
            among(ctx, x, (e1, e2, max(0.0, e2)), 'direct')
        if ctx.expect(q.ok and x.ok and y.ok, 'raised', 'clear-sky irradiance raised', [q.event, x.event, y.event], 'numbers', (q, x, y)):
            want = float(x.value) + float(y.value)
            ctx.expect(abs(float(q.value) - want) <= 1e-9 + 1e-9 * (abs(float(x.value)) + abs(float(y.value))), 'sum',
                       'global clear-sky irradiance is not direct plus diffuse', [q.event, x.event, y.event], want, q)
