"""atmospheric refraction: random pressures (vacuum to 1.2 bar, rarely 100 bar) and temperatures, geometric elevations over the whole range and
dense around the threshold where the sun's disc touches the horizon, directly and through the position functions; formula, proportionality,
monotone apparent altitude, independence of the azimuth, default atmosphere."""
import math
from .. import lib
from ..ref import spa
FLOOR = 8000
REQUIRED = ('direct', 'zenith', 'through', 'below_threshold', 'defaults')
LIM = -(0.26667 + 0.5667)


def run(ctx):
    g, r = ctx.gen, ctx.rng
    for i in ctx.rounds(16000):
        ctx.backend(r.choice(('numpy', 'math')))
        p, t, e = g.press(), g.temp(), g.altitude()
        if r.random() < .08:     # other planets
            p = 10 ** r.uniform(-3, 7)
        if r.random() < .08:
            t = r.choice((10 ** r.uniform(0, 3.5), 1.0, 273.15, 1000))
        o = ctx.call('solar.get_refraction_correction', p, t, e)
        ctx.counters['direct'] += 1
        exact = float(spa.refraction(p, t, e))
        if abs(e - LIM) > 1e-12:
            ctx.near(o, exact, 1e-10, 'formula', rel=1e-10)
        if e < LIM - 1e-12:
            ctx.counters['below_threshold'] += 1
        if not o.ok:
            ctx.expect(False, 'raised', 'get_refraction_correction() raised', [o.event], exact, o)
            continue
        k = r.choice((0, .5, 2, r.random()))
        ctx.near(ctx.call('solar.get_refraction_correction', p * k, t, e), float(o.value) * k, 1e-11, 'linear_pressure', rel=1e-11)
        k = r.choice((.9, 1.1, r.uniform(.8, 1.2)))
        ctx.near(ctx.call('solar.get_refraction_correction', p, t * k, e), float(o.value) / k, 1e-11, 'inverse_temperature', rel=1e-11)
        e2 = e + 10 ** r.uniform(-7, 0)
        if e > LIM and e2 <= 89.5 or e2 < LIM:
            q = ctx.call('solar.get_refraction_correction', p, t, e2)
            if q.ok:
                rises = e2 + float(q.value) > e + float(o.value) or p / t > 120000 / 190     # thicker air bends too much for that
                ctx.expect(float(q.value) <= float(o.value) + 1e-13 + 1e-13 * float(o.value) and rises, 'monotone',
                           'refraction must fall and apparent altitude rise with elevation', [o.event, q.event], o, q)
        f, d, h = g.lat(), r.uniform(-24, 24), r.choice((r.uniform(-180, 180), r.uniform(-720, 720)))
        z, high = ctx.call('solar.get_topocentric_zenith_angle', f, d, h, p, t), ctx.call('solar.get_topocentric_elevation_angle', f, d, h)
        if high.ok and abs(float(high.value) - LIM) > 1e-9:
            ctx.counters['zenith'] += 1
            ctx.near(z, 90 - float(high.value) - float(spa.refraction(p, t, float(high.value))), 1e-9, 'zenith', rel=1e-10)
        # through the position functions
        if i % 2:
            continue
        w, (lat, lon) = g.when(), g.place()
        s = lib.sun(w)
        if r.random() < .5:
            from .c08 import aim
            lon = aim(s, lat, r.choice((-.83, 0, r.uniform(-1, 3))), r)
        el = g.elev()
        ctx.counters['through'] += 1
        geo = ctx.call('solar.get_altitude', lat, lon, w, el, t, 0)
        full = ctx.call('solar.get_altitude', lat, lon, w, el, t, p)
        pos = ctx.call('solar.get_position', lat, lon, w, el, t, p)
        az = ctx.call('solar.get_azimuth', lat, lon, w, el)
        if not ctx.expect(all(x.ok for x in (geo, full, pos, az)), 'raised', 'position function raised',
                          [geo.event, full.event, pos.event, az.event], 'numbers', (geo, full, pos, az)):
            continue
        e = float(geo.value)
        lift = float(full.value) - e
        want = float(spa.refraction(p, t, e))
        if abs(e - LIM) > 1e-9:
            ctx.expect(abs(lift - want) < 1e-9 and abs(float(pos.value[1]) - e - want) < 1e-9, 'applied',
                       'apparent minus geometric altitude is not the refraction', [geo.event, full.event, pos.event], want, lift)
        ctx.expect(abs(float(pos.value[0]) - float(az.value)) < 1e-9, 'azimuth', 'the atmosphere moves the azimuth',
                   [pos.event, az.event], az, pos)
        if i % 8 == 0:
            ctx.counters['defaults'] += 1
            a = ctx.call('solar.get_altitude', lat, lon, w)
            b = ctx.call('solar.get_altitude', lat, lon, w, elevation=0, temperature=288.15, pressure=101325.0)
            c = ctx.call('solar.get_position', lat, lon, w)
            ctx.expect(a.ok and b.ok and c.ok and abs(float(a.value) - float(b.value)) < 1e-10
                       and abs(float(c.value[1]) - float(b.value)) < 1e-10, 'defaults',
                       'defaults are not sea level, 288.15 K, 101325 Pa', [a.event, b.event, c.event], b, (a, c))
