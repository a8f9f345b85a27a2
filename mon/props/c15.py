"""direct radiation for random and boundary instants and altitudes from -90 to 90 (dense around the horizon, subnormal altitudes
included), in both backends, and for altitudes computed by the library along a day: formula, zero at night, bounds, finiteness,
growth with altitude."""
import math
from .. import lib
FLOOR = 8000
REQUIRED = ('night', 'day', 'horizon', 'from_position', 'days')


def run(ctx):
    g, r = ctx.gen, ctx.rng
    for n in ctx.share(list(range(1, 367))):
        ctx.counters['days'] += 1
        ctx.near(ctx.call('radiation.get_apparent_extraterrestrial_flux', n), 1160 + 75 * math.sin(2 * math.pi / 365 * (n - 275)),
                 1e-9, 'flux')
        ctx.near(ctx.call('radiation.get_optical_depth', n), .174 + .035 * math.sin(2 * math.pi / 365 * (n - 100)), 1e-12, 'depth')
    for i in ctx.rounds(24000):
        ctx.backend(r.choice(('numpy', 'math')))
        w, alt = g.when(), g.altitude()
        if r.random() < .3:
            w = g.modern()
            o = ctx.call('solar.get_altitude', *g.place(), w)
            if o.ok:
                alt = o.value
                ctx.counters['from_position'] += 1
        ctx.counters['horizon'] += abs(alt) < 1e-3
        ctx.counters['day' if alt > 0 else 'night'] += 1
        o = ctx.call('radiation.get_radiation_direct', w, alt)
        want = lib.direct(w, float(alt))
        if not ctx.near(o, want, 1e-9, 'direct', rel=1e-9):
            continue
        v = float(o.value)
        ctx.expect(0 <= v < 1235 and math.isfinite(v), 'bounds', 'outside 0..1235 W/m2', [o.event], want, o)
        if 0 < alt <= 90:
            a2 = min(90.0, float(alt) + 10 ** r.uniform(-6, 1.5))
            q = ctx.call('radiation.get_radiation_direct', w, a2)
            if q.ok:
                ctx.expect(float(q.value) >= v - 1e-9, 'monotone', 'falls as the sun rises', [o.event, q.event], o, q)
            if alt > 1e-9:
                ctx.near(ctx.call('radiation.get_air_mass_ratio', alt), 1 / math.sin(math.radians(float(alt))), 0, 'air_mass', rel=1e-9)
