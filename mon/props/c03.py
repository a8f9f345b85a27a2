"""random and boundary instants of years 2 to 9998 in many time zones: the UT and TT Julian days, centuries and
millennia are compared with exact calendar arithmetic; pairs of instants microseconds to centuries
apart check that elapsed time and order are preserved."""
import datetime as dt
from .. import lib
FLOOR = 3000
REQUIRED = ('pairs', 'short_pairs')
TOL = 2e-9


def run(ctx):
    g, r = ctx.gen, ctx.rng
    for i in ctx.rounds(20000):
        w = g.when()
        a = ctx.call('solartime.get_julian_ephemeris_day', w)
        b = ctx.call('solartime.get_julian_solar_day', w)
        ctx.near(a, lib.jde(w), TOL, 'jde')
        ctx.near(b, lib.jd(w), TOL, 'jd')
        if not (a.ok and b.ok):
            continue
        d = ctx.call('solartime.get_delta_t', w)
        if d.ok:
            ctx.near(b, a.value - d.value / 86400, TOL, 'jd_vs_jde')
        j = r.choice((a.value, b.value, g.julian(), int(g.julian()), g.num(1700000, 5400000, (2451545, 2415020, 2488070))))
        c = ctx.call('solartime.get_julian_century', j)
        ctx.near(c, (j - 2451545.0) / 36525, 1e-12, 'century')
        e = ctx.call('solartime.get_julian_ephemeris_century', j)
        ctx.near(e, (j - 2451545.0) / 36525, 1e-12, 'ephemeris_century')
        if e.ok:
            ctx.near(ctx.call('solartime.get_julian_ephemeris_millennium', e.value), e.value / 10, 1e-13, 'millennium')
        # two instants: elapsed time and order
        span = r.choice((.002, .1, 1, 2, 60, 3600, 86400, 40 * 86400, 3.2e9)) * r.uniform(.5, 1)
        try:
            v = (lib.utc(w) + dt.timedelta(seconds=span)).astimezone(g.tz())
        except OverflowError:
            continue
        if not 2 <= v.year <= 9998:
            continue
        a2 = ctx.call('solartime.get_julian_ephemeris_day', v)
        ctx.counters['pairs'] += 1
        if span <= 2:
            ctx.counters['short_pairs'] += 1
        if a2.ok:
            elapsed = (lib.utc(v) - lib.utc(w)).total_seconds() + lib.leap(v) - lib.leap(w)
            ctx.near(a2, a.value + elapsed / 86400, TOL, 'elapsed')
            ctx.expect(a2.value > a.value, 'order', 'later instant, not a later ephemeris day', [a.event, a2.event],
                       f'> {a.value}', a2.value)
