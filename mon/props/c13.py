"""random and boundary instants and places, all days of the year, both backends: the fast model's equation of time, declination,
solar time, hour angle, altitude and azimuth against Masters's formulas and a rotation of the (declination, hour angle) vector
into the local horizon."""
import math
from .. import lib
FLOOR = 8000
REQUIRED = ('days', 'points', 'polar', 'north_of_east_west')


def run(ctx):
    g, r = ctx.gen, ctx.rng
    for n in ctx.share(list(range(1, 367))):
        for b in ('numpy', 'math'):
            ctx.backend(b)
            ctx.counters['days'] += 1
            ctx.near(ctx.call('solar.equation_of_time', n), lib.eot(n), 1e-9, 'eot')
            ctx.near(ctx.call('solar.get_declination', n), lib.declination(n), 1e-9, 'declination')
    for i in ctx.rounds(16000):
        ctx.backend(r.choice(('numpy', 'math')))
        w, (lat, lon) = g.when(), g.place()
        k = r.random()
        if k < .1:       # the sun overhead or on the meridian of the fast model
            lat = lib.declination(lib.yday(w)) * r.choice((1, -1)) + r.choice((0, 1e-7, r.uniform(-1, 1)))
        if k < .15:
            lon = -(lib.solar_time(w, 0) - r.choice((0, 6, 12, 18, 24))) * 15
        st = lib.solar_time(w, lon)
        ctx.near(ctx.call('solar.get_solar_time', lon, w), st, 1e-9, 'solar_time')
        ctx.near(ctx.call('solar.get_hour_angle', w, lon), 15 * (st - 12), 1e-8, 'hour_angle')
        az, alt = lib.fast_horizontal(w, lat, lon)
        c = math.cos(math.radians(alt))
        # asin() loses half the digits near 90 degrees
        a = ctx.call('solar.get_altitude_fast', lat, lon, w)
        ctx.near(a, alt, 1e-9 + 3e-8 / max(c, .01), 'altitude_fast')
        z = ctx.call('solar.get_azimuth_fast', lat, lon, w)
        ctx.counters['points'] += 1
        ctx.counters['polar'] += abs(lat) > 89
        if c > 1e-5:
            d = math.radians(lib.declination(lib.yday(w)))
            h = math.radians(15 * (st - 12))
            north = math.cos(math.radians(lat)) * math.sin(d) - math.sin(math.radians(lat)) * math.cos(d) * math.cos(h)
            ctx.counters['north_of_east_west'] += north > 0
            ctx.near_deg(z, az, (1e-8 + min(5e-6, 1e-12 / max(abs(north), 1e-300))) / c ** 2, 'azimuth_fast')
        elif z.ok:
            ctx.expect(0 <= float(z.value) <= 360, 'range', 'azimuth outside 0..360', [z.event], '0..360', z)
        else:
            ctx.expect(False, 'raised', 'get_azimuth_fast() raised', [z.event], 'a number', z)
