"""random places between the polar circles and beyond, local dates 1950 to 2050 in zones whose offset matches the longitude and in
others: the precise position functions are evaluated at the sunrise, sunset and transit instants the library names, and one
minute either side."""
import datetime as dt
import math
from .. import lib
FLOOR = 3000
REQUIRED = ('days', 'southern', 'northern')


def run(ctx):
    g, r = ctx.gen, ctx.rng
    for i in ctx.rounds(4000):
        ctx.backend(r.choice(('numpy', 'math')))
        lat, lon = g.lat(60), g.lon(False)
        w = g.when(1950, 2050, 0, r.choice((None, dt.timezone(dt.timedelta(hours=round(lon / 15))))))
        if r.random() < .15:
            w = g.clock_change_day()
        if getattr(w.tzinfo, 'swing', 0):
            w = w.astimezone(lib.UTC)
        o = ctx.call('util.get_sunrise_sunset_transit', lat, lon, w)
        if not ctx.expect(o.ok, 'raised', 'raised between the polar circles', [o.event], 'three times', o):
            continue
        ctx.counters['days'] += 1
        rise, sett, noon = o.value
        for name, t in (('rise', rise), ('set', sett)):
            p = ctx.call('solar.get_position', lat, lon, t, pressure=0)
            if not p.ok:
                continue
            az, alt = float(p.value[0]), float(p.value[1])
            ctx.note_max('altitude_at_' + name, abs(alt + .833))
            ctx.expect(abs(alt + .833) < 1.0, name, f'sun not on the horizon at sun{name}', [o.event, p.event], -.833, alt)
            ctx.expect((0 < az < 180) == (name == 'rise'), name + '_side', f'sun{name} on the wrong side', [o.event, p.event],
                       'east' if name == 'rise' else 'west', az)
            q = ctx.call('solar.get_altitude', lat, lon, lib.utc(t) + dt.timedelta(minutes=2), pressure=0)
            if q.ok:
                ctx.expect((float(q.value) > alt) == (name == 'rise'), name + '_direction', 'altitude moves the wrong way',
                           [o.event, p.event, q.event], name, (alt, q.value))
        # hour angle at transit from the direction: small, sun in the upper half of the meridian
        p = ctx.call('solar.get_position', lat, lon, noon, pressure=0)
        if p.ok:
            az, alt = math.radians(float(p.value[0])), math.radians(float(p.value[1]))
            f = math.radians(lat)
            west = -math.cos(alt) * math.sin(az)
            mer = math.cos(f) * math.sin(alt) - math.sin(f) * math.cos(alt) * math.cos(az)
            h = math.degrees(math.atan2(west, mer))
            ctx.note_max('hour_angle_at_transit', abs(h))
            ctx.counters['northern' if lat > 0 else 'southern'] += 1
            ctx.expect(abs(h) < .3, 'transit', 'sun not on the meridian at transit', [o.event, p.event], 0, h)
