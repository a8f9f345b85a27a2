"""all 6259 US Naval Observatory sun positions of 2008 (geometric altitude and azimuth at integral latitudes
and longitudes), and random instants and places 1800 to 2200 against Meeus's low-precision solar theory, which shares no
coefficients with the library's; maximum and mean errors are judged."""
import datetime as dt
import math
import os
from .. import core, lib
from ..ref import meeus
FLOOR = 5000
REQUIRED = ('usno_rows', 'meeus_points')


def sep(az1, alt1, az2, alt2):
    a1, a2 = math.radians(alt1), math.radians(alt2)
    s = math.sin((a1 - a2) / 2) ** 2 + math.cos(a1) * math.cos(a2) * math.sin(math.radians(az1 - az2) / 2) ** 2
    return math.degrees(2 * math.asin(min(1, math.sqrt(s))))


def run(ctx):
    g = ctx.gen
    rows = open(os.path.join(core.VERIF, 'data', 'usno_2008.txt')).read().split('\n')
    tot, n = 0.0, 0
    for line in ctx.share([x for x in rows if x[:2] == '20']):
        d, t, lat, lon, _, az, zen = line.split()
        w = dt.datetime.fromisoformat(f'{d}T{t}+00:00')
        lon = float(lon)
        if n % 3 == 1:
            lon = lon - 360 if lon > 180 else lon
        o = ctx.call('solar.get_position', float(lat), lon, w, pressure=0)
        ctx.counters['usno_rows'] += 1
        if not ctx.expect(o.ok, 'raised', 'raised', [o.event], (az, zen), o):
            continue
        e = sep(float(o.value[0]), float(o.value[1]), float(az), 90 - float(zen))
        tot, n = tot + e, n + 1
        ctx.note_max('usno_deg', e)
        ctx.expect(e < 0.01, 'usno', f'{e:.4f} degrees from the US Naval Observatory position', [o.event],
                   (az, 90 - float(zen)), o.value)
        if n % 4 == 0:     # the default atmosphere only ever lifts the sun, by less than 0.6 degrees
            q = ctx.call('solar.get_altitude', float(lat), lon, w)
            if q.ok:
                ctx.expect(-0.01 < float(q.value) - (90 - float(zen)) < 0.62, 'lift', 'implausible refraction', [q.event],
                           90 - float(zen), q.value)
    ctx.expect(n and tot / n < 0.006, 'usno_mean', 'mean error against the US Naval Observatory', [], '< 0.006', tot / max(1, n))
    for i in ctx.rounds(8000):
        w = g.when(1800, 2200)
        lat, lon = g.place()
        o = ctx.call('solar.get_position', lat, lon, w, pressure=0)
        if not ctx.expect(o.ok, 'raised', 'raised', [o.event], 'a position', o):
            continue
        j = lib.seconds(w) / 86400 + 2440587.5
        az, alt = meeus.horizontal(j, j + 60 / 86400, lat, lon)
        e = sep(float(o.value[0]), float(o.value[1]), az, alt)
        ctx.counters['meeus_points'] += 1
        ctx.note_max('meeus_deg', e)
        ctx.expect(e < 0.03, 'meeus', f'{e:.4f} degrees from the low-precision solar theory', [o.event], (az, alt), o.value)
