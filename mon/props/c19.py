"""random places and local dates (leap days, year ends, every UTC offset, days on which clocks change, repeated hours) in both
backends: sunrise, sunset and transit against the published day-of-year series, their order and symmetry, the three wrappers, the time zone of
the results, independence of the time of day, and polar day and night."""
import datetime as dt
import math
from .. import lib
FLOOR = 6000
REQUIRED = ('days', 'polar', 'dst_days', 'time_of_day_pairs', 'leap_day', 'clock_half_a_day_off')


def series(day):
    t = 2 * math.pi * day / 366
    decl = (0.322003 - 22.971 * math.cos(t) - 0.357898 * math.cos(2 * t) - 0.14398 * math.cos(3 * t)
            + 3.94638 * math.sin(t) + 0.019334 * math.sin(2 * t) + 0.05928 * math.sin(3 * t))
    a = math.radians(279.134 + 0.985647 * day)
    eq = (5.0323 - 100.976 * math.sin(a) + 595.275 * math.sin(2 * a) + 3.6858 * math.sin(3 * a) - 12.47 * math.sin(4 * a)
          - 430.847 * math.cos(a) + 12.5024 * math.cos(2 * a) + 18.25 * math.cos(3 * a)) / 3600
    return decl, eq


def oracle(lat, lon, when):
    """hours after midnight UTC+offset: sunrise, sunset, transit; None for polar day or night"""
    off = when.utcoffset().total_seconds()
    decl, eq = series(when.timetuple().tm_yday)
    midday = dt.datetime(when.year, when.month, when.day, 12, tzinfo=when.tzinfo).utcoffset().total_seconds()
    noon = 12 + off / 3600 - lon / 15 - eq - 24 * round((midday / 3600 - lon / 15) / 24)      # of this local day
    f, d = math.radians(lat), math.radians(decl)
    c = math.cos(math.radians(90.833)) / (math.cos(f) * math.cos(d)) - math.tan(f) * math.tan(d)
    if abs(c) > 1:
        return None, c
    ha = math.degrees(math.acos(c)) / 15
    return (noon - ha, noon + ha, noon), c


def instants(when, hours):
    mid = dt.datetime(when.year, when.month, when.day, tzinfo=dt.timezone.utc) - when.utcoffset()
    return [mid + dt.timedelta(hours=h) for h in hours]


def near(a, b, s=.01):
    return abs((lib.utc(a) - lib.utc(b)).total_seconds()) <= s


def run(ctx):
    g, r = ctx.gen, ctx.rng
    for i in ctx.rounds(9000):
        ctx.backend(r.choice(('numpy', 'math')))
        when, lat, lon = g.when(1600, 2400), g.lat(89.9), g.lon(r.random() < .2)
        if r.random() < .25 and g.zones:
            when = g.clock_change_day()
            ctx.counters['dst_days'] += 1
        if getattr(when.tzinfo, 'swing', 0):      # hand-written zones cannot express their own repeated hour
            when = when.astimezone(lib.UTC)
        if r.random() < .4:
            lat = r.uniform(-60, 60)
        k = r.random()
        if k < .1:       # the wrong side of the date line: UTC+13 and +14, and their mirror images
            h = r.choice((12, 12.75, 13, 13.75, 14, -11, -12))
            when, lon = when.astimezone(dt.timezone(dt.timedelta(hours=h))), math.copysign(r.uniform(150, 180), -h)
        elif k < .15:
            lon = r.uniform(180, 360)
        ctx.counters['days'] += 1
        ctx.counters['leap_day'] += when.timetuple().tm_yday in (60, 366)
        want, c = oracle(lat, lon, when)
        o = ctx.call('util.get_sunrise_sunset_transit', lat, lon, when)
        ahead = abs(when.replace(hour=12, minute=0, fold=0).utcoffset().total_seconds() / 3600 - lon / 15)      # of the sun, by the clock
        if abs(abs(c) - 1) < 1e-9 or abs(ahead % 24 - 12) < 1e-9:        # midnight sun or noon at midnight: either day will do
            continue
        ctx.counters['clock_half_a_day_off'] += ahead > 12
        if want is None:
            ctx.counters['polar'] += 1
            ctx.expect(isinstance(o.exc, ValueError), 'polar', 'polar day or night must raise ValueError', [o.event], 'ValueError', o)
            continue
        if not ctx.expect(o.ok and len(o.value) == 3, 'raised', 'no sunrise, sunset, transit', [o.event], instants(when, want), o):
            continue
        exp = instants(when, want)
        rise, sett, noon = o.value
        tol = .01 + 1e-9 / max(1e-12, math.sqrt(max(0, 1 - c * c)))
        ctx.expect(all(near(a, b, tol) for a, b in zip(o.value, exp)), 'series', 'not the published series', [o.event], exp, o.value)
        ctx.expect(lib.utc(rise) <= lib.utc(noon) <= lib.utc(sett) and near(noon, lib.utc(rise) + (lib.utc(sett) - lib.utc(rise)) / 2, .01), 'order',
                   'sunrise, transit, sunset out of order or asymmetric', [o.event], 'rise <= noon <= set', o.value)
        ctx.expect(all(x.tzinfo is when.tzinfo or x.utcoffset() == x.astimezone(when.tzinfo).utcoffset() for x in o.value), 'zone',
                   'results are not in the time zone of the argument', [o.event], when.tzinfo, [x.tzinfo for x in o.value])
        middle = (lib.utc(noon) - lib.utc(dt.datetime(when.year, when.month, when.day, 12, tzinfo=when.tzinfo))).total_seconds()
        ctx.expect(abs(middle) < 12.3 * 3600, 'day', 'transit is not that of the local day', [o.event], 'within 12.3 h of its noon', o.value)
        n, idx = r.choice((('util.get_sunrise_time', 0), ('util.get_sunset_time', 1), ('util.get_transit_time', 2)))
        q = ctx.call(n, lat, lon, when)
        ctx.expect(q.ok and q.value == o.value[idx], 'wrapper', f'{n} differs', [o.event, q.event], o.value[idx], q)
        q = ctx.call('util.get_sunrise_sunset', lat, lon, when)
        ctx.expect(q.ok and tuple(q.value) == tuple(o.value[:2]), 'wrapper', 'get_sunrise_sunset differs', [o.event, q.event],
                   o.value[:2], q)
        # another time on the same local day
        b = when.replace(hour=r.randint(0, 23), minute=r.randint(0, 59), second=r.randint(0, 59), microsecond=r.randrange(10 ** 6))
        q = ctx.call('util.get_sunrise_sunset_transit', lat, lon, b)
        if q.ok:
            ctx.counters['time_of_day_pairs'] += 1
            ctx.expect(all(near(p, s, .01) for p, s in zip(q.value, o.value)), 'time_of_day',
                       'the answer depends on the time of day', [o.event, q.event], o.value, q.value)
