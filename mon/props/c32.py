"""traces of the sun at equal steps of 1 s to 1 h, at random places, across year, month, leap-second, leap-day, table-end and clock-change boundaries and in
ordinary stretches, for the precise and the fast functions; the arc between consecutive samples must be that of a steadily turning
sky, without seams, and the altitude must turn once up and once down per day."""
import datetime as dt
import math
from .. import lib
from ..gen import EDGES, SOLAR_MARKS
FLOOR = 8000
REQUIRED = ('traces', 'boundary_traces', 'arcs', 'days', 'fast_steps', 'month_boundaries')
DAY = 86400.0


def unit(az, alt):
    a, h = math.radians(az), math.radians(alt)
    return (math.cos(h) * math.cos(a), math.cos(h) * math.sin(a), math.sin(h))


def arc(u, v):
    c = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
    return math.degrees(math.atan2(math.sqrt(sum(x * x for x in c)), sum(x * y for x, y in zip(u, v))))


def run(ctx):
    g, r = ctx.gen, ctx.rng
    for i in ctx.rounds(1400):
        ctx.backend(r.choice(('numpy', 'math')))
        lat, lon = g.lat(89.5), g.lon(False)
        k = r.random()
        if k < .55:
            t = r.choice(EDGES)
            if k < .3:
                y = r.randint(1950, 2100)
                m, d = r.choice(SOLAR_MARKS)
                t = dt.datetime(y, m, min(d, 28) if m == 2 else d)
            t = t.replace(tzinfo=dt.timezone.utc)
            ctx.counters['boundary_traces'] += 1
        else:
            t = lib.utc(g.modern())
        step = r.choice((1, 10, 60, 60, 300, 600, 1800, 3600)) * r.choice((1, 1, 1.5))
        n = r.choice((12, 24))
        z = g.tz()
        times = [t + dt.timedelta(seconds=step * (j - n / 2 + r.choice((0, .5, .25)) * 0)) for j in range(n)]
        elev = g.elev() if r.random() < .3 else 0
        ctx.counters['traces'] += 1
        pts, evs = [], []
        for w in times:
            o = ctx.call('solar.get_position', lat, lon, g._in(w, z), elev, pressure=0)
            if not o.ok:
                ctx.violation('raised', 'get_position raised', [o.event], 'a position', o)
                break
            pts.append(unit(float(o.value[0]), float(o.value[1])))
            evs.append(o.event)
        arcs = [arc(a, b) for a, b in zip(pts, pts[1:])]
        for j, (a, e) in enumerate(zip(arcs, zip(evs, evs[1:]))):
            turn = step / DAY * 360
            ctx.counters['arcs'] += 1
            ctx.judged()
            seam = (times[j].year, times[j].month) != (times[j + 1].year, times[j + 1].month)
            ctx.counters['month_boundaries'] += seam
            jump = .0062 if seam else 0.0
            # great circle across a small circle: shorter by at most turn**3/24, and parallax
            low = math.cos(math.radians(23.5)) * turn * (1 - 1.2e-3) * (1 - (math.radians(turn) ** 2) / 20) - 1e-6 - jump
            high = turn * (1 + 1.2e-3) + 1e-6 + jump
            if not low <= a <= high:
                ctx.violation('speed', 'the sun jumps or stands still', list(e), (low, high), a)
            if j and not jump and (times[j - 1].year, times[j - 1].month) == (times[j].year, times[j].month):
                b = arcs[j - 1]
                lim = 8e-7 + turn * 4e-3 * step / DAY * 2 + .004 * (2 * math.pi * step / DAY) ** 2
                ctx.judged()
                ctx.note_max('arc_change_over_limit', abs(a - b) / lim)
                if abs(a - b) > lim:
                    ctx.violation('seam', 'the speed of the sun changes abruptly', [evs[j - 1], *e], b, a)
        # one up and one down per day
        if abs(lat) < 66 and i % 3 == 0:
            ctx.counters['days'] += 1
            hs = []
            for j in range(97):
                o = ctx.call('solar.get_altitude', lat, lon, t + dt.timedelta(seconds=900 * j), 0, 288.15, 0)
                hs.append(float(o.value) if o.ok else math.nan)
            turns = sum((b - a) * (c - b) < 0 for a, b, c in zip(hs, hs[1:], hs[2:]))
            ctx.expect(1 <= turns <= 3 and all(h == h for h in hs), 'culminations', 'altitude does not rise and fall once in a day', [o.event],
                       '1 to 3 turning points in 24 h', (turns, hs[::8]))
        # the fast model: constant within a minute, then one minute of turning, a small correction at midnight UTC
        base = t.replace(second=0, microsecond=0) + dt.timedelta(minutes=r.choice((0, -1, -2, r.randint(-700, 700))))
        last = None
        for j in range(6):
            w = base + dt.timedelta(minutes=j)
            a = ctx.call('solar.get_altitude_fast', lat, lon, g._in(w, z))
            b = ctx.call('solar.get_altitude_fast', lat, lon, g._in(w + dt.timedelta(seconds=r.choice((1, 30, 59.9))), z))
            q = ctx.call('solar.get_azimuth_fast', lat, lon, g._in(w, z))
            if not ctx.expect(a.ok and b.ok and q.ok, 'raised', 'fast functions raised', [a.event, b.event, q.event], 'numbers', (a, b, q)):
                break
            ctx.counters['fast_steps'] += 1
            ctx.expect(float(a.value) == float(b.value), 'fast:minute', 'fast altitude changes within a minute', [a.event, b.event], a, b)
            u = unit(float(q.value), float(a.value))
            if last is not None:
                v, day, ev = last
                # between UTC days the tabulated declination (0.4 deg) and equation of time (0.13 deg) step
                lim = .2505 + (.62 if day != w.date() else 0) + (5.5 if (day.month, day.day) == (12, 31) and day != w.date() else 0)
                ctx.expect(arc(u, v) <= lim and (day != w.date() or arc(u, v) >= .2285), 'fast:speed', 'the fast sun jumps or stands still', [ev, a.event, q.event],
                           lim, arc(u, v))
            last = (u, w.date(), a.event)
