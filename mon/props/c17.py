"""random places, atmospheres, horizons (flat, random, a single obstructed degree, length 360 and 361) and spans in both backends,
consumed fully, partly and interleaved with a second simulation; every row is judged against the library's own position
at that time and the horizon entry of that azimuth."""
import datetime as dt
import itertools
import math
from .. import lib
FLOOR = 8000
REQUIRED = ('rows', 'shaded', 'lit', 'north_wrap', 'interleaved', 'obstructed_degree', 'grazing')


def run(ctx):
    g, r = ctx.gen, ctx.rng
    for i in ctx.rounds(700):
        ctx.backend(r.choice(('numpy', 'math')))
        runs = []
        for _ in range(r.choice((1, 1, 2))):
            lat, lon, start = g.lat(), g.lon(False), g.when(1950, 2050, 0)
            kw = g.atmosphere()
            kind = r.random()
            n = r.choice((360, 361))
            if kind < .3:
                hz = [r.choice((0, 380, 760, 379, 381, 200, -1, -50, 1000, 380.5))] * n
            elif kind < .6:
                hz = [r.randint(0, 760) for _ in range(n)]
            else:
                hz = [380] * n
                for k in r.sample(range(360), 40):
                    hz[k] = r.choice((0, 100, 340.5))
                ctx.counters['obstructed_degree'] += 1
            if r.random() < .2:     # the sun passing due north or due south
                lat = r.uniform(-90, 90)
                lon = ((-15 * (lib.seconds(start) / 3600 % 24 - r.choice((0, 12)))) + 180) % 360 - 180 - 2
            hz = tuple(hz) if r.random() < .2 else hz
            step = r.choice((1, 5, 10, 30, 60, 7.5, 0.61, 5 / 64))
            m = r.randint(1, 30)
            end = start + dt.timedelta(minutes=step * m + r.choice((0, .5)))
            if start.tzinfo is not lib.UTC and r.random() < .5:
                end = end.replace(tzinfo=start.tzinfo)
            if r.random() < .4:     # the sun just above or below what hides it
                hz = list(hz)
                for t in list(ctx.call('simulate.datetime_range', start, end, step).value or ())[:40]:
                    pa, pz = ctx.call('solar.get_altitude', lat, lon, t, **kw), ctx.call('solar.get_azimuth', lat, lon, t, **{q: v for q, v in kw.items() if q == 'elevation'})
                    if pa.ok and pz.ok:
                        hz[round(float(pz.value)) % 360] = 380 - round(380 * math.sin(math.radians(float(pa.value)))) + r.choice((-1, 0, 0, 1, -.5, .5, -2, 2))
                        ctx.counters['grazing'] += 1
            before = list(hz)
            o = ctx.call('simulate.simulate_span', lat, lon, hz, start, end, step, **kw)
            if ctx.expect(o.ok, 'raised', 'simulate_span() raised', [o.event], 'rows', o):
                runs.append((o, (lat, lon, hz, before, start, end, step, kw), []))
        if len(runs) == 2:
            ctx.counters['interleaved'] += 1
        live = list(runs)
        stop = {id(x): r.choice((None, None, 5)) for x in runs}
        while live:
            x = live[r.randrange(len(live))]
            o, a, rows = x
            try:
                row = next(o.value)
            except StopIteration:
                live = [y for y in live if y is not x]
                continue
            except Exception as e:
                ctx.violation('raised', 'simulate_span() raised while iterating', [o.event], 'a row', repr(e))
                live = [y for y in live if y is not x]
                continue
            rows.append(row)
            if stop[id(x)] == len(rows):
                live = [y for y in live if y is not x]
        for o, (lat, lon, hz, before, start, end, step, kw), rows in runs:
            want = ctx.call('simulate.datetime_range', start, end, step)
            times = list(want.value) if want.ok else []
            if not stop[id([y for y in runs if y[0] is o][0])]:
                ctx.expect(len(rows) == len(times), 'rows', 'not one row per step', [o.event], len(times), len(rows))
            ctx.expect(list(hz) == before, 'mutated', 'the horizon was modified', [o.event], before, hz)
            for k, row in enumerate(rows[:len(times)]):
                ctx.counters['rows'] += 1
                if not ctx.expect(len(row) == 5, 'shape', 'not (time, altitude, azimuth, radiation, shade)', [o.event], 5, row):
                    break
                t, alt, az, rad, shade = row
                pa = ctx.call('solar.get_altitude', lat, lon, times[k], **kw)
                pz = ctx.call('solar.get_azimuth', lat, lon, times[k], **{q: v for q, v in kw.items() if q == 'elevation'})
                ev = [o.event, pa.event, pz.event]
                if not (pa.ok and pz.ok):
                    continue
                if not ctx.expect(t == times[k] and abs(float(alt) - float(pa.value)) < 1e-9
                                  and abs(float(az) - float(pz.value)) < 1e-9, 'row',
                                  f'row {k} is not the sun at its time', ev, (times[k], pa.value, pz.value), row):
                    break
                d = float(az) % 1
                idx = {round(float(az)) % 360} | ({math.floor(float(az)) % 360, math.ceil(float(az)) % 360} if abs(d - .5) < 1e-9 else set())
                ctx.counters['north_wrap'] += round(float(az)) in (0, 360)
                if not ctx.expect(shade in [hz[q] for q in idx], 'shade', 'not the horizon entry of that azimuth', ev,
                                  [hz[q] for q in idx], (az, shade)):
                    break
                y = 380 * math.sin(math.radians(float(alt)))
                lim = {380 - round(y)} | ({380 - math.floor(y), 380 - math.ceil(y)} if abs(y % 1 - .5) < 1e-7 else set())
                lit = {not shade < q for q in lim}
                ctx.counters['lit' if True in lit else 'shaded'] += 1
                full = lib.direct(t, float(alt))
                ok = (True in lit and abs(float(rad) - full) <= 1e-9 + 1e-9 * full) or (False in lit and rad == 0)
                if not ctx.expect(ok, 'radiation', 'direct radiation unless the horizon hides the sun, else 0', ev,
                                  (sorted(lit), full), row):
                    break
