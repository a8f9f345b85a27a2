"""random and boundary observers and instants in both backends: the combined position is compared with the separate azimuth and
altitude calls, ranges and finiteness are judged (poles, sun overhead, horizon included), and each
position is compared with its longitude one turn away and with the antipodal observer's."""
import math
from .. import lib
FLOOR = 5000
REQUIRED = ('combined', 'period', 'antipode', 'pole', 'zenith')


def run(ctx):
    g, r = ctx.gen, ctx.rng
    for i in ctx.rounds(9000):
        ctx.backend(r.choice(('numpy', 'math')))
        w, (lat, lon), kw = g.when(), g.place(), g.atmosphere()
        k = r.random()
        if k < .08:
            lat = r.choice((90.0, -90.0, 90, -90, 89.99999999, -89.99999999))
            ctx.counters['pole'] += 1
        elif k < .2:     # the sun overhead
            s = lib.sun(w)
            lat, lon = float(s.dec) + r.choice((0, 1e-9, 1e-5, r.uniform(-.01, .01))), float((s.ra - s.sidereal() + 180) % 360 - 180)
            ctx.counters['zenith'] += 1
        if r.random() < .2:
            kw['pressure'] = 0
        p = ctx.call('solar.get_position', lat, lon, w, **kw)
        akw = {k: v for k, v in kw.items() if k == 'elevation'}
        a = ctx.call('solar.get_altitude', lat, lon, w, **kw)
        z = ctx.call('solar.get_azimuth', lat, lon, w, **akw)
        ctx.counters['combined'] += 1
        if not ctx.expect(p.ok and a.ok and z.ok, 'raised', 'a position function raised', [p.event, a.event, z.event],
                          'numbers', (p, a, z)):
            continue
        try:
            az, alt = float(p.value[0]), float(p.value[1])
            a1, z1 = float(a.value), float(z.value)
        except Exception:
            ctx.violation('shape', 'results are not numbers', [p.event, a.event, z.event], 'numbers', (p, a, z))
            continue
        ctx.expect(abs(az - z1) <= 1e-9 and abs(alt - a1) <= 1e-9, 'combined', 'get_position() differs from get_azimuth(), get_altitude()',
                   [p.event, z.event, a.event], (z1, a1), (az, alt))
        ctx.expect(0 <= az <= 360 and -90.001 <= alt <= 91 and az == az and alt == alt, 'range', 'outside the range of angles',
                   [p.event], '0..360, -90..90', (az, alt))
        q = ctx.call('solar.get_position', lat, lon + r.choice((360, -360, 720)), w, **kw)
        if ctx.expect(q.ok, 'raised', 'raised one turn away', [q.event], (az, alt), q):
            ctx.counters['period'] += 1
            ca = math.cos(math.radians(min(90, alt)))
            thr = abs(float(q.value[1]) - alt) > .1 and abs(min(alt, float(q.value[1])) + 0.83337) < 1e-5
            ctx.expect((abs(float(q.value[1]) - alt) < 1e-6 or thr) and lib.circ(float(q.value[0]), az) * ca < 1e-6, 'period',
                       'one turn of longitude moves the sun', [p.event, q.event], (az, alt), q.value)
        if abs(lat) <= 90:
            x = ctx.call('solar.get_position', lat, lon, w, pressure=0)
            y = ctx.call('solar.get_position', -lat, lon + 180, w, pressure=0)
            if x.ok and y.ok:
                ctx.counters['antipode'] += 1
                s = float(x.value[1]) + float(y.value[1])
                # both see the sun lower than the earth's centre does, by up to 8.8 arc seconds
                ctx.note_max('antipodal_sum', abs(s))
                ctx.expect(abs(s) < 0.0062, 'antipode', 'altitudes at antipodes do not cancel',
                           [x.event, y.event], '0 within 0.006', s)
                c = math.cos(math.radians(float(x.value[1])))
                # seen from the antipode east and west are swapped while north and south stay
                d = lib.circ(float(y.value[0]), -float(x.value[0]))
                ctx.counters['az_checked'] += 1
                ctx.note_max('antipodal_azimuth', d * c)
                ctx.expect(d * c < 0.0062, 'antipode_azimuth', 'azimuths at antipodes do not correspond',
                           [x.event, y.event], -float(x.value[0]), y.value)
