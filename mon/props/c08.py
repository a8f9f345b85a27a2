"""random and boundary instants of years 2 to 9998 in many time zones, observers over the whole globe from below sea level to
40 km, temperatures and pressures over the atmospheric range, arguments positional and by keyword, both backends; positions are
compared, as directions on the sky, with an independent implementation of NREL/TP-560-34302."""
import itertools
import math
from .. import lib
from ..ref import spa
FLOOR = 5000
REQUIRED = ('positions', 'polar', 'near_horizon', 'high_sun', 'year_far')
MASKS = ['spy', '', 's', 'p', 'y', 'sp', 'sy', 'py']
TOL = 4e-6


def agrees(s, mask, lat, lon, elev, p, t, az, alt):
    """the direction equals the reference; at the refraction threshold either side counts"""
    raz, ralt, e0 = s.horizontal(lat, lon, elev, p, t, mask)
    ok = False
    if alt is None:
        ok = True
    else:
        # steep refraction (low pressure never) magnifies a position error by at most 1.3
        lim = TOL * (1 + max(0, p / 101325 * 283 / t - 1))
        if abs(alt - ralt) <= lim:
            ok = True
        elif abs(e0 + 0.83337) < 2e-5:
            full = e0 + float(spa.refraction(p, t, max(e0, -0.83336)))
            ok = abs(alt - full) < 3e-5 or abs(alt - e0) < 3e-5
    if az is not None:
        ok = ok and lib.circ(az, raz) * math.cos(math.radians(e0)) <= TOL
    return ok, float(raz), float(ralt), float(e0)


def run(ctx):
    g, r = ctx.gen, ctx.rng
    for i in ctx.rounds(14000):
        ctx.backend(r.choice(('numpy', 'math')))
        w = g.when()
        lat, lon = g.place()
        kw = g.atmosphere()
        s = lib.sun(w)
        if r.random() < .3:     # aim for the sun near the horizon: refraction and its threshold
            lon = aim(s, lat, r.uniform(-1.5, 1.5), r)
        elev, t, p = kw.get('elevation', 0), kw.get('temperature', 288.15), kw.get('pressure', 101325.0)
        args = (lat, lon, w)
        if kw and r.random() < .4 and list(kw) == ['elevation', 'temperature', 'pressure'][:len(kw)]:
            args, kw = args + tuple(kw.values()), {}
        pick = r.random()
        if pick < .5:
            o = ctx.call('solar.get_position', *args, **kw)
            f = lambda v: (v[0], v[1])
        elif pick < .8:
            o = ctx.call('solar.get_altitude', *args, **kw)
            f = lambda v: (None, v)
        else:
            args, kw = args[:4], {k: v for k, v in kw.items() if k == 'elevation'}
            o = ctx.call('solar.get_azimuth', *args, **kw)
            f = lambda v: (v, None)
        if not ctx.expect(o.ok, 'raised', f'{o.event[1]} raised', [o.event], 'a position', o):
            continue
        try:
            az, alt = [None if v is None else float(v) for v in f(o.value)]
        except Exception:
            ctx.violation('shape', 'not an (azimuth, altitude) result', [o.event], '(azimuth, altitude)', o.value)
            continue
        ctx.counters['positions'] += 1
        exp = None
        for m in [''] + MASKS:
            ok, raz, ralt, e0 = agrees(s, m, lat, lon, elev, p, t, az, alt)
            exp = exp or (raz, ralt)
            if ok:
                if m:
                    ctx.known('spy', 'position', [o.event], exp, o.value)
                break
        else:
            ctx.violation('position', 'not where the algorithm puts the sun', [o.event], exp, o.value)
        ctx.judged()
        ctx.counters['polar'] += abs(lat) > 89
        ctx.counters['near_horizon'] += abs(e0) < 1
        ctx.counters['high_sun'] += e0 > 80
        ctx.counters['year_far'] += not 1800 < w.year < 2200


def aim(s, lat, e, r):
    """a longitude that puts the sun's geocentric altitude near e"""
    d, f = math.radians(s.dec), math.radians(lat)
    den = math.cos(d) * math.cos(f)
    c = (math.sin(math.radians(e)) - math.sin(d) * math.sin(f)) / den if den > 1e-9 else 2
    if abs(c) > 1:
        return r.uniform(-180, 180)
    H = math.degrees(math.acos(c)) * r.choice((1, -1))
    return float((H + s.ra - s.sidereal() + 180) % 360 - 180)
