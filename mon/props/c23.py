"""random instants 1900 to 2100, places, air masses 1 to 5 and Linke turbidities 1 to 8, both backends: each component of the
clear-sky and overcast models must be 0 with the sun below the horizon, never negative, and never more than the sun delivers
outside the atmosphere; the listed defects are recognised by recomputing their mechanism."""
import math
from .. import lib
from .c08 import aim
from .c22 import dt_, fd, kd
FLOOR = 6000
REQUIRED = ('day', 'night', 'at_the_horizon')
MAXIMUM = 1367 * 1.0366


def run(ctx):
    g, r = ctx.gen, ctx.rng
    for i in ctx.rounds(8000):
        ctx.backend(r.choice(('numpy', 'math')))
        w, (lat, lon) = g.when(1900, 2100, 0), g.place()
        kw = g.atmosphere()
        if kw.get('pressure', 1) == 0:
            kw['pressure'] = 1000.0
        tl, am = r.uniform(1, 8), r.uniform(1, 5)
        if r.random() < .5:
            tl, am = 1.0, 2.0
        if i % 12 == 0 and abs(lat) < 89:       # the moment the sun appears or goes
            lat = max(-60, min(60, lat))
            s = lib.sun(w)
            far, near = aim(s, lat, -2, r), None
            for lift in (2, 4, 6, 9, -2, -4, -6, -9):
                if abs(float(ctx.api['solar'].get_altitude(lat, far + lift, w, **kw))) < 30 and float(ctx.api['solar'].get_altitude(lat, far + lift, w, **kw)) > 0 > float(ctx.api['solar'].get_altitude(lat, far, w, **kw)):
                    near = far + lift
                    break
            if near is not None:
                for _ in range(r.randint(8, 24)):
                    m = (far + near) / 2
                    if float(ctx.api['solar'].get_altitude(lat, m, w, **kw)) > 0:
                        near = m
                    else:
                        far = m
                lon = r.choice((far, near))
                ctx.counters['at_the_horizon'] += 1
        a = ctx.call('solar.get_altitude', lat, lon, w, **kw)
        if not a.ok or abs(float(a.value)) < 1e-6:
            continue
        alt = float(a.value)
        s = math.sin(math.radians(alt))
        ctx.counters['day' if alt > 0 else 'night'] += 1
        try:
            defect = 1367 * kd(w) * math.exp(-.8662 * am * tl * lib.declination(lib.yday(w))) * s
        except OverflowError:
            defect = math.copysign(math.inf, s)
        over = kd(w) * dt_(tl) * alt
        clear = kd(w) * dt_(tl) * fd(alt) if alt > 0 else 0.0
        for name, args, key, mech in (
                ('diffuse_underclear', dict(TL=tl), None, None),
                ('global_irradiance_overcast', {}, None, None),
                ('extraterrestrial_irrad', None, None, None),
                ('diffuse_underovercast', dict(TL=tl), 'overcast_altitude', over),
                ('direct_underclear', dict(AM=am, TL=tl), 'direct_declination', defect),
                ('global_irradiance_clear', dict(AM=am, TL=tl), 'global_direct', defect + clear)):
            o = ctx.call('util.' + name, lat, lon, w, **({} if args is None else {**kw, **args}))
            ctx.judged()
            if isinstance(o.exc, OverflowError) and mech is not None and math.isinf(mech):
                ctx.known(key, f'{name} overflows', [o.event], '0..1417 W/m2', o)
                continue
            if not o.ok:
                ctx.violation('raised', f'{name} raised', [o.event], 'a number', o)
                continue
            v = float(o.value)
            if name == 'extraterrestrial_irrad':
                good = 0 <= v <= MAXIMUM
            else:
                good = v == 0 if alt < 0 else 0 <= v <= MAXIMUM * 1.05
            if good:
                continue
            if mech is not None and (v == mech or abs(v - mech) <= 1e-5 + 1e-7 * (abs(mech) + (abs(defect) if key != 'overcast_altitude' else 0))):
                ctx.known(key, f'{name} is physically impossible', [o.event], '0 at night, at most 1417 W/m2', v)
            else:
                ctx.violation('impossible', f'{name} is physically impossible (altitude {alt:.4f})', [o.event],
                              '0 at night, 0..1417 W/m2 by day', v)
