"""random elevations from -12 km to 60 km, mostly the Dead Sea to 20 km, with default and random atmospheres: pressure against the barometric formula,
temperature against the lapse rate, monotonicity, and exactly when the elevation warning is given."""
import math
FLOOR = 6000
REQUIRED = ('plain', 'custom', 'warmer_above', 'warned', 'silent')


def run(ctx):
    g, r = ctx.gen, ctx.rng
    P, T, L, R, G, M = 101325.0, 288.15, -0.0065, 8.31432, 9.80665, 0.0289644
    for i in ctx.rounds(16000):
        h = g.num(-430, 20000, (0, 0.0, 11000, 11000.0, math.nextafter(11000, 2e4), 10999.999, 8848.86, -430, 11001))
        if r.random() < .1:
            h = g.num(-12000, 60000, (-10994, 25000, -11000, -11001.0, 35000, 22000))
        kw = {}
        ps, ts, tl, hb = P, T, L, 0.0
        if r.random() < .4:
            ctx.counters['custom'] += 1
            if r.random() < .6:
                kw['Ps'] = ps = r.uniform(80000, 110000)
            if r.random() < .6:
                kw['Ts'] = ts = r.uniform(240, 320)
            if r.random() < .4:
                kw['Tl'] = tl = r.uniform(-0.01, -0.001) if r.random() < .7 else r.uniform(.001, .01)
            if r.random() < .4:
                kw['Hb'] = hb = r.choice((0, r.uniform(-400, 2000)))
            for k, lo, hi in (('R', 8, 9), ('g', 3, 25), ('M', .002, .05)):
                if r.random() < .2:
                    kw[k] = r.uniform(lo, hi)
        else:
            ctx.counters['plain'] += 1
        if ts + tl * (h - hb) <= 20:
            continue
        args = ()
        if kw and list(kw) == ['Ps', 'Ts', 'Tl', 'Hb', 'R', 'g', 'M'][:len(kw)] and r.random() < .5:
            args, ckw = tuple(kw.values()), {}
        else:
            ckw = kw
        o = ctx.call('elevation.get_pressure_with_elevation', h, *args, **ckw)
        want = ps * math.exp(kw.get('g', G) * kw.get('M', M) / (kw.get('R', R) * tl) * math.log(ts / (ts + tl * (h - hb))))
        if not ctx.near(o, want, 0, 'pressure', rel=1e-11):
            continue
        warned = any('levation' in str(x.message) for x in o.warned)
        ctx.counters['warned' if warned else 'silent'] += 1
        ctx.expect(warned == (h > 11000), 'warning', 'warns exactly above 11000 m', [o.event], h > 11000, warned)
        h2 = h + 10 ** r.uniform(-2, 3)
        if ts + tl * (h2 - hb) > 20:
            q = ctx.call('elevation.get_pressure_with_elevation', h2, *args, **ckw)
            if q.ok:
                ctx.expect(0 < float(q.value) < float(o.value), 'monotone', 'pressure does not fall with elevation', [o.event, q.event], o, q)
        ctx.counters['warmer_above'] += tl > 0
        tk = {k: v for k, v in kw.items() if k in ('Ts', 'Tl')}
        ctx.near(ctx.call('elevation.get_temperature_with_elevation', h, **tk), tk.get('Ts', T) + h * tk.get('Tl', L), 1e-9, 'temperature')
