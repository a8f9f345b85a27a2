"""random altitudes, pressures, gas amounts and turbidities (all arguments, a prefix, keywords or defaults), both backends: direct normal irradiance of a
band against the product of the published transmittances, broadband against the sum of the bands, beam against the projection on
the horizontal, backscatter against the ground-sky reflection series; more ozone, water or a lower sun never add light."""
import math
from ..ref import rest2 as R
FLOOR = 8000
REQUIRED = ('defaults', 'positional', 'keywords', 'backscatter')
NAMES = ('pressure_millibars', 'ozone_atm_cm', 'nitrogen_atm_cm', 'precipitable_water_cm', 'turbidity_alpha', 'turbidity_beta')
DEF = (1013.25, .35, .0002, 5.0, 1.3, .6)
BROKEN = (('rest.get_diffuse_irradiance_by_band', ('high-frequency',)), ('rest.get_diffuse_irradiance_by_band', ('low-frequency', 1.66)),
          ('rest.get_diffuse_broadband_irradiance', ()), ('rest.get_global_broadband_irradiance', (45.0,)),
          ('rest.get_backscattered_diffuse_broadband_irradiance', ('high-frequency',)))


def run(ctx):
    g, r = ctx.gen, ctx.rng
    c = ctx.call
    for i in ctx.rounds(6000):
        ctx.backend(r.choice(('numpy', 'math')))
        b = r.randint(0, 1)
        band = R.BANDS[b]
        alt = g.num(0, 90, (0, 0.0, 90, 90.0, 1e-9, 45, 30.0, 89.9999, 0.5, 5.0))
        vals = [g.num(300, 1100, (1013.25, 1013, 800.0)), g.num(0, .6, (0, .35, .3)), g.num(0, .03, (0, .0002, .005)) if r.random() < .3 else g.num(0, .002, (0, .0002, .001)),
                g.num(0, 10, (0, 5.0, 1)), g.num(.7, 2.5, (1.3, 2.5, 1)), g.num(0, 1.1, (0, .6, 1.1, .05))]
        k = r.random()
        if k < .2:
            args, kw, vals = (), {}, list(DEF)
            ctx.counters['defaults'] += 1
        elif k < .6:
            n = r.randint(1, 6)
            args, kw, vals = tuple(vals[:n]), {}, vals[:n] + list(DEF[n:])
            ctx.counters['positional'] += 1
        else:
            pick = [j for j in range(6) if r.random() < .5]
            args, kw = (), {NAMES[j]: vals[j] for j in pick}
            vals = [vals[j] if j in pick else DEF[j] for j in range(6)]
            ctx.counters['keywords'] += 1
        ma = R.mass('aerosol', alt)
        if min(R.wavelength(j, ma, vals[4], vals[5]) for j in (0, 1)) < .02 or min(abs(R.pole(j, ma, vals[4], vals[5])) for j in (0, 1)) < 1e-3:
            ctx.counters['outside_wavelength_domain'] += 1
            continue
        want = [R.normal(j, alt, *vals) for j in (0, 1)]
        sz = math.cos(math.radians(90 - alt))
        o = c('rest.get_direct_normal_irradiance_by_band', band, alt, *args, **kw)
        if ctx.near(o, want[b], 1e-9, 'normal', rel=1e-8):
            ctx.expect(vals[2] > .002 or 0 <= float(o.value) <= R.E0N[b] * (1 + 1e-9), 'bounded', 'more than the extraterrestrial irradiance', [o.event], R.E0N[b], o)
        t = c('rest.get_broadband_direct_normal_irradiance', alt, *args, **kw)
        ctx.near(t, sum(want), 1e-9, 'broadband', rel=1e-8)
        o2 = c('rest.get_beam_irradiance_by_band', band, alt, *args, **kw)
        ctx.near(o2, want[b] * sz, 1e-9, 'beam', rel=1e-8)
        ctx.near(c('rest.get_beam_broadband_irradiance', alt, *args, **kw), sum(want) * sz, 1e-9, 'beam_broadband', rel=1e-8)
        if o.ok and vals[2] <= .002:
            more = list(vals)
            j = r.choice((1, 3))
            more[j] = r.uniform(vals[j], (0, .6, 0, 4)[j]) if vals[j] < (0, .6, 0, 4)[j] else vals[j]
            q = c('rest.get_direct_normal_irradiance_by_band', band, alt, *more)
            if q.ok:
                ctx.expect(float(q.value) <= float(o.value) * (1 + 1e-9) + 1e-12, 'absorber', 'more of an absorber lets more light through',
                           [o.event, q.event], 'not more', (o, q))
            more = list(vals)
            more[0] = r.uniform(vals[0], 1200)
            q = c('rest.get_direct_normal_irradiance_by_band', band, alt, *more)
            if q.ok:
                ctx.expect(float(q.value) <= float(o.value) * (1 + 1e-9) + 1e-12, 'pressure', 'more air lets more light through',
                           [o.event, q.event], 'not more', (o, q))
        eb, ed = r.uniform(0, 700), r.uniform(0, 300)
        tkw, a, beta = {}, 1.3, .6
        if r.random() < .7:
            a, beta = vals[4], vals[5]
            tkw = {'turbidity_alpha': a, 'turbidity_beta': beta}
        rho = R.sky_albedo(b, a, beta) * R.GROUND
        ctx.counters['backscatter'] += 1
        o = c('rest.get_backscattered_diffuse_irradiance_by_band', band, eb, ed, **tkw)
        series = sum((eb + ed) * rho ** n for n in range(1, 60))
        ctx.near(o, series, 1e-9, 'backscatter', rel=1e-9)
        if i % 50 == 0:
            name, a = r.choice(BROKEN)
            if ctx.has(name):
                o = c(name, *a)
                ctx.judged()
                if isinstance(o.exc, (NameError, TypeError)):
                    ctx.known('undefined_names', name + ' cannot be called', [o.event], 'an irradiance', o)
                else:
                    ctx.expect(o.ok and math.isfinite(float(o.value)) and float(o.value) >= 0, 'diffuse', 'not an irradiance', [o.event], '>= 0', o)
