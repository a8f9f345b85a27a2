"""REST2 building blocks over the whole published domain (altitudes 0-90, 300-1100 mbar, ozone to 0.6 and NO2 to 0.03 atm-cm, water to
10 cm, alpha to 2.5, beta to 1.1), both bands and backends: optical masses, transmittances, aerosol terms and albedos against the
published parameterisation; transmittances within 0..1 and falling with the path; masses falling with the altitude."""
import math
from ..ref import rest2 as R
FLOOR = 20000
REQUIRED = ('horizon', 'zenith', 'high', 'low', 'monotone_pairs')


def run(ctx):
    g, r = ctx.gen, ctx.rng
    c = ctx.call
    masses = {'aerosol': 'rest.get_optical_mass_aerosol', 'ozone': 'rest.get_optical_mass_ozone', 'water': 'rest.get_optical_mass_water'}

    def falls(o, p, kind, what):
        if kind.startswith('mass') and alt2 > 88:      # the published quotient dips just below 1 near the zenith
            return
        ctx.counters['monotone_pairs'] += 1
        if o.ok and p.ok:
            ctx.expect(float(p.value) <= float(o.value) * (1 + 1e-12) + 1e-15, kind, what, [o.event, p.event], 'not larger', (o, p))

    for i in ctx.rounds(5000):
        ctx.backend(r.choice(('numpy', 'math')))
        b = r.randint(0, 1)
        band = R.BANDS[b]
        ctx.counters[('high', 'low')[b]] += 1
        alt = g.num(0, 90, (0, 0.0, 90, 90.0, 1e-9, 45, 30.0, 89.9999, 0.5, 5.0))
        ctx.counters['horizon'] += alt < 1e-3
        ctx.counters['zenith'] += alt > 89.99
        alt2 = min(90, alt + 10 ** r.uniform(-4, 1.5))
        p = g.num(300, 1100, (1013.25, 1013, 800.0, 500, 1100))
        for k, name in masses.items():
            o = c(name, alt)
            ctx.near(o, R.mass(k, alt), 1e-12, 'mass:' + k, rel=1e-11)
            falls(o, c(name, alt2), 'mass:order:' + k, 'optical mass rises with the altitude')
        o = c('rest.get_optical_mass_rayleigh', alt, p)
        ctx.near(o, R.rayleigh_mass(alt, p), 1e-12, 'mass:rayleigh', rel=1e-11)
        falls(o, c('rest.get_optical_mass_rayleigh', alt2, p), 'mass:order:rayleigh', 'optical mass rises with the altitude')
        m = g.num(.3, 39, (1, 1.0, 2, 1.66, 10.0, 37.9))
        m2 = min(39, m + 10 ** r.uniform(-3, 1))
        uo = g.num(0, .6, (0, 0.0, .35, .3, .6))
        un = g.num(0, .03, (0, 0.0, .0002, .03, .005)) if r.random() < .5 else g.num(0, .002, (.0002,))
        w = g.num(0, 10, (0, 0.0, 5.0, 1, 10, 1.4))
        for name, ref, ext, mono in (('rest.get_rayleigh_transmittance', R.t_rayleigh, (), 1), ('rest.get_gas_transmittance', R.t_gas, (), 1),
                                     ('rest.get_ozone_transmittance', R.t_ozone, (uo,), 1), ('rest.get_nitrogen_transmittance', R.t_no2, (un,), 0),
                                     ('rest.get_water_vapor_transmittance', R.t_water, (w,), 1)):
            o = c(name, band, m, *ext)
            if ctx.near(o, ref(b, m, *ext), 1e-11, 'transmittance:' + name[9:], rel=1e-10):
                ctx.expect(0 <= float(o.value) <= 1 + 1e-12 or ref is R.t_no2 and un > .002, 'fraction', 'transmittance outside 0..1', [o.event], '0..1', o)
            if mono:
                falls(o, c(name, band, m2, *ext), 'transmittance:order', 'transmittance rises with the path length')
        falls(c('rest.get_ozone_transmittance', band, m, uo), c('rest.get_ozone_transmittance', band, m, r.uniform(uo, .6)), 'ozone:order',
              'transmittance rises with the amount of ozone')
        if b == 0 or w < 4:
            falls(c('rest.get_water_vapor_transmittance', band, m, w), c('rest.get_water_vapor_transmittance', band, m, r.uniform(w, 10 if b == 0 else 5)),
                  'water:order', 'transmittance rises with the amount of water')
        if ctx.has('rest.get_water_vapor_transmittance_coefficients'):
            o = c('rest.get_water_vapor_transmittance_coefficients', band, w)
            if ctx.expect(o.ok and len(o.value) == len(R.water_coefficients(b, w)) + 1, 'water_coefficients', 'coefficients', [o.event], 'a list', o):
                for x, y in zip(list(o.value)[1:], R.water_coefficients(b, w)):
                    ctx.expect(abs(float(x) - y) <= 1e-10 * abs(y) + 1e-14, 'water_coefficients', 'coefficient off', [o.event], y, x)
        a, beta = g.num(0, 2.5, (0, 1.3, 2.5, 1, .8)), g.num(0, 1.1, (0, 0.0, .6, 1.1, .05))
        lam = R.wavelength(b, m, a, beta)
        o = c('rest.get_effective_aerosol_wavelength', band, m, a, beta)
        if abs(R.pole(b, m, a, beta)) > 1e-4:
            if ctx.near(o, lam, 1e-9, 'wavelength', rel=1e-7):
                ctx.counters['wavelengths'] += 1
                if not float(o.value) > 0:
                    ctx.known('negative_wavelength', 'effective wavelength is not positive', [o.event], '> 0', o)
        if lam > .05:
            tau = R.depth(beta, lam, a)
            ctx.near(c('rest.get_aerosol_optical_depth', beta, lam, a), tau, 1e-13, 'depth', rel=1e-11)
        tau = g.num(0, 3, (0, 0.0, 1, .1))
        o = c('rest.get_aerosol_transmittance', band, m, tau)
        if ctx.near(o, R.t_aerosol(m, tau), 0, 'aerosol', rel=1e-11):
            s = c('rest.get_aerosol_scattering_transmittance', band, m, tau)
            if ctx.near(s, math.exp(-m * R.SSA[b] * tau), 0, 'aerosol_scattering', rel=1e-11):
                ctx.expect(float(o.value) <= float(s.value) <= 1, 'aerosol:order', 'scattering alone removes more than scattering and absorption',
                           [o.event, s.event], 'Ta <= Tas <= 1', (o, s))
        q = R.correction(b, m, tau)
        if abs(q) < 1e4:
            ctx.near(c('rest.get_aerosol_scattering_correction_factor', band, m, tau), q, 1e-9, 'correction', rel=1e-8)
        ctx.near(c('rest.get_aerosol_forward_scatterance_factor', alt), R.forward_aerosol(alt), 1e-12, 'forward_aerosol')
        ctx.near(c('rest.get_rayleigh_extinction_forward_scattering_fraction', band, m), R.forward_rayleigh(b, m), 1e-12, 'forward_rayleigh')
        o = c('rest.get_sky_albedo', band, a, beta)
        if ctx.near(o, R.sky_albedo(b, a, beta), 1e-12, 'sky_albedo', rel=1e-11):
            ctx.expect(0 < float(o.value) < 1, 'fraction', 'albedo outside 0..1', [o.event], '0..1', o)
        ctx.near(c('rest.get_ground_albedo', band), R.GROUND, 0, 'ground_albedo')
