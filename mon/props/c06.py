"""random instants of years 2 to 9998 (Julian millennia -2 to 8) turned into the arguments of every geocentric stage,
plus free arguments (angles over several turns); each stage is compared with an independent implementation of NREL/TP-560-34302 whose
coefficient tables are separate from the library's."""
from .. import lib
from ..ref import spa
FLOOR = 5000
REQUIRED = ('stages', 'special_dates')
T = 3e-8


def run(ctx):
    g, r = ctx.gen, ctx.rng
    call, has = ctx.call, ctx.has
    for i in ctx.rounds(24000):
        ctx.backend(r.choice(('numpy', 'math')))
        w = g.when()
        jd, jde = lib.jd(w), lib.jde(w)
        if r.random() < .05:
            jd = jde = r.choice((2451545.0, 2415020.5, 2451545.0 - 1e-9, 2452930.312847, 2451545, 2415020, 2488070, int(jd), int(jde), 0, 1721058.5))
            ctx.counters['special_dates'] += 1
        s = spa.Sun(jd, jde)
        ctx.counters['stages'] += 1
        if r.random() < .5:
            ctx.near_deg(call('solar.get_heliocentric_longitude', s.jme), s.L, T, 'L')
            ctx.near(call('solar.get_heliocentric_latitude', s.jme), s.B, 1e-9, 'B')
            ctx.near_deg(call('solar.get_geocentric_longitude', s.jme), s.theta, T, 'theta')
            ctx.near(call('solar.get_geocentric_latitude', s.jme), s.beta, 1e-9, 'beta')
        ctx.near(call('solar.get_sun_earth_distance', s.jme), s.R, 1e-9, 'R')
        o = call('solar.get_nutation', s.jce)
        nut = {'longitude': s.dpsi, 'obliquity': s.deps}
        if ctx.expect(o.ok and isinstance(o.value, dict), 'nutation', 'get_nutation() failed', [o.event], nut, o):
            for k in nut:
                ctx.expect(k in o.value and abs(float(o.value[k]) - nut[k]) <= 2e-9, 'nutation', f'nutation in {k}', [o.event],
                           nut, o.value)
        ctx.near(call('solar.get_true_ecliptic_obliquity', s.jme, nut), s.eps, 1e-8, 'epsilon', rel=1e-9)
        R = r.choice((s.R, g.num(.98, 1.02, (1, 1.0))))
        ctx.near(call('solar.get_aberration_correction', R), -20.4898 / 3600 / R, 1e-11, 'aberration')
        ctx.near(call('solar.get_equatorial_horizontal_parallax', R), spa.parallax(R), 1e-11, 'parallax',
                 alt={'parallax': spa.parallax(R, 'p')})
        ab = spa.aberration(s.R)
        ctx.near_deg(call('solar.get_apparent_sun_longitude', s.theta, nut, ab), s.lam, 1e-9, 'lambda', span=False)
        ctx.near_deg(call('solar.get_mean_sidereal_time', jd), spa.mean_sidereal(jd), 1e-6, 'mean_sidereal')
        ctx.near_deg(call('solar.get_apparent_sidereal_time', jd, s.jme, nut), s.sidereal(), 1e-6, 'sidereal', span=False,
                     alt={'equinoxes': s.sidereal('s')})
        lam, eps, beta = r.choice(((s.lam, s.eps, s.beta), (g.angle(), g.num(20, 26, (23, 23.0, 23.4392911)), g.num(-1, 1, (0, 0.0, -0.0))),
                                   (s.lam, s.eps, r.uniform(-.001, .001))))
        ctx.near_deg(call('solar.get_geocentric_sun_right_ascension', lam, eps, beta), spa.right_ascension(lam, eps, beta),
                     1e-9, 'alpha')
        ctx.near(call('solar.get_geocentric_sun_declination', lam, eps, beta), spa.declination(lam, eps, beta), 1e-8, 'delta')
        th, lon, ra = r.choice((r.uniform(-400, 800), g.angle())), g.lon(), r.choice((r.uniform(0, 360), g.angle()))
        ctx.near_deg(call('solar.get_local_hour_angle', th, lon, ra), (th + lon - ra) % 360, 1e-9, 'hour_angle')
