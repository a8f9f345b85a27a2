"""random observers (poles, equator, below sea level to 40 km) and random sun directions, with parallaxes of the sun and much
larger ones; the topocentric stages are compared with subtracting the observer's position vector from the
sun's and rotating the difference into the local horizon."""
import math
from .. import lib
from ..ref import spa
FLOOR = 5000
REQUIRED = ('observers', 'poles', 'large_parallax', 'near_the_pole')
rad, deg = math.radians, math.degrees


def run(ctx):
    g, r = ctx.gen, ctx.rng
    call = ctx.call
    for i in ctx.rounds(16000):
        ctx.backend(r.choice(('numpy', 'math')))
        lat, elev = g.lat(), g.elev()
        if abs(lat) > 89.9:
            ctx.counters['poles'] += 1
        ctx.counters['observers'] += 1
        u = math.atan2(0.99664719 * math.sin(rad(lat)), math.cos(rad(lat)))
        ctx.near(call('solar.get_flattened_latitude', lat), deg(u), 1e-9, 'flattened')
        x = math.cos(u) + elev / 6378140 * math.cos(rad(lat))
        y = 0.99664719 * math.sin(u) + elev / 6378140 * math.sin(rad(lat))
        ctx.near(call('solar.get_projected_radial_distance', elev, lat), x, 1e-11, 'radial')
        ctx.near(call('solar.get_projected_axial_distance', elev, lat), y, 1e-11, 'axial')
        xi = r.choice((8.794 / 3600, r.uniform(8.6, 9) / 3600, r.uniform(0, 1)))
        if xi > .1:
            ctx.counters['large_parallax'] += 1
        H, dec = g.angle(0, 360), g.num(-24, 24, (0.0, 23.44, -23.44, 1e-9))
        # sun minus observer, axes: meridian, west, pole; unit: distance of the sun
        s = math.sin(rad(xi))
        X = math.cos(rad(dec)) * math.cos(rad(H)) - s * x
        Y = math.cos(rad(dec)) * math.sin(rad(H))
        Z = math.sin(rad(dec)) - s * y
        Ht = deg(math.atan2(Y, X))
        dt = deg(math.atan2(Z, math.hypot(X, Y)))
        dra = (H - Ht + 180) % 360 - 180
        o = call('solar.get_parallax_sun_right_ascension', x, xi, H, dec)
        ctx.near(o, dra, 1e-9, 'delta_alpha')
        ctx.near_deg(call('solar.get_topocentric_local_hour_angle', H, dra), H - dra, 1e-9, 'hour_angle', span=False)
        ctx.near(call('solar.get_topocentric_sun_declination', dec, y, xi, dra, H), dt, 1e-8, 'declination',
                 alt={'declination_axial': float(spa.topo_declination(x, y, xi, H, dec, dra, 'y'))})
        # a sun so close to the pole that the observer sees it beyond
        near = r.choice((1, -1)) * (90 - 10 ** r.uniform(-7, 1))
        X, Y = math.cos(rad(near)) * math.cos(rad(H)) - s * x, math.cos(rad(near)) * math.sin(rad(H))
        if math.hypot(X, Y) > 1e-9:
            ctx.counters['near_the_pole'] += 1
            Ht = deg(math.atan2(Y, X))
            ctx.near_deg(call('solar.get_parallax_sun_right_ascension', x, xi, H, near), (H - Ht + 180) % 360 - 180, 1e-9, 'delta_alpha_pole', weight=min(1, math.hypot(X, Y) * 10), span=False)
            Ht = deg(math.atan2(math.cos(rad(dec)) * math.sin(rad(H)), math.cos(rad(dec)) * math.cos(rad(H)) - s * x))
        lam, eps, beta = g.angle(0, 360), r.uniform(20, 26), r.uniform(-.001, .001)
        d0 = float(spa.declination(lam, eps, beta))
        ctx.near_deg(call('solar.get_topocentric_sun_right_ascension', x, xi, H, lam, eps, beta),
                     float(spa.right_ascension(lam, eps, beta)) + float(spa.delta_ra(x, xi, H, d0)), 1e-8, 'ra', span=False)
        # horizon coordinates of a direction
        h, d = r.choice(((Ht, dt), (g.angle(-360, 360), g.num(-90, 90, (0.0, 90.0, -90.0)))))
        a = math.cos(rad(d)) * math.cos(rad(h))
        west = math.cos(rad(d)) * math.sin(rad(h))
        c = math.sin(rad(d))
        up = a * math.cos(rad(lat)) + c * math.sin(rad(lat))
        north = c * math.cos(rad(lat)) - a * math.sin(rad(lat))
        horiz = math.hypot(west, north)
        alt = deg(math.atan2(up, horiz))
        o = call('solar.get_topocentric_elevation_angle', lat, d, h)
        ctx.near(o, alt, 2e-6, 'elevation')
        if horiz > 1e-12 and math.cos(rad(d)) > 1e-9:
            ctx.near_deg(call('solar.get_topocentric_azimuth_angle', h, lat, d), deg(math.atan2(-west, north)) % 360,
                         1e-7, 'azimuth', weight=min(1, horiz * 100))
        p, t = g.press(), g.temp()
        if abs(alt + 0.83337) > 1e-5:
            ctx.near(call('solar.get_topocentric_zenith_angle', lat, d, h, p, t),
                     90 - alt - float(spa.refraction(p, t, alt)), 5e-6, 'zenith')
