"""random and special zenith angles, slopes (0 to 180), slope orientations and solar azimuths (several turns), both backends, and
positions computed by the library; the angle of incidence is compared with the angle between the
direction of the sun and the normal of the surface as vectors."""
import math
FLOOR = 8000
REQUIRED = ('normal_incidence', 'grazing', 'behind', 'horizontal', 'from_position')
rad, deg = math.radians, math.degrees


def vec(zenith, az):
    """east, north, up"""
    return (math.sin(rad(zenith)) * math.sin(rad(az)), math.sin(rad(zenith)) * math.cos(rad(az)), math.cos(rad(zenith)))


def angle(a, b):
    cross = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    return deg(math.atan2(math.sqrt(sum(c * c for c in cross)), sum(p * q for p, q in zip(a, b))))


def run(ctx):
    g, r = ctx.gen, ctx.rng
    for i in ctx.rounds(24000):
        ctx.backend(r.choice(('numpy', 'math')))
        z, az = g.num(0, 180, (0.0, 90.0, 180.0, 45.0, 1e-9, 89.9999)), g.angle()
        sl, so = g.num(0, 180, (0.0, 90.0, 180.0, 30.0, 1e-9)), g.angle(-360, 360)
        if r.random() < .15:
            so, az = g.angle(-3600, 3600), g.angle(-3600, 3600)
        k = r.random()
        if k < .15:      # the sun on the normal of the surface (surface azimuth counted from south)
            sl, so = z, az - 180 + r.choice((0, 360, -360))
        elif k < .2:
            sl, so = 180 - z, az
        elif k < .3:
            sl = 0
        elif k < .35:
            w, (lat, lon) = g.modern(), g.place()
            p = ctx.call('solar.get_position', lat, lon, w)
            if p.ok:
                ctx.counters['from_position'] += 1
                az, z = float(p.value[0]), 90 - float(p.value[1])
        want = angle(vec(z, az), vec(sl, 180 + so))
        o = ctx.call('solar.get_incidence_angle', z, sl, so, az)
        # acos() loses half the digits near 0 and 180
        ctx.near(o, want, 1e-9 + 3e-8 / max(math.sin(rad(want)), .01), 'incidence')
        if o.ok:
            ctx.expect(0 <= float(o.value) <= 180, 'range', 'outside 0..180', [o.event], '0..180', o)
        ctx.counters['normal_incidence'] += want < 1e-5
        ctx.counters['grazing'] += abs(want - 90) < 1
        ctx.counters['behind'] += want > 91
        ctx.counters['horizontal'] += sl == 0
