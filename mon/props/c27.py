"""arrays of latitudes, longitudes, elevations, temperatures, pressures, altitudes, days, datetime64 times (all units) and stage arguments, in mixed
shapes (broadcast columns and rows, 0-d, empty, strided, reversed, Fortran order, read-only, big-endian, integer, single precision, with NaN elements, up to 70001 elements); each
element of the result is compared with the scalar call for that element, and the inputs must be left alone."""
import datetime as dt
import math
from .. import core
from ..calls import Caller, SPEC, ANGLES
FLOOR = 20000
REQUIRED = ('arrays', 'elements', 'broadcast', 'empty', 'readonly', 'datetime64', 'nan_elements', 'strided', 'long', 'very_long', 'big_endian', 'single_precision')
PLACE = ('solar.get_position', 'solar.get_altitude', 'solar.get_azimuth', 'solar.get_topocentric_position')
TIMES = ('solar.get_altitude_fast', 'solar.get_azimuth_fast', 'solar.get_hour_angle', 'solar.get_solar_time', 'radiation.get_radiation_direct')
STAGE = tuple('solar.' + n for n in (
    'equation_of_time get_declination get_aberration_correction get_equatorial_horizontal_parallax get_flattened_latitude '
    'get_geocentric_latitude get_geocentric_longitude get_geocentric_sun_declination get_geocentric_sun_right_ascension '
    'get_heliocentric_latitude get_heliocentric_longitude get_incidence_angle get_local_hour_angle get_mean_sidereal_time '
    'get_parallax_sun_right_ascension get_projected_axial_distance get_projected_radial_distance get_refraction_correction '
    'get_sun_earth_distance get_topocentric_azimuth_angle get_topocentric_elevation_angle get_topocentric_local_hour_angle '
    'get_topocentric_sun_declination get_topocentric_sun_right_ascension get_topocentric_zenith_angle').split()) + (
    'radiation.get_air_mass_ratio', 'radiation.get_apparent_extraterrestrial_flux', 'radiation.get_optical_depth',
    'elevation.get_temperature_with_elevation', 'solartime.get_julian_century', 'solartime.get_julian_ephemeris_century',
    'solartime.get_julian_ephemeris_millennium', 'util.diffuse_ratio')
FIXED = ('when', 'nut', 'band', 'modern')


def equal(a, b):
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1.0, abs(b)) or abs(abs(a - b) - 360) < 1e-8


def single(ctx, np):
    """single precision arrays of places: the positions are those of the places, as far as single precision goes"""
    g, r = ctx.gen, ctx.rng
    ctx.backend('numpy')
    w, n = g.modern(), r.choice((1, 3, 80))
    lat, lon = (np.array([r.uniform(-a, a) for _ in range(n)]).astype('float32') for a in (85, 180))
    if r.random() < .3:
        lat = lat[:1]
    kw = {}
    if r.random() < .5:
        kw['elevation'] = np.array([r.uniform(0, 5000) for _ in range(n)]).astype('float32')
    only = r.choice((None, None, 'solar.get_altitude', 'solar.get_azimuth'))
    if only:
        if r.random() < .5:      # one of them only
            lat, lon = (lat.astype(float), lon) if r.random() < .5 else (lat, lon.astype(float))
        o = ctx.call(only, lat, lon, w, **kw)
        ctx.counters['single_precision'] += 1
        if ctx.expect(o.ok and np.shape(o.value) == (n,), 'single', f'{only}() given float32 arrays', [o.event], f'an array of {n}', o):
            for k in r.sample(range(n), min(n, 3)):
                a = float(lat[k % len(lat)]), float(lon[k]), w
                s, q = ctx.call(only, *a, **{q: float(v[k]) for q, v in kw.items()}), ctx.call('solar.get_altitude', *a)
                if s.ok and q.ok:
                    x, y, alt = float(o.value[k]), float(s.value), float(q.value)
                    d = abs(x - y) < .05 or -.85 < alt - .6 < .1 if 'alt' in only else abs((x - y + 180) % 360 - 180) * math.cos(math.radians(alt)) < .05
                    ctx.expect(d, 'single', f'{only}() given float32 arrays: element {k}', [s.event, o.event], y, x)
        return
    o = ctx.call('solar.get_position', lat, lon, w, **kw)
    ctx.counters['single_precision'] += 1
    if not ctx.expect(o.ok and np.shape(o.value[0]) == (n,) == np.shape(o.value[1]), 'single', 'get_position() given float32 arrays', [o.event], f'two arrays of {n}', o):
        return
    for k in r.sample(range(n), min(n, 3)):
        s = ctx.call('solar.get_position', float(lat[k % len(lat)]), float(lon[k]), w, **{q: float(v[k]) for q, v in kw.items()})
        if s.ok:
            az, alt = float(o.value[0][k]), float(o.value[1][k])
            saz, salt = float(s.value[0]), float(s.value[1])
            c = math.cos(math.radians(salt))
            ctx.note_max('single_altitude', abs(alt - salt) if abs(salt) > .01 else 0)
            ctx.expect((abs(alt - salt) < .05 or -.85 < salt - .6 < .1) and abs((az - saz + 180) % 360 - 180) * c < .05, 'single', f'get_position() given float32 arrays: element {k}',
                       [s.event, o.event], (saz, salt), (az, alt))


def run(ctx):
    import numpy as np
    g, r = ctx.gen, ctx.rng
    maker = Caller(g)

    def layout(values, shape):
        """an array of these values with an awkward memory layout"""
        a = np.array(values).reshape(shape)
        k = r.random()
        if k < .2 and a.size and a.ndim:
            b = np.empty(tuple(2 * s for s in shape), dtype=a.dtype)
            b[tuple(slice(None, None, 2) for _ in shape)] = a
            a = b[tuple(slice(None, None, 2) for _ in shape)]
            ctx.counters['strided'] += 1
        elif k < .3:
            a = a[..., ::-1].copy()[..., ::-1] if a.ndim else a
        elif k < .4:
            a = np.asfortranarray(a) if a.ndim else a
        if r.random() < .1:
            a = a.astype(a.dtype.newbyteorder('>'))
            ctx.counters['big_endian'] += 1
        if r.random() < .3:
            a.flags.writeable = False
            ctx.counters['readonly'] += 1
        return np.asarray(a)

    def more(values, size):
        """these values repeated, in another order at the end"""
        if size <= len(values):
            return values
        ctx.counters['very_long'] += 1
        return (values * (size // len(values)))[:size - len(values)] + values[::-1] if size >= 2 * len(values) else values + values[::-1][:size - len(values)]

    def fits(shape, want):
        try:
            return np.broadcast_shapes(shape, want) == want
        except ValueError:
            return False

    for i in ctx.rounds(300):
        single(ctx, np)
    names = [n for n in PLACE * 4 + TIMES * 4 + STAGE + ('util.clear_index',) * 2 if ctx.has(n)]
    for i in ctx.rounds(8000):
        ctx.backend('numpy')
        name = r.choice(names)
        kinds = [k.lstrip('?') for k in SPEC[name] if not isinstance(k, dict)]
        opts = next((k for k in SPEC[name] if isinstance(k, dict)), {})
        opts = {k: v for k, v in opts.items() if r.random() < .5} if name in PLACE else {}
        shapes = r.choice(([(4,)], [(3, 1), (2,)], [(2, 3)], [()], [(0,)], [(1,), (5,)], [(2, 1, 2), (3, 1)], [(7,)], [(1,)], [(1, 1)], [(r.choice((64, 100, 257, 1025)),)], [(33, 2), (2,)]))
        if r.random() < .012:
            shapes = r.choice(([(4999,)], [(70001,)], [(260, 80), (80,)], [(20000,), (1,)]))
        ctx.counters['broadcast'] += len(shapes) > 1
        ctx.counters['empty'] += shapes == [(0,)]
        vals = []
        poison = r.random() < .1
        any_array = False
        allk = [(k, None) for k in kinds] + [(v, n) for n, v in opts.items()]
        for k, key in allk:
            if name in PLACE and k == 'when' or k == 'nut' or k == 'band' or (name == 'util.clear_index' and k != 'ghi'):
                vals.append((key, maker.arg(k), None))
                continue
            if r.random() < .3 and (any_array or (k, key) != allk[-1]):
                vals.append((key, maker.arg(k), None))
                continue
            shape = r.choice(shapes)
            size = int(np.prod(shape))
            any_array = True
            if k == 'when':
                unit = r.choice(('s', 'ms', 'us', 'ns', 'm', 'h', 'D', 's'))
                lo, hi = (1800, 2200) if unit == 'ns' else (2, 9000)
                t = [np.datetime64(g.utc(lo, hi), unit) for _ in range(min(size, 1100))]
                a = layout(np.array(more(t, size), dtype=f'datetime64[{unit}]'), shape)
                ctx.counters['datetime64'] += 1
            else:
                e = more([float(maker.arg(k)) for _ in range(min(size, 1100))], size)
                if r.random() < .1 and k not in ('lam', 'R', 'mass'):
                    a = layout(np.array([round(x) for x in e], dtype=r.choice(('int64', 'int32'))), shape)
                else:
                    if poison and size > 1:
                        e[r.randrange(size)] = math.nan
                        ctx.counters['nan_elements'] += 1
                    a = layout(np.array(e, dtype=float), shape)
            vals.append((key, a, a.copy()))
        if not any_array:
            continue
        args = tuple(v for key, v, c in vals if key is None)
        kw = {key: v for key, v, c in vals if key is not None}
        ctx.counters['arrays'] += 1
        ctx.counters['long'] += any(c is not None and c.size > 60 for key, v, c in vals)
        with np.errstate(all='ignore'):
            o = ctx.call(name, *args, **kw)
        if not ctx.expect(o.ok, 'raised', f'{name} raised for arrays', [o.event], 'an array', o):
            continue
        for key, v, c in vals:
            if c is not None:
                ctx.expect(v.dtype == c.dtype and v.shape == c.shape and v.tobytes() == c.tobytes(), 'input', f'{name} changed its input', [o.event], c, v)
        want = np.broadcast_shapes(*[np.shape(v) for key, v, c in vals if c is not None])
        parts = o.value if isinstance(o.value, tuple) else (o.value,)
        if not ctx.expect(all(np.shape(p) == want or len(parts) > 1 and fits(np.shape(p), want) for p in parts), 'shape', f'{name}: shape of the result', [o.event], want, [np.shape(p) for p in parts]):
            continue
        parts = [np.broadcast_to(p, want) for p in parts]      # azimuth does not depend on the pressure
        full = [np.broadcast_to(v, want) if c is not None else None for key, v, c in vals]
        n = int(np.prod(want))
        idx = list(np.ndindex(*want)) if n <= 2000 else [tuple(int(x) for x in np.unravel_index(k, want)) for k in (0, n - 1, *(r.randrange(n) for _ in range(4)))]
        for ix in idx if len(idx) <= 6 else r.sample(idx, 6):
            sargs, skw = [], {}
            for (key, v, c), f in zip(vals, full):
                x = v
                if c is not None:
                    x = f[ix]
                    if x.dtype.kind == 'M':
                        x = dt.datetime.fromisoformat(str(x.astype('datetime64[us]'))).replace(tzinfo=dt.timezone.utc)
                    else:
                        x = x.item()
                if key is None:
                    sargs.append(x)
                else:
                    skw[key] = x
            s = ctx.call(name, *sargs, **skw)
            got = [p[ix] if np.shape(p) else p for p in parts]
            ctx.counters['elements'] += 1
            ctx.judged()
            if not s.ok:
                if all(not np.isfinite(x) for x in got) or any(x != x for x in sargs if isinstance(x, float)):
                    continue
                ctx.violation('scalar_raised', f'{name} raised for one element of an accepted array', [s.event, o.event], got, s)
                continue
            ref = s.value if isinstance(s.value, tuple) else (s.value,)
            bad = [j for j, (x, y) in enumerate(zip(got, ref)) if not equal(float(x), float(y))]
            if bad:      # rounding in numpy's array loops: is the point ill-conditioned?
                worst = max(min(abs(float(got[j]) - float(ref[j])), abs(abs(float(got[j]) - float(ref[j])) - 360)) for j in bad)
                move = 0.0
                for e in (1e-11, -1e-11, 4e-11, -3e-11):
                    for q, x in enumerate(sargs):
                        if isinstance(x, (int, float)):
                            t = ctx.call(name, *sargs[:q], x + e * max(1, abs(x)), *sargs[q + 1:], **skw)
                            if t.ok:
                                tv = t.value if isinstance(t.value, tuple) else (t.value,)
                                move = max([move] + [abs(float(tv[j]) - float(ref[j])) for j in bad])
                if worst == worst and move >= worst / 20:
                    ctx.counters['ill_conditioned_skipped'] += 1
                    continue
                ctx.violation('element', f'{name}: element {ix} differs from the scalar call', [s.event, o.event], ref, got)
