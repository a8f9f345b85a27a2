"""every function the type stubs declare is called the way its stub says: positionally in the declared order, by the declared keyword names and
mixed, with random subsets of the parameters declared optional left out; the outcomes must agree with each other and have the
declared type, and every declared module-level value must exist with its declared type."""
import ast
import datetime
import glob
import numbers
import os
from .. import core
from ..calls import Caller
from ..child import norm
QUICK = 4
DRESS = None
FLOOR = 3000
REQUIRED = ('stub_functions', 'keyword_calls', 'positional_calls', 'values', 'star_imports')
KIND = {'latitude_deg': 'lat', 'latitude': 'lat', 'longitude_deg': 'lon', 'longitude': 'lon', 'when': 'modern', 'elevation': 'elev', 'temperature': 'temp',
        'pressure': 'press', 'sun_earth_distance': 'R', 'day': 'day', 'jd': 'jd', 'jme': 'jme', 'jce': 'jce', 'julian_day': 'jd', 'nutation': 'nut',
        'julian_ephemeris_day': 'jd', 'julian_ephemeris_century': 'jce', 'geocentric_longitude': 'angle', 'ab_correction': 'small',
        'apparent_sun_longitude': 'angle', 'true_ecliptic_obliquity': 'obl', 'geocentric_latitude': 'small', 'topocentric_zenith_angle': 'zen',
        'slope': 'slope', 'slope_orientation': 'angle', 'topocentric_azimuth_angle': 'angle', 'apparent_sidereal_time': 'angle',
        'geocentric_sun_right_ascension': 'angle', 'projected_radial_distance': 'frac', 'equatorial_horizontal_parallax': 'par', 'local_hour_angle': 'angle',
        'geocentric_sun_declination': 'decl', 'topocentric_elevation_angle': 'alt', 'topocentric_local_hour_angle': 'angle', 'topocentric_sun_declination': 'decl',
        'parallax_sun_right_ascension': 'small', 'projected_axial_distance': 'frac', 'altitude_deg': 'up', 'SC': 'sc', 'TY': 'ty', 'TL': 'tl', 'AM': 'am',
        'DIFF_data': 'ghi', 'ghi_data': 'ghi', 'start_datetime': 'start', 'end_datetime': 'end', 'step_minutes': 'step', 'horizon': 'horizon'}
PLAIN = {'h': (-400, 15000), 'Ps': (90000, 110000), 'Ts': (250, 310), 'Tl': (-.008, -.004), 'Hb': (0, 100), 'g': (9.7, 9.9), 'M': (.028, .03), 'R': (8.2, 8.4)}


def stubs():
    """module -> (functions: name -> ast node, values: name -> annotation)"""
    out = {}
    for f in sorted(glob.glob(os.path.join(core.REPO, 'pysolar', '*.pyi'))):
        tree = ast.parse(open(f, encoding='utf-8').read())
        m = os.path.basename(f)[:-4]
        out[m] = ({n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)},
                  {n.target.id: ast.unparse(n.annotation) for n in tree.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)})
    return out


def split(a):
    """'Tuple[float, float]' -> ('Tuple', ['float', 'float'])"""
    n = ast.parse(a, mode='eval').body
    if isinstance(n, ast.Subscript):
        s = n.slice
        return ast.unparse(n.value).split('.')[-1].lower(), [ast.unparse(x) for x in (s.elts if isinstance(s, ast.Tuple) else [s])]
    return ast.unparse(n).split('.')[-1].lower(), []


def fits(v, a):
    """does the value have the declared type?"""
    base, par = split(a)
    if base in ('any', 'object'):
        return True
    if base == 'none':
        return v is None
    if base == 'union':
        return any(fits(v, p) for p in par)
    if base == 'optional':
        return v is None or fits(v, par[0])
    if base == 'float':
        return isinstance(v, numbers.Real) or type(v).__module__ == 'numpy' and v.shape == () and v.dtype.kind in 'fiu'
    if base == 'int':
        return isinstance(v, numbers.Integral) or type(v).__module__ == 'numpy' and v.shape == () and v.dtype.kind in 'iu'
    if base == 'bool':
        return isinstance(v, bool)
    if base == 'str':
        return isinstance(v, str)
    if base == 'datetime':
        return isinstance(v, datetime.datetime)
    if base in ('iterator', 'generator'):
        return hasattr(v, '__next__')
    if base == 'dict':
        return isinstance(v, dict) and (not par or all(fits(k, par[0]) and fits(x, par[1]) for k, x in v.items()))
    if base == 'callable':
        return callable(v)
    if base in ('list', 'sequence', 'iterable'):
        return isinstance(v, (list, tuple)) and (not par or all(fits(x, par[0]) for x in v))
    if base == 'tuple':
        if not isinstance(v, (list, tuple)):
            return False
        if len(par) == 2 and par[1] == '...':
            return all(fits(x, par[0]) for x in v)
        return not par or len(par) == len(v) and all(fits(x, p) for x, p in zip(v, par))
    return True      # a type this monitor does not know


def run(ctx):
    g, r = ctx.gen, ctx.rng
    maker = Caller(g)
    decl = stubs()
    ns = ctx.api
    todo = []
    for m, (funcs, values) in decl.items():
        mod = ns['pysolar'] if m == '__init__' else ns.get(m)
        if mod is None:
            continue
        for n, node in funcs.items():
            todo.append(('pysolar' if m == '__init__' else m, n, node))
        for n, a in values.items():
            ctx.counters['values'] += 1
            if m == 'constants' and n == 'aberration_coeffs':
                continue        # filled on first use
            have = getattr(mod, n, None)
            ctx.expect(hasattr(mod, n) and fits(have, a), 'value', f'{m}.{n} is declared {a}', [('numpy', m + '.' + n, (), {})], a, have)
    ctx.counters['stub_functions'] += len(todo)
    for m, (funcs, values) in decl.items():      # as the documentation imports them
        names = {}
        exec('from pysolar import *' if m == '__init__' else f'from pysolar.{m} import *', names)
        for n in funcs:
            ctx.counters['star_imports'] += 1
            where = ns['pysolar'] if m == '__init__' else ns.get(m)
            ctx.expect(n.startswith('_') or n in names and names[n] is getattr(where, n, None), 'import', f'{n} does not come with "from pysolar.{m} import *"', [('numpy', f'{m}.{n}', (), {})],
                       'the function', names.get(n))

    def value(p, ann, span):
        if p in ('start_datetime', 'end_datetime', 'step_minutes'):
            return span[('start_datetime', 'end_datetime', 'step_minutes').index(p)]
        if p == 'horizon':
            return [float(k % 7) for k in range(361)]
        if p == 'coeffs':
            return [[(1.0, 2.0, 3.0), (0.5, .1, 2.0)], [(0.1, 1.0, 2.0)]]
        if p in PLAIN:
            return r.uniform(*PLAIN[p])
        if p in KIND and not (KIND[p] == 'nut' and ann == 'float'):
            return maker.arg(KIND[p])
        if ann is not None and 'datetime' in ann:
            return g.modern()
        if ann == 'int':
            return r.randint(1, 365)
        return r.uniform(.1, 1)

    for i in ctx.rounds(400):
        for m, n, node in todo:
            if n in ('use_math', 'use_numpy', 'solar_test', 'elevation_test'):
                if i == 0:
                    ctx.expect(ctx.has(f'{m}.{n}'), 'exists', f'{m}.{n} is declared', [('numpy', f'{m}.{n}', (), {})], 'a function', None)
                continue
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            anns = {x.arg: ast.unparse(x.annotation) if x.annotation else None for x in a.posonlyargs + a.args + a.kwonlyargs}
            optional = names[len(names) - len(a.defaults):] if a.defaults else []
            _, sp, _ = maker.make('simulate.datetime_range')
            vals = {p: value(p, anns[p], sp) for p in names}
            keep = len(names) - (r.randint(0, len(optional)) if optional else 0)
            given = names[:keep]
            ctx.backend(r.choice(('numpy', 'math')))
            path = f'{m}.{n}'
            x = ctx.call(path, *[vals[p] for p in given])
            y = ctx.call(path, **{p: vals[p] for p in given})
            k = r.randint(0, keep)
            z = ctx.call(path, *[vals[p] for p in given[:k]], **{p: vals[p] for p in given[k:]})
            ctx.counters['positional_calls'] += 1
            ctx.counters['keyword_calls'] += 2
            fine = isinstance(x.exc, ValueError) and 'sun' in n or isinstance(x.exc, (ValueError, ZeroDivisionError, OverflowError)) \
                and type(x.exc) is type(y.exc) is type(z.exc)
            if not ctx.expect((x.ok and y.ok and z.ok) or fine, 'callable', f'{path} cannot be called as its stub declares', [x.event, y.event, z.event],
                              ast.unparse(a), (x, y, z)):
                continue
            if not x.ok:
                continue
            ann = ast.unparse(node.returns) if node.returns else None
            if hasattr(x.value, '__next__'):
                base, par = split(ann)
                ctx.expect(base in ('iterator', 'iterable', 'generator'), 'type', f'{path} is declared to return {ann}', [x.event], ann, x)
                vx, vy, vz = list(x.value), list(y.value), list(z.value)
                if par:
                    ctx.expect(all(fits(v, par[0]) for v in vx), 'type', f'{path} is declared to return {ann}', [x.event], ann, vx[:2])
            else:
                vx, vy, vz = x.value, y.value, z.value
                if ann:
                    ctx.expect(fits(vx, ann), 'type', f'{path} is declared to return {ann}', [x.event], ann, vx)
            if n == 'get_aberration_coeffs':
                continue
            ctx.expect(repr(norm(vx)) == repr(norm(vy)) == repr(norm(vz)), 'order', f'{path}: positional and keyword calls disagree',
                       [x.event, y.event, z.event], 'the same', (vx, vy, vz))
    # optional keywords one by one
    for m, n, node in todo:
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        optional = names[len(names) - len(a.defaults):] if a.defaults else []
        if not optional or not ctx.has(f'{m}.{n}'):
            continue
        anns = {x.arg: ast.unparse(x.annotation) if x.annotation else None for x in a.posonlyargs + a.args}
        _, sp, _ = maker.make('simulate.datetime_range')
        vals = {p: value(p, anns[p], sp) for p in names}
        req = [vals[p] for p in names if p not in optional]
        for p in optional:
            o = ctx.call(f'{m}.{n}', *req, **{p: vals[p]})
            ctx.counters['keyword_calls'] += 1
            ctx.expect(o.ok or isinstance(o.exc, (ValueError, ArithmeticError)), 'optional', f'{m}.{n} does not take {p} alone', [o.event], 'a result', o)
