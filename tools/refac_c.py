"""a third set of rewrites that keep the behaviour: memos, tables computed at import, shared helpers, dispatch tables, late imports"""
exec(open('/verif/tools/refac_a.py').read().split("sub('solar.py'")[0])
st=open('/repo/pysolar/solartime.py',newline='').read().replace('\r\n','\n')
i=st.index("    when = when.utctimetuple()\n    adj = 10"); j=st.index("#end get_leap_seconds")
sub('solartime.py',[(st[i:j],'''    utc = when.utctimetuple()
    last = leap_seconds_base_year + len(leap_seconds_adjustments)
    if (utc.tm_year, utc.tm_mon) > (last, 6) :
        _warn_not_available(utc.tm_year)
    half = 2 * (utc.tm_year - leap_seconds_base_year) + (utc.tm_mon > 6)
    return _totals[min(max(half, 0), len(_totals) - 1)]


def _warn_not_available(year):
    message = "Leap seconds for year %d are not available for the installed version of pysolar" % year
    warnings.warn(message, stacklevel=2)


def _accumulate():
    totals = [10]
    for entry in leap_seconds_adjustments:
        for step in entry:
            totals.append(totals[-1] + step)
    return tuple(totals)


_totals = _accumulate()
'''),
('''    when = when.utctimetuple()
    year, month = when.tm_year, when.tm_mon
    if year < delta_t_base_year :''','''    when = when.utctimetuple()
    return _delta_t_of(when.tm_year, when.tm_mon)


@functools.lru_cache(maxsize=64)
def _delta_t_of(year, month):
    if year < delta_t_base_year :'''),
('import datetime\nimport time\n','import datetime\nimport functools\nimport time\n'),
('''    return \\
        (
                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))
            /
                seconds_per_day
        +
            gregorian_day_offset
        +
            julian_day_offset
        )
''','''    return _to_days((when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when)))


def _to_days(seconds):
    return seconds / seconds_per_day + gregorian_day_offset + julian_day_offset

'''),
('''    return \\
        (
                (when.timestamp() + get_leap_seconds(when) + tt_offset)
            /
                seconds_per_day
        +
            gregorian_day_offset
        +
            julian_day_offset
        )
''','''    return _to_days(when.timestamp() + get_leap_seconds(when) + tt_offset)
'''),
])
c=open('/repo/pysolar/constants.py',newline='').read().replace('\r\n','\n')
i=c.index("aberration_coeffs = None\n"); j=c.index("#end get_aberration_coeffs")
sub('constants.py',[(c[i:j],'''_polynomials = (
    ('ArgumentOfLatitudeOfMoon', (93.27191, 483202.017538, -0.0036825, 327270.0)),
    ('LongitudeOfAscendingNode', (125.04452, -1934.136261, 0.0020708, 450000.0)),
    ('MeanElongationOfMoon', (297.85036, 445267.111480, -0.0019142, 189474.0)),
    ('MeanAnomalyOfMoon', (134.96298, 477198.867398, 0.0086972, 56250.0)),
    ('MeanAnomalyOfSun', (357.52772, 35999.050340, -0.0001603, -300000.0)),
)


def _polynomial(a, b, c, d):
    return lambda x: a + x * (b + x * (c + x / d))


aberration_coeffs = {name: _polynomial(*coeffs) for name, coeffs in _polynomials}


def get_aberration_coeffs():
    return aberration_coeffs
''')])
sub('tzinfo_check.py',[('''      for argname in argnames:
        # first checking if argname is a valid arg name
        full = inspect.getfullargspec(inspect.unwrap(func))
        if (argname in full.args or
            argname in full.kwonlyargs):
          # getting value given for argname
          try:
            dt = args[full.args.index(argname)]
          except (IndexError, ValueError):
            if argname not in kwargs:
              continue  # left out: its default, or an error in 'func' itself
            dt = kwargs[argname]
''','''      for argname, position in places:
          if position is not None and position < len(args):
            dt = args[position]
          elif argname in kwargs:
            dt = kwargs[argname]
          else:
            continue
'''),('''    @wraps(func)
''','''    full = inspect.getfullargspec(inspect.unwrap(func))
    places = [(n, full.args.index(n) if n in full.args else None) for n in argnames if n in full.args or n in full.kwonlyargs]

    @wraps(func)
''')])
n=open('/repo/pysolar/numeric.py',newline='').read().replace('\r\n','\n')
i=n.index("def use_numpy():"); j=n.index("try:\n    import numpy\n")
sub('numeric.py',[(n[i:j],'''_SAME = ('degrees', 'cos', 'sin', 'radians', 'tan', 'pi', 'exp', 'log', 'e')
_ARC = ('acos', 'atan', 'asin', 'atan2')


def _names(mod):
    import importlib
    module = importlib.import_module(mod)
    names = {name: getattr(module, name) for name in _SAME}
    names.update((name, getattr(module, name if mod == 'math' else 'arc' + name[1:])) for name in _ARC)
    names['where'] = where_math if mod == 'math' else module.where
    for unit in ('yday', 'hour', 'min'):
        names['tm_' + unit] = globals()['tm_%s_%s' % (unit, mod)]
    names['current_mod'] = mod
    return names


def use_numpy():
    """
    Import required functions/constants from numpy
    """
    globals().update(_names('numpy'))


def use_math():
    """
    Import required functions/constants from builtins math module
    """
    globals().update(_names('math'))


''')])
sub('simulate.py',[('''        alt = solar.get_altitude(latitude_deg, longitude_deg, time, elevation, temperature, pressure)
        azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)
        shade = horizon[round(azi) % 360]
''','''        azi, alt = solar.get_position(latitude_deg, longitude_deg, time, elevation, temperature, pressure)
        shade = horizon[round(azi) % 360]
'''),('''    for n in range(span // dt) :
        yield start_datetime + dt * n
''','''    n, count = 0, span // dt
    while n < count :
        yield start_datetime + dt * n
        n += 1
''')])
sub('solar.py',[('''    topocentric_sun_declination, topocentric_local_hour_angle = \\
        get_topocentric_position(latitude_deg, longitude_deg, when, elevation)

    topocentric_elevation_angle = get_topocentric_elevation_angle(latitude_deg, topocentric_sun_declination, topocentric_local_hour_angle)
    refraction_correction = get_refraction_correction(pressure, temperature, topocentric_elevation_angle)
    return topocentric_elevation_angle + refraction_correction
''','''    return get_position(latitude_deg, longitude_deg, when, elevation, temperature, pressure)[1]
'''),
('''    result = 0.0
    x = 1.0
    for line in coeffs :
        c = 0.0
        for l in line :
            c += l[0] * math.cos(l[1] + l[2] * jme)
        #end for
        result += c * x
        x *= jme
    #end for
    return \\
        result
''','''    cos = math.cos
    series = (sum([a * cos(b + c * jme) for a, b, c in line], 0.0) for line in coeffs)
    return sum(s * jme ** k for k, s in enumerate(series))
'''),
('''    for i in range(len(abcd)):
        sigmaxy = 0.0
        for j in range(len(x)):
            sigmaxy += x[j] * y[i][j]
        #end for
        nutation_long.append((abcd[i][0] + (abcd[i][1] * jce)) * math.sin(math.radians(sigmaxy)))
        nutation_oblique.append((abcd[i][2] + (abcd[i][3] * jce)) * math.cos(math.radians(sigmaxy)))
    #end for
''' if False else '''        nutation_long.append((abcd[i][0] + (abcd[i][1] * jce)) * math.sin(math.radians(sigmaxy)))
        nutation_oblique.append((abcd[i][2] + (abcd[i][3] * jce)) * math.cos(math.radians(sigmaxy)))
''','''        angle = math.radians(sigmaxy % 360)
        nutation_long.append(math.sin(angle) * (abcd[i][0] + abcd[i][1] * jce))
        nutation_oblique.append(math.cos(angle) * (abcd[i][2] + abcd[i][3] * jce))
'''),
('''    b = 2 * math.pi / 364.0 * (day - 81)
    return 9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b)
''','''    b = math.radians((day - 81) * 360 / 364.0)
    return 9.87 * math.sin(b + b) - (7.53 * math.cos(b) + 1.5 * math.sin(b))
'''),
('''    return math.degrees(math.acos(math.clamp_unit(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad))))
''','''    cosine = math.cos(tza_rad) * math.cos(slope_rad) - math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - so_rad)
    return math.degrees(math.acos(math.clamp_unit(cosine)))
'''),
])
sub('radiation.py',[('''    air_mass_ratio = math.where(altitude_deg <= 0, 0., get_air_mass_ratio(altitude_deg))
    return flux * math.exp(-1 * optical_depth * air_mass_ratio) * is_daytime
''','''    air_mass_ratio = math.where(altitude_deg <= 0, 0., get_air_mass_ratio(altitude_deg))
    transmission = math.exp(-(optical_depth * air_mass_ratio))
    return is_daytime * (flux * transmission)
''')])
sub('elevation.py',[('''        Ps * (Ts / (Ts + Tl * (h - Hb))) ** ((g * M) / (R * Tl))
''','''        Ps * pow(Ts / get_temperature_with_elevation(h - Hb, Ts, Tl), g * M / (R * Tl))
''')])
sub('util.py',[('''    return \\
        get_sunrise_sunset_transit(latitude_deg, longitude_deg, when)[0:2]
''','''    rise, set_, _ = get_sunrise_sunset_transit(latitude_deg, longitude_deg, when)
    return rise, set_
'''),('''    return 0.0 if ZA <= 0 else SC * ZA * (1.00010 + 0.034221 * ab + 0.001280 * bc + 0.000719 * cd + 0.000077 * df)
''','''    if ZA <= 0:
        return 0.0
    distance = 1.00010 + 0.034221 * ab + 0.001280 * bc + 0.000719 * (2 * ab * ab - 1) + 0.000077 * (2 * ab * bc)
    return SC * ZA * distance
''')])
