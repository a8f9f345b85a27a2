import re
def sub(f, pairs):
    p='/tmp/refac/pysolar/'+f
    s=open(p,newline='').read(); crlf='\r\n' in s; s=s.replace('\r\n','\n')
    for a,b in pairs:
        assert s.count(a)==1,(f,s.count(a),a)
        s=s.replace(a,b)
    open(p,'w',newline='').write(s.replace('\n','\r\n') if crlf else s)
sub('solar.py',[
('''    result = 0.0
    x = 1.0
    for line in coeffs :
        c = 0.0
        for l in line :
            c += l[0] * math.cos(l[1] + l[2] * jme)
        #end for
        result += c * x
        x *= jme
    #end for
    return \\
        result
''','''    result = 0.0
    for line in reversed(coeffs):
        result = result * jme + sum(a * math.cos(b + c * jme) for a, b, c in line)
    return result
'''),
('''    for i in range(len(abcd)):
        sigmaxy = 0.0
        for j in range(len(x)):
            sigmaxy += x[j] * y[i][j]
        #end for
        nutation_long.append((abcd[i][0] + (abcd[i][1] * jce)) * math.sin(math.radians(sigmaxy)))
        nutation_oblique.append((abcd[i][2] + (abcd[i][3] * jce)) * math.cos(math.radians(sigmaxy)))
''','''    for (a, b, c, d), yi in zip(abcd, y):
        arg = math.radians(sum(xj * yj for xj, yj in zip(x, yi)))
        nutation_long.append((a + b * jce) * math.sin(arg))
        nutation_oblique.append((c + d * jce) * math.cos(arg))
'''),
('''    u = jme/10.0
    mean_obliquity = 84381.448 - (4680.93 * u) - (1.55 * u ** 2) + (1999.25 * u ** 3) \\
    - (51.38 * u ** 4) -(249.67 * u ** 5) - (39.05 * u ** 6) + (7.12 * u ** 7) \\
    + (27.87 * u ** 8) + (5.79 * u ** 9) + (2.45 * u ** 10)
''','''    u = jme / 10.0
    mean_obliquity = 0.0
    for k in (2.45, 5.79, 27.87, 7.12, -39.05, -249.67, -51.38, 1999.25, -1.55, -4680.93, 84381.448):
        mean_obliquity = mean_obliquity * u + k
'''),
('''    topocentric_sun_declination, topocentric_local_hour_angle = \\
        get_topocentric_position(latitude_deg, longitude_deg, when, elevation)

    topocentric_elevation_angle = get_topocentric_elevation_angle(latitude_deg, topocentric_sun_declination, topocentric_local_hour_angle)
    refraction_correction = get_refraction_correction(pressure, temperature, topocentric_elevation_angle)
    return topocentric_elevation_angle + refraction_correction
''','''    return get_position(latitude_deg, longitude_deg, when, elevation, temperature, pressure)[1]
'''),
('''    topocentric_sun_declination, topocentric_local_hour_angle = \\
        get_topocentric_position(latitude_deg, longitude_deg, when, elevation)

    azimuth = get_topocentric_azimuth_angle(topocentric_local_hour_angle,
            latitude_deg, topocentric_sun_declination)

    return azimuth
''','''    declination, hour_angle = get_topocentric_position(latitude_deg, longitude_deg, when, elevation)
    return get_topocentric_azimuth_angle(hour_angle, latitude_deg, declination)
'''),
('''    return \\
        (
            (math.tm_hour(when) * 60 + math.tm_min(when) + 4 * longitude_deg + equation_of_time(math.tm_yday(when)))
        /
            60
        )
''','''    minutes = _clock_minutes(when) + 4 * longitude_deg + equation_of_time(math.tm_yday(when))
    return minutes / 60

def _clock_minutes(when):
    return math.tm_hour(when) * 60 + math.tm_min(when)
'''),
('''    return (get_heliocentric_longitude(jme) + 180) % 360
''','''    return (180.0 + get_heliocentric_longitude(jme)) % 360.0
'''),
])
sub('solartime.py',[
('''                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))
            /
                seconds_per_day
        +
            gregorian_day_offset
        +
            julian_day_offset
''','''            get_julian_ephemeris_day(when) - get_delta_t(when) / seconds_per_day
'''),
('''    when = when.utctimetuple()
    year, month = when.tm_year, when.tm_mon
    if year''','''    utc = when.utctimetuple()
    month, year = utc.tm_mon, utc.tm_year
    if year'''),
])
sub('simulate.py',[
('''    for n in range(span // dt) :
        yield start_datetime + dt * n
    #end for
''','''    left = span // dt
    n = 0
    while n < left :
        yield start_datetime + n * dt
        n += 1
'''),
('''        alt = solar.get_altitude(latitude_deg, longitude_deg, time, elevation, temperature, pressure)
        azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)
''','''        azi, alt = solar.get_position(latitude_deg, longitude_deg, time, elevation, temperature, pressure)
'''),
('''        if shade < alt_zero - round(alt_zero * math.sin(math.radians(alt))) :
            rad = 0
        else :
            rad = radiation.get_radiation_direct(time, alt)
        #end if
''','''        threshold = alt_zero - round(alt_zero * math.sin(math.radians(alt)))
        rad = 0 if shade < threshold else radiation.get_radiation_direct(time, alt)
'''),
])
sub('tzinfo_check.py',[
('''        full = inspect.getfullargspec(inspect.unwrap(func))
''',''''''),
('''  def checker(func):
''','''  def checker(func):
    full = inspect.getfullargspec(inspect.unwrap(func))
'''),
])
sub('util.py',[
('''    return \\
        get_sunrise_sunset_transit(latitude_deg, longitude_deg, when)[0:2]
''','''    rise, fall, _ = get_sunrise_sunset_transit(latitude_deg, longitude_deg, when)
    return rise, fall
'''),
('''    ab = math.cos(2 * math.pi * (day - 1.0)/(365.0))
    bc = math.sin(2 * math.pi * (day - 1.0)/(365.0))
    cd = math.cos(2 * (2 * math.pi * (day - 1.0)/(365.0)))
    df = math.sin(2 * (2 * math.pi * (day - 1.0)/(365.0)))
''','''    t = 2 * math.pi * (day - 1.0) / 365.0
    ab, bc, cd, df = math.cos(t), math.sin(t), math.cos(2 * t), math.sin(2 * t)
'''),
('''    return (0.038175 + (1.5458 * (math.sin(altitude))) + ((-0.59980) * (0.5 * (1 - math.cos(2 * (altitude))))))
''','''    s = math.sin(altitude)
    return 0.038175 + 1.5458 * s - 0.59980 * s * s
'''),
('''    K = DIFF_data/ghi_data

    return K''','''    return DIFF_data / ghi_data'''),
])
sub('radiation.py',[('''    try :
        result = 1 / math.sin(math.radians(altitude_deg))
    except ZeroDivisionError :
        result = float("inf")
    #end try
    return result
''','''    sine = math.sin(math.radians(altitude_deg))
    try :
        return 1 / sine
    except ZeroDivisionError :
        return float("inf")
''')])
sub('rest.py',[('''    TR = get_rayleigh_transmittance(band, mRprime)
    Tg = get_gas_transmittance(band, mRprime)
    To = get_ozone_transmittance(band, mo, ozone_atm_cm)
    # is water_optical_mass really used for nitrogen calc?
''','''    To = get_ozone_transmittance(band, mo, ozone_atm_cm)
    Tg = get_gas_transmittance(band, mRprime)
    TR = get_rayleigh_transmittance(band, mRprime)
''')])
sub('elevation.py',[('''        Ps * (Ts / (Ts + Tl * (h - Hb))) ** ((g * M) / (R * Tl))
''','''        Ps * ((Ts + Tl * (h - Hb)) / Ts) ** -(M * g / (R * Tl))
''')])
s=open('/tmp/refac/pysolar/numeric.py').read()
i=s.index("    globals_import_from('numpy', 'degrees'"); j=s.index("    globals()['tm_yday'] = tm_yday_numpy")
s=s[:i]+"    for name, as_name in _NUMPY:\n        globals_import_from('numpy', name, as_name)\n"+s[j:]
s=s.replace("def use_numpy():","_NUMPY = [(n, n) for n in ('degrees', 'cos', 'sin', 'radians', 'tan', 'pi', 'exp', 'log', 'e', 'where')] + [\n    ('arc' + n, 'a' + n) for n in ('cos', 'tan', 'sin', 'tan2')]\n\n\ndef use_numpy():")
open('/tmp/refac/pysolar/numeric.py','w').write(s)
