import re
exec(open('/verif/tools/refac_a.py').read().split("sub('solar.py'")[0])
sub('solartime.py',[
('''    year = leap_seconds_base_year
    while True :
        if year > when.tm_year :
            break
        if year - leap_seconds_base_year >= len(leap_seconds_adjustments) :
            if (
                    when.tm_year - leap_seconds_base_year > len(leap_seconds_adjustments)
                or
                        when.tm_year - leap_seconds_base_year == len(leap_seconds_adjustments)
                    and
                        when.tm_mon > 6
            ) :
''','''    known = len(leap_seconds_adjustments)
    for year in range(leap_seconds_base_year, when.tm_year + 1) :
        index = year - leap_seconds_base_year
        if index >= known :
            beyond = when.tm_year - leap_seconds_base_year - known
            if beyond > 0 or beyond == 0 and when.tm_mon > 6 :
'''),
('''        entry = leap_seconds_adjustments[year - leap_seconds_base_year]
        if year == when.tm_year :
            if when.tm_mon > 6 :
                adj += entry[0]
            #end if
            break
        #end if
        adj += entry[0] + entry[1]
        year += 1
    #end while
''','''        june, december = leap_seconds_adjustments[index]
        if year < when.tm_year :
            adj += june + december
        elif when.tm_mon >= 7 :
            adj += june
'''),
('''    when = when.utctimetuple()
    year, month = when.tm_year, when.tm_mon
    if year < delta_t_base_year :
        year = delta_t_base_year
        month = 1
    elif year == delta_t_base_year :
        month = max(0, month - delta_t_base_month) + 1
    elif year >= delta_t_base_year + len(delta_t) :
        year = delta_t_base_year + len(delta_t) - 1
        month = 12
    #end if
    if year == delta_t_base_year + len(delta_t) - 1 :
        month = min(month, len(delta_t[year - delta_t_base_year]))
    #end if
    return \\
        delta_t[year - delta_t_base_year][month - 1]
''','''    tt = when.utctimetuple()
    flat = [v for months in delta_t for v in months]
    k = (tt.tm_year - delta_t_base_year) * 12 + tt.tm_mon - delta_t_base_month
    return flat[min(max(k, 0), len(flat) - 1)]
'''),
])
sub('constants.py',[('''    global aberration_coeffs
    if aberration_coeffs == None :
        aberration_coeffs = dict \\
          (
            (name, (lambda a, b, c, d: lambda x: a + b * x + c * x ** 2 + (x ** 3) / d)(*coeffs))
            for name, coeffs in
                (
''','''    global aberration_coeffs
    if aberration_coeffs is None :
        def poly(a, b, c, d):
            def value(x):
                return a + b * x + c * x ** 2 + (x ** 3) / d
            return value
        aberration_coeffs = {name: poly(*coeffs) for name, coeffs in
                (
'''),('''                    ('MeanAnomalyOfSun', (357.52772, 35999.050340, -0.0001603, -300000.0)),
                )
          )
''','''                    ('MeanAnomalyOfSun', (357.52772, 35999.050340, -0.0001603, -300000.0)),
                )
          }
''')])
u=open('/repo/pysolar/util.py',newline='').read().replace('\r\n','\n')
i=u.index("    TT = 2 * math.pi * day / 366\n"); j=u.index("    # clocks can be"); body=u[i:j]
d,t=body.split("    TT = math.radians(279")
d=d.replace("    decl = \\\n","    return \\\n"); t="    TT = math.radians(279"+t.replace("    time_adst = \\\n","    return \\\n")
sub('util.py',[(body,"    decl = _declination_of(day)\n    time_adst = _time_adjustment_of(day)\n"),
("@check_aware_dt('when')\ndef get_sunrise_sunset_transit","def _declination_of(day):\n"+d+"\ndef _time_adjustment_of(day):\n"+t+"\n@check_aware_dt('when')\ndef get_sunrise_sunset_transit"),
('''    sunrise_time = (same_day + timedelta(hours = TON - ha)).astimezone(when.tzinfo)
    sunset_time = (same_day + timedelta(hours = TON + ha)).astimezone(when.tzinfo)
    transit_time = (same_day + timedelta(hours = TON)).astimezone(when.tzinfo)
    return sunrise_time, sunset_time, transit_time
''','''    return tuple((same_day + timedelta(hours = h)).astimezone(when.tzinfo) for h in (TON - ha, TON + ha, TON))
'''),
('''    ghioc = max(572 * solarelevation_function_overcast(latitude_deg, longitude_deg, when,
                                                       elevation , temperature , pressure ), 0.0)

    return ghioc
''','''    fo = solarelevation_function_overcast(latitude_deg, longitude_deg, when, elevation=elevation, pressure=pressure, temperature=temperature)
    return max(fo * 572, 0.0)
'''),
])
sub('solar.py',[('''    day = math.tm_yday(when)
    declination_rad = math.radians(get_declination(day))
    latitude_rad = math.radians(latitude_deg)
    hour_angle_rad = math.radians(get_hour_angle(when, longitude_deg))
    altitude_rad = math.radians(get_altitude_fast(latitude_deg, longitude_deg, when))

    azimuth_rad = math.asin(math.clamp_unit(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad)))

    return math.where(math.cos(hour_angle_rad) * math.tan(latitude_rad) >= math.tan(declination_rad),
                      (180 - math.degrees(azimuth_rad)),
                      math.degrees(azimuth_rad) + 360 * (azimuth_rad < 0)
                     )
''','''    altitude_rad = math.radians(get_altitude_fast(latitude_deg, longitude_deg, when))
    hour_angle_rad = math.radians(get_hour_angle(when, longitude_deg))
    latitude_rad = math.radians(latitude_deg)
    declination_rad = math.radians(get_declination(math.tm_yday(when)))

    azimuth_rad = math.asin(math.clamp_unit(-math.sin(hour_angle_rad) * math.cos(declination_rad) / math.cos(altitude_rad)))
    azimuth = math.degrees(azimuth_rad)
    southern = math.cos(hour_angle_rad) * math.tan(latitude_rad) >= math.tan(declination_rad)
    return math.where(southern, 180 - azimuth, azimuth + 360 * (azimuth_rad < 0))
'''),
('''    jd = stime.get_julian_solar_day(when)
    jde = stime.get_julian_ephemeris_day(when)
    jce = stime.get_julian_ephemeris_century(jde)
    jme = stime.get_julian_ephemeris_millennium(jce)
    geocentric_latitude = get_geocentric_latitude(jme)
    geocentric_longitude = get_geocentric_longitude(jme)
    sun_earth_distance = get_sun_earth_distance(jme)
    aberration_correction = get_aberration_correction(sun_earth_distance)
    equatorial_horizontal_parallax = get_equatorial_horizontal_parallax(sun_earth_distance)
    nutation = get_nutation(jce)
''','''    jd, jce, jme = _julian_times(when)
    nutation = get_nutation(jce)
    sun_earth_distance = get_sun_earth_distance(jme)
    equatorial_horizontal_parallax = get_equatorial_horizontal_parallax(sun_earth_distance)
    aberration_correction = get_aberration_correction(sun_earth_distance)
    geocentric_longitude = get_geocentric_longitude(jme)
    geocentric_latitude = get_geocentric_latitude(jme)
'''),
('''def get_azimuth_fast(''','''def _julian_times(when):
    jce = stime.get_julian_ephemeris_century(stime.get_julian_ephemeris_day(when))
    return stime.get_julian_solar_day(when), jce, stime.get_julian_ephemeris_millennium(jce)


def get_azimuth_fast('''),
])
sub('numeric.py',[('''    return where(x > 1., 1., where(x < -1., -1., x))
''','''    low = where(x < -1., -1., x)
    return where(low > 1., 1., low)
'''),('''    d = to_utc(d)
    dd = numpy.array(d, dtype='datetime64[D]')
    dy = numpy.array(d, dtype='datetime64[Y]')
    return (dd - dy).astype('int') + 1
''','''    dd, dy = _units(d, 'D', 'Y')
    return (dd - dy).astype('int') + 1


def _units(d, *units):
    d = to_utc(d)
    return [numpy.array(d, dtype='datetime64[%s]' % unit) for unit in units]
''')])
sub('simulate.py',[('''    step = step_minutes * 60.0
    span = end_datetime - start_datetime
    dt = datetime.timedelta(seconds = step)
    for n in range(span // dt) :
        yield start_datetime + dt * n
    #end for
''','''    dt = datetime.timedelta(seconds = step_minutes * 60.0)
    steps = (end_datetime - start_datetime) // dt
    yield from (start_datetime + dt * n for n in range(steps))
'''),('''        azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)
        shade = horizon[round(azi) % 360]
''','''        azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)
        azimuth_index = round(azi) % 360
        shade = horizon[azimuth_index]
''')])
sub('rest.py',[('''    high = get_direct_normal_irradiance_by_band("high-frequency", altitude_deg, pressure_millibars,
                                           ozone_atm_cm, nitrogen_atm_cm, precipitable_water_cm, turbidity_alpha, turbidity_beta)
    low = get_direct_normal_irradiance_by_band("low-frequency", altitude_deg, pressure_millibars,
                                          ozone_atm_cm, nitrogen_atm_cm, precipitable_water_cm, turbidity_alpha, turbidity_beta)
    return high + low
''','''    args = altitude_deg, pressure_millibars, ozone_atm_cm, nitrogen_atm_cm, precipitable_water_cm, turbidity_alpha, turbidity_beta
    return sum(get_direct_normal_irradiance_by_band(band, *args) for band in ("high-frequency", "low-frequency"))
'''),('''        c = get_water_vapor_transmittance_coefficients(band, w)
        return (1 + c[1] * mw + c[2] * mw ** 2) / (1 + c[3] * mw + c[4] * mw ** 2)
''','''        _, c1, c2, c3, c4 = get_water_vapor_transmittance_coefficients(band, w)
        return (1 + mw * (c1 + c2 * mw)) / (1 + mw * (c3 + c4 * mw))
''')])
sub('radiation.py',[('''    is_daytime = (altitude_deg > 0)
    day = math.tm_yday(when)
    flux = get_apparent_extraterrestrial_flux(day)
    optical_depth = get_optical_depth(day)
''','''    day = math.tm_yday(when)
    optical_depth = get_optical_depth(day)
    flux = get_apparent_extraterrestrial_flux(day)
    is_daytime = altitude_deg > 0
''')])
