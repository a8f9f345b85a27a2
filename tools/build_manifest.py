#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (run after editing it)"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IN, HI, CO, SC = 'inputs', 'histories', 'configurations', 'schedules'
PROBES = 'The tests probe three instants and places of one solar position; '

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms [(name, where)], technique, level note
P = []


def prop(*a):
    P.append(a)


prop('C01', 'TAI-UTC equals the published leap second count for every instant',
     'For every time-zone-aware instant of the years 2 to 9998 the leap second count is exactly the published TAI-UTC of that UTC month: 10 before July 1972, one more from 1 July '
     'or 1 January after each announced leap second, 37 from January 2017 on. A warning that names the year is given for each instant from July 2026 on (data not available), and no such '
     'warning for any earlier instant.',
     (IN,), 'every aware instant, in particular the microsecond before and after each of the 27 leap seconds, in every time zone',
     'The tests ask for one instant; every half-year entry, both sides of each boundary and the end of the table need the whole calendar.',
     ['pysolar/solartime.py'], [('get_leap_seconds', 'pysolar/solartime.py: table leap_seconds_adjustments and its loop')],
     'runtime monitoring: every recorded call judged against an independent table of IERS bulletins',
     'Exhaustive over month boundaries 1968-2030 at eleven offsets; sampled elsewhere.')
prop('C02', 'Delta T equals the published monthly value and keeps UT1 within 0.9 s of UTC',
     'For every aware instant Delta T (TT-UT1) is the value published for its UTC month, the first value for all earlier instants and the last value for all later ones. Within the table, leap seconds and '
     'Delta T together imply |UT1-UTC| < 0.9 s.',
     (IN,), 'every aware instant of years 2 to 9998 in every time zone, including each month boundary and both ends of the table',
     'The tests use one month of 495; wrong month indexing shows only at year ends, in the first year, or after the table.',
     ['pysolar/solartime.py'], [('get_delta_t', 'pysolar/solartime.py: delta_t, delta_t_base_year, delta_t_base_month')],
     'runtime monitoring: call log judged against a separate copy of the published series and the UT1 invariant',
     'Exhaustive over the months 1970-2020 at seven offsets; sampled elsewhere.')
prop('C03', 'Julian days are exact and preserve elapsed time and order',
     'The TT Julian day of an aware instant is (UTC days since 1970-01-01T00:00Z) + 2440587.5 + (TAI-UTC + 32.184 s)/86400, the UT Julian day is that minus Delta T, both to 2e-9 days; for two instants the '
     'difference of TT days is the elapsed time including leap seconds, and later instants never get an earlier day. Centuries count 36525 days from JD 2451545.0 and millennia are a tenth of centuries.',
     (IN, HI), 'every instant of years 2 to 9998 and every pair of instants, from 1 ms to centuries apart, across every calendar seam',
     PROBES + 'elapsed-time errors show only for pairs that straddle a leap year, a century, 1970 or a month end.',
     ['pysolar/solartime.py'], [('get_julian_solar_day, get_julian_ephemeris_day', 'pysolar/solartime.py'), ('get_julian_century ... millennium', 'pysolar/solartime.py')],
     'runtime monitoring: events judged against exact integer calendar arithmetic and a pairwise order relation', 'Sampled; 2e-9 days is four ulps of a present-day Julian day.')
prop('C04', 'Results depend only on the instant, not on how it is written',
     'Two aware datetimes that denote the same instant give the same result (1e-9) from every time-dependent function except the sunrise family, whatever their time zones, offsets (to the microsecond), fold, '
     'the process time zone (TZ) and the selected numeric backend.',
     (IN, CO), 'every instant and every pair of its representations: UTC, fixed and IANA zones, hand-written tzinfo classes, repeated and skipped hours, under any TZ',
     'The tests use UTC and one fixed offset each; local-date, fold and sub-minute offset errors need specific pairs.',
     ['pysolar/solar.py', 'pysolar/solartime.py', 'pysolar/numeric.py', 'pysolar/util.py', 'pysolar/radiation.py'],
     [('timestamp() and utctimetuple()', 'pysolar/solartime.py, pysolar/util.py'), ('tm_yday, tm_hour, tm_min, to_utc', 'pysolar/numeric.py')],
     'runtime monitoring: metamorphic relation over recorded call pairs', 'Sampled pairs; TZ is changed in the monitored process.')
prop('C05', 'Naive datetimes and non-datetimes are always rejected, aware ones never',
     'Every public function that takes a time raises the documented no-time-zone error (a ValueError whose message names the argument and its value) for any naive datetime, a ValueError naming the argument (get_azimuth_fast: some error) for anything without a tzinfo attribute, some error for anything else that is not a datetime, and accepts '
     'every aware datetime, positionally and by keyword, in both numeric backends, however often it is called. The check_aware_dt decorator does this for any function and parameter name (positional, keyword, default, keyword-only, several), passes everything else through unchanged, and keeps the '
     'function\'s name, documentation and signature.',
     (IN, HI), 'every public time-taking function, every naive datetime (fold, subclass, boundary values), every wrong type, positional and keyword',
     'The tests use one fixed naive datetime per function, positionally; a function added or rewired without the check, or a check with a loophole, passes them.',
     ['pysolar/tzinfo_check.py', 'pysolar/solar.py', 'pysolar/util.py', 'pysolar/radiation.py', 'pysolar/simulate.py'],
     [('check_aware_dt decorator', 'pysolar/tzinfo_check.py'), ('its uses', 'pysolar/solar.py, util.py, radiation.py, solartime.py')],
     'runtime monitoring: acceptance automaton over recorded calls and exceptions', 'Sampled inputs over the whole function list.')
prop('C06', 'Geocentric sun: every stage follows NREL SPA',
     'For every Julian day of years 2 to 9998 heliocentric and geocentric longitude, latitude and distance, nutation, obliquity, aberration, apparent longitude, sidereal time, right ascension, declination and '
     'local hour angle equal the values of the algorithm of NREL/TP-560-34302 (angles to 3e-8 degrees, sidereal time to 1e-6), angles reduced to 0..360 where documented; equatorial parallax and the equation of the equinoxes '
     'are known to deviate and may deviate only as recorded.',
     (IN,), 'every instant in ten millennia, and free angles over several turns for the stages that take angles',
     PROBES + 'a wrong high-order term, coefficient or quadrant has no visible effect near 2003.',
     ['pysolar/solar.py', 'pysolar/constants.py'], [('get_coeff and the longitude, latitude, distance tables', 'pysolar/solar.py, constants.py'), ('get_nutation', 'pysolar/solar.py'),
      ('sidereal time, right ascension, declination', 'pysolar/solar.py')],
     'runtime monitoring: reference-model oracle on every stage boundary', 'Reference tables entered separately from the report; sampled instants.')
prop('C07', 'Topocentric reduction equals subtracting the observer from the sun',
     'For every observer (any latitude, -430 m to 40 km) and every sun direction and parallax, parallax in right ascension, topocentric declination, hour angle, elevation, azimuth and zenith angle equal the direction of the vector from the '
     'observer to the sun rotated into the local horizon (azimuth eastward from north, 1e-7 degrees away from the zenith), on an ellipsoid flattened by 0.99664719; the topocentric declination is known to deviate by at most 0.0025 degrees and may '
     'deviate only as recorded.',
     (IN,), 'every latitude including the poles, elevation, hour angle, declination, and parallaxes far larger than the sun\'s',
     PROBES + 'sign and quadrant errors at the poles, in the south, below sea level or past the zenith are not sampled.',
     ['pysolar/solar.py'], [('get_flattened_latitude, get_projected_*_distance', 'pysolar/solar.py'), ('get_parallax_sun_right_ascension, get_topocentric_*', 'pysolar/solar.py')],
     'runtime monitoring: events judged against 3-D vector geometry', 'Sampled; large parallaxes magnify errors a real parallax would hide.')
prop('C08', 'The sun is where NREL SPA puts it, end to end',
     'For every observer, aware instant of years 2 to 9998, elevation, pressure and temperature the returned azimuth and altitude are within 4e-6 degrees on the sky of the algorithm of NREL/TP-560-34302 evaluated with the published leap seconds and Delta T, '
     'except for the recorded deviations of its parallax, topocentric declination and equation of the equinoxes. Arguments act the same positionally and by keyword; omitted elevation is 0 m, temperature 288.15 K and pressure 101325 Pa.',
     (IN, CO), 'all observers, instants, atmospheres, argument styles and both numeric backends', PROBES + 'everything else about the main function is unsampled.',
     ['pysolar/solar.py', 'pysolar/solartime.py', 'pysolar/constants.py', 'pysolar/numeric.py'],
     [('get_position, get_altitude, get_azimuth, get_topocentric_position', 'pysolar/solar.py')],
     'runtime monitoring: end-to-end reference-model oracle', 'Sampled; a deviation is excused only if it equals what the recorded mechanisms compute to 4e-6 degrees.')
prop('C09', 'Agreement with observatory positions within 0.01 degrees',
     'All 6259 US Naval Observatory positions of 2008 are reproduced within 0.01 degrees on the sky (mean below 0.006), and positions of the years 1800 to 2200 agree with an unrelated low-precision solar theory within 0.03 degrees.',
     (IN,), 'a whole year of observatory rows over the globe, and any instant of four centuries', 'The repository ships the data but its tests never compare against it.',
     ['pysolar/solar.py'], [('get_position', 'pysolar/solar.py')], 'runtime monitoring: offline comparison of the call log with observatory data',
     'Exhaustive over the 6259 rows; sampled against Meeus\'s theory.')
prop('C10', 'Positions are consistent with each other and in range everywhere',
     'The combined position equals the separate azimuth and altitude; azimuth is in 0..360, altitude in -90..91, and both are finite for every observer, poles and sub-solar point included. A full turn of longitude changes nothing (1e-6 degrees), and '
     'without refraction the altitudes at two antipodes cancel within 0.0062 degrees while their azimuths mirror each other.',
     (IN,), 'every observer, instant and atmosphere, including poles, the sub-solar point and longitudes beyond a turn',
     'Tests check values at three points; relations between calls and behaviour at singular points are not exercised.',
     ['pysolar/solar.py', 'pysolar/numeric.py'], [('get_position, get_altitude, get_azimuth', 'pysolar/solar.py'), ('clamp_unit', 'pysolar/numeric.py')],
     'runtime monitoring: relational (metamorphic) oracle over groups of recorded calls', 'Sampled.')
prop('C11', 'Refraction follows the standard formula and only lifts the altitude',
     'The refraction correction is P/101000 * 283/T * 1.02/(60 tan(e + 10.3/(e + 5.11))) degrees for geometric elevations e at or above -(0.26667+0.5667) and 0 below; it is proportional to pressure, inverse to absolute temperature, and apparent altitude grows with e. '
     'Apparent altitude is geometric altitude plus exactly this correction in every position function, the atmosphere never changes the azimuth, and the defaults are 0 m, 288.15 K and 101325 Pa.',
     (IN,), 'every elevation (dense at the threshold), pressure from vacuum to 1.2 bar (the formula and its use to 100 bar, and from 1 to 3000 K), observer and instant',
     PROBES + 'the threshold, the sign and the scaling with pressure and temperature are not sampled.',
     ['pysolar/solar.py', 'pysolar/constants.py'], [('get_refraction_correction', 'pysolar/solar.py')],
     'runtime monitoring: formula oracle and relations over recorded calls', 'Sampled; the single point e = threshold itself is left open.')
prop('C12', 'Angle of incidence is the angle between sun and surface normal',
     'For every zenith angle, solar azimuth, slope (0 to 180 degrees) and slope orientation (counted from south, positive towards west, any number of turns), the incidence angle is the angle between the direction to the sun and the normal of the surface, in 0..180 degrees.',
     (IN,), 'all angle combinations including normal incidence, back-lit and overhanging surfaces', 'Tests check one combination.',
     ['pysolar/solar.py', 'pysolar/numeric.py'], [('get_incidence_angle', 'pysolar/solar.py')], 'runtime monitoring: events judged against vector geometry',
     'Sampled; tolerance grows to 3e-6 degrees where arccos is ill-conditioned.')
prop('C13', 'The fast model is Masters\'s model with correct geometry',
     'For every day n, with B = 2 pi (n-81)/364, equation of time is 9.87 sin 2B - 7.53 cos B - 1.5 sin B minutes and declination 23.45 sin(2 pi (n-81)/365) degrees; solar time is whole UTC minutes plus 4 minutes per degree of longitude plus the equation of time, and the hour angle 15 degrees per hour from noon. '
     'Fast altitude and azimuth are the rotation of that direction into the local horizon, azimuth eastward from north in 0..360, for every place and UTC time.',
     (IN,), 'every day number, place (poles, tropics, both hemispheres) and aware time, in both numeric backends', 'Tests sample two instants; quadrants of the azimuth and year ends are not covered.',
     ['pysolar/solar.py', 'pysolar/numeric.py'], [('get_altitude_fast, get_azimuth_fast, get_hour_angle, get_solar_time', 'pysolar/solar.py'), ('equation_of_time, get_declination', 'pysolar/solar.py')],
     'runtime monitoring: formula and rotation oracle on recorded calls', 'Exhaustive over day numbers; sampled over places and times.')
prop('C14', 'Fast and precise sun agree within 1.9 degrees',
     'For every place and every instant from 1950 to 2050 fast altitude and fast direction differ from the precise geometric ones by less than 1.9 degrees, and by less than 0.55 degrees on average.',
     (IN,), 'every place and instant of a century', 'Tests never compare the two models.', ['pysolar/solar.py'], [('get_altitude_fast, get_azimuth_fast', 'pysolar/solar.py'), ('get_position', 'pysolar/solar.py')],
     'runtime monitoring: differential oracle between two implementations', 'Sampled; the mean is judged per shard of at least 200 points.')
prop('C15', 'Direct radiation: clear-sky formula by day, exactly zero at night',
     'Direct radiation for UTC day n and altitude a is (1160 + 75 sin(2 pi (n-275)/365)) exp(-k/sin a) W/m2 with k = 0.174 + 0.035 sin(2 pi (n-100)/365) for a > 0 and exactly 0 for a <= 0; it is finite, never negative, below 1235 W/m2 and does not fall as the sun rises.',
     (IN,), 'every instant and altitude from -90 to 90 degrees, including subnormal altitudes either side of the horizon', 'Tests sample three altitudes; just below the horizon the exponential overflows and nothing tests it.',
     ['pysolar/radiation.py'], [('get_radiation_direct and its factors', 'pysolar/radiation.py')], 'runtime monitoring: formula oracle, bounds and monotonicity over recorded calls', 'Exhaustive over days for the factors; sampled altitudes.')
prop('C16', 'A time span yields every whole step and nothing else',
     'The datetimes of a span are start + k*step for k = 0, 1, ... as long as a whole step fits between start and end (floor((end-start)/step) values, none if that is not positive; a negative step runs backwards), for integral and fractional minutes and spans that are not whole seconds, without drift (1 microsecond), in the time zone of the start.',
     (IN,), 'all starts, spans (multiples of the step and one second either side) and steps, across clock changes and mixed zones', 'No test calls it.', ['pysolar/simulate.py'],
     [('datetime_range', 'pysolar/simulate.py')], 'runtime monitoring: sequence oracle over the recorded output stream', 'Sampled, up to 5000 steps.')
prop('C17', 'Simulated rows are the sun at their time with horizon shading applied',
     'Every row of a simulated span carries its step time, the altitude and azimuth of the precise model for the given place and atmosphere, the horizon entry of the azimuth rounded to whole degrees (360 is entry 0), and direct radiation that is 0 if the entry is below 380 - round(380 sin(altitude)) '
     'and the clear-sky value otherwise; rows come in order, one per step.',
     (IN, HI), 'all places, spans, steps, horizons and atmospheres', 'No test calls it.', ['pysolar/simulate.py'], [('simulate_span', 'pysolar/simulate.py')],
     'runtime monitoring: row-by-row trace checker against separate calls', 'Sampled; ties of rounding accept either neighbour.')
prop('C18', 'Pressure and temperature follow the barometric model at any elevation',
     'For elevation h pressure is Ps exp(g M / (R L) ln(Ts/(Ts + L (h-Hb)))) (relative 1e-11) and temperature Ts + L h, with the standard atmosphere as default and each parameter adjustable; pressure is positive and strictly falls with elevation. A warning is given exactly for elevations above 11000 m.',
     (IN,), 'elevations from -12 km to 60 km and any parameters that leave the air a temperature', 'One test prints values and asserts nothing.', ['pysolar/elevation.py'], [('get_pressure_with_elevation, get_temperature_with_elevation', 'pysolar/elevation.py')],
     'runtime monitoring: formula oracle, monotonicity and warning log', 'Sampled.')
prop('C19', 'Sunrise, sunset and transit follow the published series on every local day',
     'For the local date of an aware datetime sunrise, sunset and transit are those of the documented day-of-year series at the UTC offset of that datetime (0.01 s), around the noon of that date (transit within 12.3 hours of 12:00, also where clocks are a day ahead of the sun: UTC+13, UTC+14), as aware datetimes in its time zone, ordered sunrise <= transit <= sunset with transit midway; the four shorter functions return the same values. '
     'The answer does not depend on the time of day (also on days with a clock change), and polar day or night raises ValueError.',
     (IN,), 'every place, local date, time zone (clock changes, repeated hours) and time of day', 'Tests only check that naive datetimes are rejected.', ['pysolar/util.py'], [('get_sunrise_sunset_transit and wrappers', 'pysolar/util.py')],
     'runtime monitoring: series oracle and relations over recorded calls', 'Sampled; cases within 1e-9 of the polar limit are skipped.')
prop('C20', 'At sunrise and sunset the sun is on the horizon, at transit on the meridian',
     'Between 60 degrees south and north, for dates 1950 to 2050, the precise geometric altitude at the reported sunrise and sunset is -0.833 degrees within 1.0 degree, in the east and rising at sunrise, in the west and setting at sunset; at the reported transit the hour angle is below 0.3 degrees.',
     (IN,), 'every place between the latitudes, date and time zone', 'Tests never relate sunrise to the position of the sun.', ['pysolar/util.py', 'pysolar/solar.py'], [('get_sunrise_sunset_transit', 'pysolar/util.py'), ('get_position', 'pysolar/solar.py')],
     'runtime monitoring: cross-module consistency oracle', 'Sampled.')
prop('C21', 'Extraterrestrial irradiance and the clearness index',
     'Extraterrestrial irradiance is SC (1.00010 + 0.034221 cos t + 0.001280 sin t + 0.000719 cos 2t + 0.000077 sin 2t) times the cosine of the fast model\'s zenith angle (t = 2 pi (n-1)/365 for UTC day n, SC = 1367 W/m2 by default), and 0 with the sun below the horizon, so in 0..1.0366 SC. '
     'Clearness index and diffuse ratio are the exact elementwise quotients, for scalars and arrays.',
     (IN,), 'every instant, place, solar constant and irradiation data', 'Tests only check that naive datetimes are rejected.', ['pysolar/util.py'], [('extraterrestrial_irrad, clear_index, diffuse_ratio', 'pysolar/util.py')],
     'runtime monitoring: formula oracle and bounds', 'Sampled.')
prop('C22', 'Clear-sky and overcast models follow their formulas and compose',
     'With s the sine of the precise altitude a for the given atmosphere: Earth-sun factor 1 - 0.0335 sin(2 pi (n-94)/365) for UTC day n, declination 23.45 sin(2 pi (n-81)/TY) degrees, diffuse transmittance -21.657 + 41.752 TL + 0.51905 TL^2, elevation functions 0.038175 + 1.5458 s - 0.5998 s^2 (clear) and -0.0067133 + 0.786 s + 0.22401 s^2 (overcast). '
     'Clear diffuse irradiance is the product of the first, third and fourth for a > 0 and 0 otherwise, overcast global irradiance max(0, 572 times the overcast function). Clear global irradiance is direct plus diffuse for the same arguments, whichever of them are given. Overcast diffuse and clear direct irradiance differ from the documentation as recorded, or follow it, using every argument given.',
     (IN,), 'every instant, place, atmosphere, turbidity, air mass, and subset of optional arguments', 'Tests only check that naive datetimes are rejected.', ['pysolar/util.py'],
     [('mean_earth_sun_distance, solarelevation_function_*, diffuse_*', 'pysolar/util.py'), ('global_irradiance_clear, global_irradiance_overcast', 'pysolar/util.py')],
     'runtime monitoring: formula oracle and composition relation', 'Sampled; formulas are those of the documentation of each function.')
prop('C23', 'Irradiance is never negative, zero at night, never more than the sun delivers',
     'Clear diffuse, overcast global and extraterrestrial irradiance are 0 with the sun below the horizon, never negative and never above 1417 W/m2 (5 % margin). Overcast diffuse and clear direct irradiance (and global through it) are known to violate this and may do so only as recorded.',
     (IN,), 'every instant of two centuries, place, atmosphere, air mass 1 to 5 and turbidity 1 to 8', 'Tests only check that naive datetimes are rejected.', ['pysolar/util.py'], [('diffuse_underclear, global_irradiance_*, extraterrestrial_irrad', 'pysolar/util.py')],
     'runtime monitoring: physical-bounds oracle with mechanism-keyed findings', 'Sampled.')
prop('C24', 'REST2 masses, transmittances and aerosol terms follow the publication',
     'For altitudes 0 to 90 degrees and both spectral bands optical masses, transmittances (Rayleigh, gas, ozone, NO2, water, aerosol), effective wavelength, scattering terms and sky albedo equal Gueymard\'s published parameterisation; masses fall as the sun rises (to 88 degrees). '
     'Rayleigh, gas, ozone and water transmittances lie in 0..1 and never rise with the path, nor ozone and water ones with the amount (water up to 4 cm in the infrared band).',
     (IN,), 'the published domain: 300 to 1100 mbar, ozone to 0.6 and NO2 to 0.03 atm-cm, water to 10 cm, alpha to 2.5, beta to 1.1', 'No test touches the module.', ['pysolar/rest.py'],
     [('get_optical_mass_*, get_*_transmittance, get_sky_albedo', 'pysolar/rest.py')], 'runtime monitoring: reference-model oracle and order relations', 'Sampled; effective wavelengths that come out negative are a recorded finding.')
prop('C25', 'REST2 irradiances compose from the transmittances',
     'Direct normal irradiance of a band is its extraterrestrial irradiance (635.4 or 709.7 W/m2) times the product of the six transmittances for the given pressure, gas amounts and turbidity (defaults 1013.25 mbar, 0.35, 0.0002, 5.0, 1.3, 0.6); broadband is the sum of the bands, beam irradiance the projection on the horizontal. '
     'Backscattered diffuse irradiance is the geometric series of reflections between ground (0.15) and sky, and more air, ozone or water never adds light. Four functions that combine diffuse terms are known to raise always.',
     (IN,), 'altitudes 0 to 90, all atmospheres with alpha from 0.7, every prefix or subset of optional arguments', 'No test touches the module.', ['pysolar/rest.py'],
     [('get_direct_normal_irradiance_by_band, get_broadband_direct_normal_irradiance, get_beam_*', 'pysolar/rest.py'), ('get_backscattered_diffuse_irradiance_by_band', 'pysolar/rest.py')],
     'runtime monitoring: reference-model oracle and order relations', 'Sampled.')
prop('C26', 'Both numeric backends agree, can be switched at any time, and numpy is optional',
     'Every public function gives the same result with the math and the numpy backend within 1e-9 (well-conditioned points; a division by zero that math reports as an error may be an infinity in numpy); after any history of switches, redundant ones included, each result is bit for bit, type included, '
     'what a process that only ever used that backend gives. The library works without numpy installed.',
     (CO, HI, IN), 'every sequence of switches interleaved with calls of every public function, and an environment without numpy', 'Tests run all functions in the default backend and never switch in mid-history.',
     ['pysolar/numeric.py', 'pysolar/__init__.py'], [('use_numpy, use_math, where, tm_*', 'pysolar/numeric.py')], 'runtime monitoring: recorded switch histories replayed in reference processes',
     'Sampled histories; ill-conditioned points are recognised by perturbing the arguments and skipped.')
prop('C27', 'Array calls equal scalar calls element by element and leave inputs alone',
     'With the numpy backend the position functions (arrays of places and atmospheres, one instant), the fast functions and direct radiation (arrays of places, altitudes and datetime64 times), and the elementary angle, time and ratio functions accept arrays of any shape and layout, broadcast them, give in each element what the scalar call gives, and never change an input; '
     'a NaN in one element affects no other.',
     (IN, CO), 'all shapes (0-d, empty, broadcast), strides, dtypes, datetime64 units and values', 'The numpy tests print arrays of two or three elements; element values are mostly unasserted.',
     ['pysolar/numeric.py', 'pysolar/solar.py', 'pysolar/radiation.py'], [('numeric.where, tm_*_numpy', 'pysolar/numeric.py'), ('array-safe formulas', 'pysolar/solar.py, radiation.py')],
     'runtime monitoring: element-by-element differential oracle and input snapshots', 'Sampled shapes and values.')
prop('C28', 'Results never depend on earlier calls, and calls have no side effects',
     'The result (or error) of any public function and the warnings it gives are, bit for bit, those it would give as the first call after import, whatever and however often was called before: similar or equal arguments, failed calls, changes made to returned containers. '
     'Calls never change their arguments, public tables or constants, warning filters, numpy error state, random state, environment or standard output.',
     (HI, IN), 'every history of calls, clusters of near-duplicate arguments in particular', 'Each test makes one call on fresh inputs; caches and hidden state need histories.',
     ['pysolar/constants.py', 'pysolar/solar.py', 'pysolar/solartime.py', 'pysolar/util.py'], [('get_aberration_coeffs (lazily filled cache)', 'pysolar/constants.py'), ('stateless functions', 'pysolar/*.py')],
     'runtime monitoring: recorded histories compared with fresh processes; state snapshots', 'Sampled histories.')
prop('C29', 'Concurrent use gives the sequential results',
     'Threads that call the library at the same time, from its very first use, each get bit for bit the results of sequential calls, whatever the interleaving, and so do calls made in the middle of another on the same thread (a signal handler, a finalizer) and calls in a process forked while another thread is inside the library; none of them waits forever. Generators advanced alternately do not influence each other. A thread switching the numeric backend meanwhile changes scalar results by rounding only (1e-9) and causes no errors.',
     (SC, HI), 'every interleaving of two to five threads at source-line or bytecode granularity, with and without concurrent backend switches; every point at which a call can be interrupted by another on its thread, or the process forked', 'Tests are single-threaded.',
     ['pysolar/constants.py', 'pysolar/numeric.py', 'pysolar/simulate.py'], [('lazy cache in get_aberration_coeffs', 'pysolar/constants.py'), ('use_numpy, use_math replacing module globals', 'pysolar/numeric.py')],
     'runtime monitoring: seeded schedule injection with a sequential oracle', 'Hundreds of distinct schedules per run; no exhaustive enumeration.')
prop('C30', 'The type stubs describe the functions that exist',
     'Every function declared in the distributed type stubs can be called as declared: positionally in that order, by those keyword names, or mixed, omitting any parameters declared optional, with the same result each way and of the declared type; every declared module-level value exists with the declared type. "from module import *", as the documentation has it, brings them all.',
     (IN, CO), 'every declared function, argument split and subset of optional parameters', 'Nothing tests the stubs.', ['pysolar/*.pyi', 'pysolar/*.py'], [('stubs', 'pysolar/*.pyi'), ('signatures', 'pysolar/*.py')],
     'runtime monitoring: calls generated from the declared signatures, results checked against declared types', 'Sampled argument values; every declared function.')
prop('C31', 'The Delta T table generator reproduces its input and refuses damaged files',
     'For every well-formed file of consecutive monthly values (any first month, length and white space) the generator script prints Python source whose table holds exactly those months and values to four decimals; it fails for files with a missing, repeated, reordered or not first-of-month entry. Fed with the library\'s own values it reproduces the library\'s table.',
     (IN,), 'all data files', 'Nothing runs the script.', ['util/get_delta_t', 'pysolar/solartime.py'], [('parse_data and the output loop', 'util/get_delta_t')], 'runtime monitoring: round-trip oracle over generated files, with damage injection', 'Sampled files.')
prop('C32', 'The sun moves steadily across every seam of the calendar',
     'Along any trace of equally spaced instants the precise sun moves by 15 degrees per hour times the cosine of its declination (0.12 %) and its speed does not change abruptly, including across years, leap days and time-zone changes; at month boundaries it may step by at most 0.0062 degrees (leap second, Delta T). Altitude rises and falls once a day between 66 degrees '
     'south and north. The fast sun is constant within a UTC minute, advances one minute of rotation per minute, and steps by at most 0.62 degrees at a UTC midnight within a year.',
     (IN, HI), 'all traces: places, steps from 1 s to 1.5 h, boundaries and ordinary stretches', 'Tests check isolated instants; seams show only between neighbours.', ['pysolar/solar.py', 'pysolar/solartime.py'],
     [('get_position', 'pysolar/solar.py'), ('get_julian_solar_day', 'pysolar/solartime.py'), ('get_altitude_fast, get_azimuth_fast', 'pysolar/solar.py')], 'runtime monitoring: trace specification checked online', 'Sampled traces.')

prop('C33', 'The demonstration functions show what the library computes',
     'The solar demonstration prints, for each of the 48 half-hours from the present at which the sun is up over its fixed place and for no other, one row with the UTC time, the altitude, the azimuth and the direct radiation that the functions give for that instant, in ascending order; '
     'the elevation demonstration prints a heading and the standard pressure and temperature at 0, 1000, ... 10000 m, as whole numbers. Neither depends on the process time zone or the backend.',
     (IN, CO), 'every present moment (a day across month, year, leap-second and table ends), process time zone and backend', 'Nothing runs the demonstrations; their output depends on the clock.',
     ['pysolar/solar.py', 'pysolar/elevation.py'], [('solar_test', 'pysolar/solar.py'), ('elevation_test', 'pysolar/elevation.py')],
     'runtime monitoring: printed rows judged against recorded calls, under a faked clock', 'Sampled moments; where the clock cannot be faked the real one is used, with the tolerance of the time elapsed.')
prop('C34', 'An interrupted call, switch or import leaves nothing behind',
     'If a call, a step of a generator, a switch of the backend or the import is cut short at any point by an exception from outside (KeyboardInterrupt, an exception of a signal handler, MemoryError), that exception reaches the caller, public tables, constants, the selected backend and global settings are as before, '
     'and every later call gives bit for bit what it would have given without the interruption (after an interrupted switch or import: once that is repeated).',
     (SC, HI), 'every point of interruption (source line or bytecode), every public function, on first use and later, followed by any calls', 'Tests never interrupt a call; half-filled caches and settings not restored show only afterwards.',
     ['pysolar/constants.py', 'pysolar/numeric.py', 'pysolar/tzinfo_check.py', 'pysolar/simulate.py', 'pysolar/solar.py'],
     [('lazily filled cache in get_aberration_coeffs', 'pysolar/constants.py'), ('use_numpy, use_math replacing module globals', 'pysolar/numeric.py'), ('statelessness of all functions', 'pysolar/*.py')],
     'runtime monitoring: exception injection at traced points, with a differential oracle on the calls that follow', 'About two thousand distinct interruption points per quick run; no exhaustive enumeration.')
prop('C35', 'Results do not depend on how the interpreter runs',
     'Every public function gives bit for bit the same outcome, warnings treated as errors included where it gives none, whatever the optimisation level (-O, -OO), development mode, hash seed, locale, process time zone, current directory, import from an archive, order in which the modules are imported, garbage collector, decimal, locale and numpy print settings, the present date and time, '
     'missing standard streams, and in a thread, a coroutine, an exception handler, under a tracer or a hundred frames below the recursion limit. The import gives no warnings. Every public function, and every error raised for a naive time, can be pickled and copied.',
     (CO, IN), 'every public function in every such configuration', 'The tests run in one configuration.', ['pysolar/*.py'], [('all modules', 'pysolar/*.py'), ('functools.wraps in check_aware_dt', 'pysolar/tzinfo_check.py')],
     'runtime monitoring: differential oracle between interpreter processes', 'Thirty configurations, sampled arguments.')
prop('C36', 'Memory and work per call are bounded, spans are lazy',
     'However many calls are made, with whatever arguments, memory, open files and threads held by the library stay bounded, failed calls included; the work of a call does not grow with the number of calls before it, nor (apart from spans and ranges) without limit with its arguments. A span or range computes only the rows asked for: the work and memory of a row do not depend on the length of the span.',
     (HI, IN), 'every sequence of calls with ever new arguments, every span length', 'Tests make a few calls; leaks and eager computation show only in long runs.', ['pysolar/*.py'],
     [('statelessness of all functions', 'pysolar/*.py'), ('generators', 'pysolar/simulate.py'), ('get_aberration_coeffs', 'pysolar/constants.py')],
     'runtime monitoring: allocation, handle and executed-line counters over long call sequences', 'Runs of 1500 to 3000 calls per function, prolonged when memory grows.')
prop('C37', 'A missing value never comes out as a number',
     'If a numeric argument is NaN, every part of the result that depends on this argument (that is: differs between some other values of it, the rest unchanged) is NaN, or the call raises an exception; likewise no finite number comes out for an infinite angle, latitude, longitude, day or Julian date.',
     (IN,), 'every public function, every numeric argument (positional, keyword, members of the nutation), the other arguments arbitrary, both backends', 'Tests never pass NaN; a comparison with NaN is false, so clamps and day/night switches turn unknown into 0 silently.',
     ['pysolar/*.py'], [('day/night and validity switches', 'pysolar/radiation.py, pysolar/solar.py, pysolar/util.py'), ('limits', 'pysolar/rest.py')],
     'runtime monitoring: NaN injection, with a dependence oracle over recorded calls', 'Sampled; dependence is judged from five other values.')
prop('C38', 'The library acts on nothing outside itself',
     'Importing pysolar or any of its modules, switching backends and calling any public function, whatever the outcome, opens no file but the library\'s own, starts no thread, process or connection, never sleeps, prints nothing (but for the two demonstrations) and changes nothing that programs share: '
     'environment, working directory, umask, open descriptors, signal handlers, locale, decimal and numpy settings, recursion limit, garbage collector, import system, hooks, streams, warning and logging configuration, random states, other modules. This holds whatever those settings were before, while a span is half consumed, and when the interpreter exits.',
     (HI, CO), 'every import order, every call of every public function, failing ones included, with every arrangement of the settings', 'Tests look at results only; what a call does to the rest of the program shows elsewhere, later, and only when the program had arranged it differently.', ['pysolar/*.py'],
     [('use_numpy, use_math, import of numpy', 'pysolar/numeric.py'), ('warnings', 'pysolar/elevation.py'), ('warnings', 'pysolar/solartime.py'), ('generators', 'pysolar/simulate.py'), ('all modules', 'pysolar/*.py')],
     'runtime monitoring: audit hook and snapshots of shared state around every call', 'State of one process and what CPython audits; C code that bypasses both is not seen (pysolar has none).')
prop('C39', 'Numbers count by value, not by type',
     'The result of every public function is the same number (1e-9) or the same refusal whether an argument is given as int, float, numpy integer or float of 32 bits (integers) or 64 bits, 0-dimensional array, or an instance of a subclass of int, float, str, dict, list or datetime; a horizon may be a list, a tuple or an array.',
     (IN,), 'every public function, every argument, one or several arguments at a time, both backends', 'Tests give one type per argument; type tests, truth tests and integer powers break for others.', ['pysolar/*.py'],
     [('all modules', 'pysolar/*.py'), ('get_aerosol_optical_depth', 'pysolar/rest.py'), ('horizon', 'pysolar/simulate.py')],
     'runtime monitoring: metamorphic oracle over recorded calls', 'Sampled values; numpy numbers of 8 and 16 bits and single precision floats (which lose precision by definition) are left out, and the step of a span is int or float.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for i, title, st, over, q, why, files, mech, tech, note in P:
            assert len(title) <= 80, (i, len(title))
            f.write(json.dumps({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': list(over), 'text': q}, 'why_tests_cant': why,
                                'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                                            'observe_at': ['call and return of the public functions'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': './run.py --selftest',
         'checks': [{'property': p[0], 'quick_cmd': f'./run.py {p[0]} --tier quick', 'thorough_cmd': f'./run.py {p[0]} --tier thorough',
                     'evidence_file': f'evidence/{p[0]}.json', 'technique': p[8], 'level': 'exploration',
                     'level_note': p[9] + ' Holds on the executions observed; trusts the reference formulas in /verif/mon.'} for p in P],
         'not_applicable': [],
         'notes': 'No hooks in /repo: every observation is made at the public boundary of the imported library. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
