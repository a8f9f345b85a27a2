"""definitions of planted bugs, second batch (see plant.py)"""
SEEDS = []


def seed(**k):
    SEEDS.append(k)


U = 'import datetime as d\nu = d.timezone.utc\n'

seed(id='c34-table-published-early', property='C34', also=['C29'],
     needs='the very first nutation calculation interrupted (or joined by a second thread) while the polynomial table is being built',
     what_it_breaks='the table of polynomials is published before it is complete and never completed afterwards',
     edits=[('pysolar/constants.py', '''        aberration_coeffs = dict \\
          (
            (name, (lambda a, b, c, d: lambda x: a + b * x + c * x ** 2 + (x ** 3) / d)(*coeffs))
            for name, coeffs in''', '''        aberration_coeffs = {}
        aberration_coeffs.update \\
          (
            (name, (lambda a, b, c, d: lambda x: a + b * x + c * x ** 2 + (x ** 3) / d)(*coeffs))
            for name, coeffs in''')],
     demo=U + '''
import sys
from pysolar import solar, constants
class Stop(BaseException): pass
def tracer(f, e, a):
    if f.f_code.co_filename == constants.__file__ and 'genexpr' in f.f_code.co_name:
        sys.settrace(None)
        raise Stop
    return tracer
sys.settrace(tracer)
try:
    solar.get_nutation(0.1)
except Stop:
    pass
sys.settrace(None)
constants_ok = solar.get_nutation(0.1)
assert set(constants_ok) == {'longitude', 'obliquity'}
''')
seed(id='c34-switch-skipped', property='C34', also=['C26', 'C29'],
     needs='a switch of backends interrupted part way, followed by the same switch again',
     what_it_breaks='use_numpy() announces the new backend first and later calls believe it is in place',
     edits=[('pysolar/numeric.py', '''    globals_import_from('numpy', 'degrees', 'degrees')''', '''    if current_mod == 'numpy' :
        return
    globals()['current_mod'] = 'numpy'
    globals_import_from('numpy', 'degrees', 'degrees')'''),
            ('pysolar/numeric.py', '''    globals()['tm_min'] = tm_min_numpy
    globals()['current_mod'] = 'numpy\'''', '''    globals()['tm_min'] = tm_min_numpy''')],
     demo='''
import pysolar, math
from pysolar import numeric
import numpy
pysolar.use_math()
orig = numeric.globals_import_from
n = [0]
def stop(*a):
    n[0] += 1
    if n[0] == 5:
        raise KeyboardInterrupt
    return orig(*a)
numeric.globals_import_from = stop
try:
    pysolar.use_numpy()
except KeyboardInterrupt:
    pass
numeric.globals_import_from = orig
pysolar.use_numpy()
assert numeric.asin is numpy.arcsin and numeric.where is numpy.where
''')
seed(id='c36-nutation-memo', property='C36', also=['C28'],
     needs='many different instants computed in one process',
     what_it_breaks='every nutation ever computed is kept',
     edits=[('pysolar/solar.py', '''    abcd = constants.nutation_coefficients
    nutation_long = []''', '''    if isinstance(jce, float) and jce in _nutations :
        return dict(_nutations[jce])
    abcd = constants.nutation_coefficients
    nutation_long = []'''),
            ('pysolar/solar.py', '''    nutation = {'longitude' : sum(nutation_long)/36000000.0, 'obliquity' : sum(nutation_oblique)/36000000.0}

    return nutation
#end get_nutation''', '''    nutation = {'longitude' : sum(nutation_long)/36000000.0, 'obliquity' : sum(nutation_oblique)/36000000.0}
    if isinstance(jce, float) :
        _nutations[jce] = dict(nutation)
    return nutation
#end get_nutation

_nutations = {}''')],
     demo=U + '''
import tracemalloc
from pysolar import solar
t = d.datetime(2020, 1, 1, tzinfo=u)
for i in range(20):
    solar.get_altitude(40, 3, t + d.timedelta(minutes=i))
tracemalloc.start()
for i in range(600):
    solar.get_altitude(40, 3, t + d.timedelta(minutes=i))
assert tracemalloc.get_traced_memory()[0] < 60000, tracemalloc.get_traced_memory()
''')
seed(id='c36-eager-range', property='C36', also=['C16'],
     needs='a span of many steps of which only the first few rows are read',
     what_it_breaks='datetime_range builds the whole sequence before yielding its first element',
     edits=[('pysolar/simulate.py', '''        yield start_datetime + dt * n
    #end for''', '''        result.append(start_datetime + dt * n)
    #end for
    yield from result'''),
            ('pysolar/simulate.py', '''    dt = datetime.timedelta(seconds = step)''', '''    dt = datetime.timedelta(seconds = step)
    result = []''')],
     demo=U + '''
import tracemalloc
from pysolar import simulate
tracemalloc.start()
r = simulate.datetime_range(d.datetime(2000, 1, 1, tzinfo=u), d.datetime(2001, 1, 1, tzinfo=u), 1)
next(r)
assert tracemalloc.get_traced_memory()[1] < 1000000, tracemalloc.get_traced_memory()
''')
seed(id='c33-local-clock', property='C33',
     needs='a computer whose local zone is not UTC',
     what_it_breaks='solar_test prints local times labelled UTC',
     edits=[('pysolar/solar.py', 'd = datetime.datetime.now(tz=datetime.timezone.utc)', 'd = datetime.datetime.now().astimezone()')],
     demo=U + '''
import os, time, io, contextlib
os.environ['TZ'] = 'XXX-7'
time.tzset()
from pysolar import solar
b = io.StringIO()
with contextlib.redirect_stdout(b):
    solar.solar_test()
now = d.datetime.now(u)
for line in b.getvalue().splitlines():
    t = d.datetime.strptime(line.split(' UTC ')[0], '%a %b %d %H:%M:%S %Y').replace(tzinfo=u)
    a = solar.get_altitude(42.364908, -71.112828, t)
    assert abs(a - float(line.split(' UTC ')[1].split()[0])) < .1, (line, a)
''')
seed(id='c35-assert-does-work', property='C35', also=['C01'],
     needs='python -O, and an instant after the first entry of the table',
     what_it_breaks='the leap second sum is updated inside an assert',
     edits=[('pysolar/solartime.py', '''        adj += entry[0] + entry[1]
        year += 1''', '''        assert abs(adj := adj + entry[0] + entry[1]) < 1000
        year += 1''')],
     demo='''
import subprocess, sys
s = "import datetime as d; from pysolar import solartime as s; print(s.get_leap_seconds(d.datetime(2010, 5, 1, tzinfo=d.timezone.utc)))"
for o in ([], ['-O']):
    out = subprocess.run([sys.executable] + o + ['-c', s], capture_output=True, text=True).stdout.strip()
    assert out == '34', (o, out)
''')
seed(id='c35-unpicklable', property='C35',
     needs='a function handed to another process (pickled), as in multiprocessing',
     what_it_breaks='the date checked functions lose their identity',
     edits=[('pysolar/tzinfo_check.py', '    @wraps(func)\n', '')],
     demo='''
import pickle
from pysolar import solar, util
assert pickle.loads(pickle.dumps(solar.get_altitude)) is solar.get_altitude
assert util.get_sunrise_time.__name__ == 'get_sunrise_time'
''')
seed(id='c26-before-1970', property='C26',
     needs='an array of datetimes before 1970 (negative time stamps)',
     what_it_breaks='the remainder of a negative number of hours is negative',
     edits=[('pysolar/numeric.py', '''    dh = numpy.array(d, dtype='datetime64[h]')
    dd = numpy.array(d, dtype='datetime64[D]')
    return (dh - dd).astype('int')''', '''    dh = numpy.array(d, dtype='datetime64[h]').astype('int')
    return numpy.fmod(dh, 24).astype('int')''')],
     demo='''
import numpy, datetime as d
from pysolar import numeric
u = d.timezone.utc
for y in (2000, 1969, 1950):
    t = d.datetime(y, 5, 6, 7, 8, tzinfo=u)
    a = numpy.array([t.replace(tzinfo=None)], dtype='datetime64[s]')
    assert numeric.tm_hour(a)[0] == 7 == numeric.tm_hour_math(t) == numeric.tm_hour(t), (y, numeric.tm_hour(a))
''')
seed(id='c19-half-hour-zones', property='C19', also=['C20'],
     needs='a time zone whose offset is not a whole number of hours',
     what_it_breaks='the fraction of the offset is dropped',
     edits=[('pysolar/util.py', 'SHA = utc_offset / 3600 * 15.0 - longitude_deg', 'SHA = utc_offset // 3600 * 15.0 - longitude_deg')],
     demo=U + '''
from pysolar import util
for off in (0, 5, 5.5, 5.75, -3.5):
    tz = d.timezone(d.timedelta(hours=off))
    a = util.get_transit_time(20.0, off * 15.0, d.datetime(2020, 5, 5, 12, tzinfo=tz))
    assert abs((a - d.datetime(2020, 5, 5, 12, tzinfo=tz)).total_seconds()) < 1200, (off, a)
''')
seed(id='c10-position-elevation', property='C10', also=['C08'],
     needs='get_position with an elevation other than zero',
     what_it_breaks='get_position ignores the observer\'s elevation',
     edits=[('pysolar/solar.py', '''    Same as a combination of get_azimuth and get_altitude
    \'\'\'

    topocentric_sun_declination, topocentric_local_hour_angle = \\
        get_topocentric_position(latitude_deg, longitude_deg, when, elevation)''', '''    Same as a combination of get_azimuth and get_altitude
    \'\'\'

    topocentric_sun_declination, topocentric_local_hour_angle = \\
        get_topocentric_position(latitude_deg, longitude_deg, when)''')],
     demo=U + '''
from pysolar import solar
t = d.datetime(2020, 5, 5, 7, tzinfo=u)
az, al = solar.get_position(45.0, 7.0, t, 8000.0)
assert az == solar.get_azimuth(45.0, 7.0, t, 8000.0) and al == solar.get_altitude(45.0, 7.0, t, 8000.0)
''')
seed(id='c19-day-366', property='C19',
     needs='31 December of a leap year',
     what_it_breaks='day 366 is treated as day 365',
     edits=[('pysolar/util.py', '''    TT = math.radians(279.134 + 0.985647 * day) # Time adjustment angle''', '''    TT = math.radians(279.134 + 0.985647 * (day - (day > 365))) # Time adjustment angle''')],
     demo=U + '''
from pysolar import util
t = d.datetime(2020, 12, 30, 12, tzinfo=u)
a = [util.get_transit_time(10.0, 0.0, t + d.timedelta(days=i)).replace(year=2020, month=1, day=1) for i in (0, 1)]
assert 20 < (a[1] - a[0]).total_seconds() < 40, a
''')
seed(id='c27-dusk-cutoff', property='C27',
     needs='an array of altitudes on both sides of the horizon',
     what_it_breaks='one altitude of an array decides about day and night for all',
     edits=[('pysolar/radiation.py', '    is_daytime = (altitude_deg > 0)', "    is_daytime = (altitude_deg > 0) if not hasattr(altitude_deg, 'shape') else (altitude_deg > 0) | (altitude_deg.max() > 80)")],
     demo=U + '''
import numpy
from pysolar import radiation
t = d.datetime(2020, 5, 5, 7, tzinfo=u)
a = radiation.get_radiation_direct(t, numpy.array([-5.0, 85.0]))
assert a[0] == 0, a
''')
seed(id='c04-zone-day', property='C04', also=['C13', 'C14'],
     needs='the scalar math backend and a local date other than the UTC date',
     what_it_breaks='the day of the year is taken from the local calendar',
     edits=[('pysolar/numeric.py', '''def tm_yday_math(d):
    return d.utctimetuple().tm_yday''', '''def tm_yday_math(d):
    return d.timetuple().tm_yday''')],
     demo=U + '''
import pysolar
from pysolar import solar
pysolar.use_math()
t = d.datetime(2020, 12, 31, 23, 30, tzinfo=u)
assert solar.get_altitude_fast(10.0, 170.0, t) == solar.get_altitude_fast(10.0, 170.0, t.astimezone(d.timezone(d.timedelta(hours=12))))
''')
seed(id='c21-even-minutes', property='C21',
     needs='clear_index in an odd minute, compared with extraterrestrial_irrad',
     what_it_breaks='the clearness index is computed for the even minute',
     edits=[('pysolar/util.py', '    EXTR1 = extraterrestrial_irrad(latitude_deg, longitude_deg, when)', '    EXTR1 = extraterrestrial_irrad(latitude_deg, longitude_deg, when.replace(second = 0, microsecond = 0, minute = when.minute // 2 * 2))')],
     demo=U + '''
from pysolar import util
for m in (0, 1, 30, 31):
    t = d.datetime(2020, 5, 5, 10, m, 5, tzinfo=u)
    assert util.clear_index(300.0, 40.0, 10.0, t) == 300.0 / util.extraterrestrial_irrad(40.0, 10.0, t), m
''')
seed(id='c22-overcast-arguments', property='C22',
     needs='a temperature other than the standard one',
     what_it_breaks='the overcast diffuse irradiance ignores the temperature',
     edits=[('pysolar/util.py', '''    DIFOC = ((mean_earth_sun_distance(when)
              )*(DT)*(solar.get_altitude(latitude_deg,longitude_deg, when, elevation,
                                        temperature, pressure)))''', '''    DIFOC = ((mean_earth_sun_distance(when)
              )*(DT)*(solar.get_altitude(latitude_deg,longitude_deg, when, elevation,
                                        pressure = pressure)))''')],
     demo=U + '''
from pysolar import util
t = d.datetime(2020, 5, 5, 6, 0, tzinfo=u)
a = util.diffuse_underovercast(40.0, 0.0, t, 100.0, 230.0, 101325.0)
b = util.diffuse_underovercast(40.0, 0.0, t, 100.0, 310.0, 101325.0)
assert a != b
''')
seed(id='c25-ozone-capped', property='C25',
     needs='an ozone amount above 0.5 atm-cm',
     what_it_breaks='the irradiance stops following the ozone amount',
     edits=[('pysolar/rest.py', '    To = get_ozone_transmittance(band, mo, ozone_atm_cm)\n', '    To = get_ozone_transmittance(band, mo, min(ozone_atm_cm, 0.5))\n')],
     demo='''
from pysolar import rest
a = rest.get_direct_normal_irradiance_by_band('high-frequency', 40.0, ozone_atm_cm=0.55)
b = rest.get_direct_normal_irradiance_by_band('high-frequency', 40.0, ozone_atm_cm=0.60)
assert a != b
''')
seed(id='c11-high-sun', property='C11', also=['C10'],
     needs='the sun above 80 degrees',
     what_it_breaks='refraction stops with a jump at 80 degrees',
     edits=[('pysolar/solar.py', '    a = pressure * 2.830 * 1.02\n', '    a = pressure * 2.830 * 1.02 * math.where(tea < 80.0, 1.0, 0.0)\n')],
     demo='''
from pysolar import solar
a, b = (solar.get_refraction_correction(101325.0, 288.15, x) for x in (79.99, 80.01))
assert abs(a - b) < 1e-4, (a, b)
''')
seed(id='c16-step-rounded', property='C16',
     needs='a step that is not a whole number of seconds',
     what_it_breaks='the fraction of a second of the step is lost',
     edits=[('pysolar/simulate.py', '    dt = datetime.timedelta(seconds = step)', '    dt = datetime.timedelta(seconds = round(step))')],
     demo=U + '''
from pysolar import simulate
t = d.datetime(2020, 5, 5, tzinfo=u)
r = list(simulate.datetime_range(t, t + d.timedelta(minutes=1), 1/32))
assert r[-1] == t + d.timedelta(seconds=1.875) * (len(r) - 1), r[-1]
''')
seed(id='c02-month-rounded', property='C02', also=['C32', 'C08'],
     needs='the last second of a month in which the table changes, with microseconds set',
     what_it_breaks='the month of Delta T is rounded to the nearest second',
     edits=[('pysolar/solartime.py', '''    "returns a suitable value for delta_t for the given datetime."
    when = when.utctimetuple()''', '''    "returns a suitable value for delta_t for the given datetime."
    when = (when + datetime.timedelta(microseconds = when.microsecond)).utctimetuple()''')],
     demo=U + '''
from pysolar import solartime as s
t = d.datetime(2001, 6, 30, 23, 59, 59, 600000, tzinfo=u)
assert s.get_delta_t(t) == s.get_delta_t(t.replace(microsecond=0)), s.get_delta_t(t)
''')
seed(id='c30-stub-default', property='C30',
     needs='a type checker reading the stub',
     what_it_breaks='the stub no longer allows a documented keyword',
     edits=[('pysolar/elevation.pyi', 'Hb:float = ..., R:float', 'R:float')],
     demo='''
import ast, inspect
from pysolar import elevation
for f in ast.parse(open('pysolar/elevation.pyi').read()).body:
    if isinstance(f, ast.FunctionDef):
        assert [a.arg for a in f.args.args] == list(inspect.signature(getattr(elevation, f.name)).parameters), f.name
''')
seed(id='c18-base-height', property='C18',
     needs='a layer with a base height (Hb) above zero',
     what_it_breaks='the lapse is taken from sea level instead of the base of the layer when above the tropopause',
     edits=[('pysolar/elevation.py', '        Ps * (Ts / (Ts + Tl * (h - Hb))) ** ((g * M) / (R * Tl))', '        Ps * (Ts / (Ts + Tl * (h - Hb))) ** ((g * M) / (R * Tl)) if Hb <= h else Ps')],
     demo='''
from pysolar import elevation as e
assert e.get_pressure_with_elevation(-300.0, Hb=0.0) > 101325
assert e.get_pressure_with_elevation(900.0, Hb=1000.0) > 101325
''')
seed(id='c16-wall-span', property='C16',
     needs='start and end in different time zones',
     what_it_breaks='the span is measured between wall clocks instead of instants',
     edits=[('pysolar/simulate.py', '    span = end_datetime - start_datetime\n', '    span = end_datetime.replace(tzinfo=None) - start_datetime.replace(tzinfo=None)\n')],
     demo='''
import datetime as d
from pysolar import simulate
z = d.timezone(d.timedelta(hours=-5))
a = d.datetime(2020, 1, 1, tzinfo=d.timezone.utc)
e = (a + d.timedelta(hours=3)).astimezone(z)
assert len(list(simulate.datetime_range(a, e, 60))) == 3
''')
N = 'import math\nnan = float("nan")\n'
seed(id='c37-forward-clamped', property='C37',
     needs='an unknown (NaN) altitude',
     what_it_breaks='a limit that never applies to known altitudes turns an unknown one into 0',
     edits=[('pysolar/rest.py', '    return 1 - math.e ** (-0.6931 - 1.8326 * math.cos(math.radians(Z)))', '    return max(0.0, 1 - math.e ** (-0.6931 - 1.8326 * math.cos(math.radians(Z))))')],
     demo=N + '''
from pysolar import rest
assert math.isnan(rest.get_aerosol_forward_scatterance_factor(nan))
''')
seed(id='c37-elevation-clamped', property='C37',
     needs='an unknown (NaN) elevation given to one of the precise solar functions',
     what_it_breaks='the observer of unknown elevation is put at the centre of the Earth',
     edits=[('pysolar/solar.py', '    return 0.99664719 * math.sin(flattened_latitude_rad) + (elevation * math.sin', '    return 0.99664719 * math.sin(flattened_latitude_rad) + (math.where(elevation > -constants.earth_radius, elevation, -constants.earth_radius) * math.sin')],
     demo=N + '''
from pysolar import solar
assert math.isnan(solar.get_projected_axial_distance(nan, 45.0))
''')
seed(id='c35-present-year', property='C35',
     needs='a computer whose clock is years behind',
     what_it_breaks='leap seconds after the present year of the computer are not counted',
     edits=[('pysolar/solartime.py', '        if year > when.tm_year :\n', '        if year > min(when.tm_year, time.gmtime().tm_year + 1) : # nothing is announced earlier\n')],
     demo=U + '''
import time
from pysolar import solartime
t = d.datetime(2020, 1, 1, tzinfo=u)
a = solartime.get_leap_seconds(t)
real = time.gmtime
time.gmtime = lambda *x: real(*x) if x else real(946684800)
assert solartime.get_leap_seconds(t) == a == 37
''')
seed(id='c38-gc-resumed', property='C38',
     needs='a program that has switched the garbage collector off',
     what_it_breaks='the collector, paused while the terms of the nutation are summed, is on afterwards whatever it was before',
     edits=[('pysolar/solar.py', '    nutation_long = []\n    nutation_oblique = []\n', '    gc.disable() # nothing to collect here\n    nutation_long, nutation_oblique = [], []\n'),
            ('pysolar/solar.py', "    # 36000000 scales from 0.0001 arcseconds to degrees\n    nutation = {", "    gc.enable()\n    # 36000000 scales from 0.0001 arcseconds to degrees\n    nutation = {"),
            ('pysolar/solar.py', 'import datetime\nfrom . import constants\n', 'import datetime, gc\nfrom . import constants\n')],
     demo='''
import gc
from pysolar import solar
gc.disable()
solar.get_nutation(0.1)
assert not gc.isenabled()
''')
seed(id='c38-span-warnings', property='C38',
     needs='a simulation that is under way while the program does other things',
     what_it_breaks='warnings are off for the whole program between the rows of a simulation',
     edits=[('pysolar/simulate.py', '''    for time in datetime_range(start_datetime, end_datetime, step_minutes) :
        alt = solar''', '''    catcher = warnings.catch_warnings()
    times = datetime_range(start_datetime, end_datetime, step_minutes)
    with catcher :
      warnings.simplefilter('ignore') # about leap seconds, once per row
      for time in times :
        alt = solar'''), ('pysolar/simulate.py', 'import datetime\nfrom . import constants', 'import datetime, warnings\nfrom . import constants')],
     demo=U + '''
import warnings
from pysolar import simulate
warnings.simplefilter('error')
a = d.datetime(2020, 6, 1, 12, tzinfo=u)
rows = simulate.simulate_span(40, 10, [0] * 361, a, a + d.timedelta(hours=3), 60)
next(rows)
try:
    warnings.warn('seen?')
    raise SystemExit(1)
except UserWarning:
    pass
assert len(list(rows)) == 2
''')
seed(id='c38-captured', property='C38',
     needs='an elevation above the limit of the formula',
     what_it_breaks='every such call adds a handler to the logger of the warnings of the whole program',
     edits=[('pysolar/elevation.py', '    if h > 11000.0 :\n        warnings.warn', '    if h > 11000.0 :\n        logging.getLogger("py.warnings").addHandler(logging.NullHandler())\n        warnings.warn'),
            ('pysolar/elevation.py', 'import warnings\n', 'import logging, warnings\n')],
     demo='''
import logging, warnings
warnings.simplefilter('ignore')
from pysolar import elevation
elevation.get_pressure_with_elevation(12000.0)
assert not logging.getLogger('py.warnings').handlers
''')
seed(id='c39-exact-fraction', property='C39',
     needs='a julian day given as a numpy whole number',
     what_it_breaks='whole days are converted by an exact ratio that takes the float for anything else',
     edits=[('pysolar/solartime.py', 'def get_julian_century(julian_day):\n    return (julian_day - 2451545.0) / 36525.0', 'def get_julian_century(julian_day):\n    return (julian_day - 2451545.0) / 36525.0 if isinstance(julian_day, (int, float)) or hasattr(julian_day, "__len__") else (float(julian_day) - 2451545) // 1 / 36525.0 + (julian_day % 1 - .5) / 36525.0')],
     demo='''
import numpy
from pysolar import solartime
assert abs(solartime.get_julian_century(numpy.int64(2455000)) - solartime.get_julian_century(2455000)) < 1e-9
''')
seed(id='c39-horizon-truth', property='C39',
     needs='a horizon that is a numpy array',
     what_it_breaks='an empty horizon is made to mean a flat one, by asking for the truth of it',
     edits=[('pysolar/simulate.py', '    alt_zero = 380\n', '    alt_zero, horizon = 380, horizon or [0] * 361\n')],
     demo=U + '''
import numpy
from pysolar import simulate
a = d.datetime(2020, 6, 1, 12, tzinfo=u)
rows = [list(simulate.simulate_span(40, 10, h, a, a + d.timedelta(hours=3), 60)) for h in ([5.0] * 361, numpy.array([5.0] * 361))]
assert rows[0] == rows[1]
''')
seed(id='c39-type-of-elevation', property='C39',
     needs='an elevation given as a numpy number',
     what_it_breaks='single elevations are recognised by being int or float',
     edits=[('pysolar/solar.py', '    return math.cos(flattened_latitude_rad) + (elevation * math.cos(latitude_rad) / constants.earth_radius)',
             '    return math.cos(flattened_latitude_rad) + ((elevation if isinstance(elevation, (int, float)) or hasattr(elevation, "shape") and elevation.shape else 0) * math.cos(latitude_rad) / constants.earth_radius)')],
     demo='''
import numpy
from pysolar import solar
assert solar.get_projected_radial_distance(numpy.int64(8000), 10.0) == solar.get_projected_radial_distance(8000, 10.0)
''')
