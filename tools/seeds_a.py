"""definitions of planted bugs (see plant.py)"""
SEEDS = []


def seed(**k):
    SEEDS.append(k)


seed(id='c01-local-month', property='C01',
     needs='an aware datetime in a zone other than UTC within hours of a leap second month boundary',
     what_it_breaks='leap seconds are looked up by the local month',
     edits=[('pysolar/solartime.py', '    "returns adjustment to be added to UTC at the specified datetime to produce TAI."\n    when = when.utctimetuple()',
             '    "returns adjustment to be added to UTC at the specified datetime to produce TAI."\n    when = when.timetuple()')],
     demo='''
import datetime as d
from pysolar import solartime as s
a = d.datetime(2016, 12, 31, 23, 30, tzinfo=d.timezone.utc)
b = a.astimezone(d.timezone(d.timedelta(hours=5)))
assert s.get_leap_seconds(a) == s.get_leap_seconds(b) == 36, (s.get_leap_seconds(a), s.get_leap_seconds(b))
''')
seed(id='c02-first-january', property='C02',
     needs='an instant in January 1973, the month before the table starts',
     what_it_breaks='the month index of the first year wraps to the last entry',
     edits=[('pysolar/solartime.py', '        month = max(0, month - delta_t_base_month) + 1', '        month = month - delta_t_base_month + 1')],
     demo='''
import datetime as d
from pysolar import solartime as s
u = d.timezone.utc
a, b = s.get_delta_t(d.datetime(1973, 1, 20, tzinfo=u)), s.get_delta_t(d.datetime(1972, 12, 20, tzinfo=u))
assert a == b, (a, b)
''')
seed(id='c28-deltat-memo', property='C28', also=['C02'],
     needs='a call for November of a year followed directly by one for January of the next (colliding memo key)',
     what_it_breaks='get_delta_t remembers the last month under a key that is not unique',
     edits=[('pysolar/solartime.py', '''    return \\
        delta_t[year - delta_t_base_year][month - 1]
          # don't bother doing any fancy interpolation
#end get_delta_t''', '''    # consecutive calls mostly ask for the same month
    key = year * 10 + month
    if _last_delta_t[0] != key :
        _last_delta_t[:] = [key, delta_t[year - delta_t_base_year][month - 1]]
          # don't bother doing any fancy interpolation
    #end if
    return _last_delta_t[1]
#end get_delta_t

_last_delta_t = [None, None]''')],
     demo='''
import datetime as d
from pysolar import solartime as s
u = d.timezone.utc
want = s.get_delta_t(d.datetime(2001, 1, 5, tzinfo=u))
s.get_delta_t(d.datetime(2000, 11, 5, tzinfo=u))
got = s.get_delta_t(d.datetime(2001, 1, 5, tzinfo=u))
s.get_delta_t(d.datetime(2010, 11, 5, tzinfo=u))
third = s.get_delta_t(d.datetime(2011, 1, 5, tzinfo=u))
assert got == want == 64.0908, (got, want)
assert third != s.get_delta_t(d.datetime(2010, 11, 5, tzinfo=u))
''')
seed(id='c29-nutation-buffers', property='C29',
     needs='two threads inside get_nutation at the same time',
     what_it_breaks='the work lists of get_nutation are shared between threads',
     edits=[('pysolar/solar.py', '''    nutation_long = []
    nutation_oblique = []
    p = constants''', '''    nutation_long, nutation_oblique = _nutation_work    # reused, saves two allocations per call
    del nutation_long[:], nutation_oblique[:]
    p = constants'''),
            ('pysolar/solar.py', 'def get_nutation(jce):', '_nutation_work = [], []\n\ndef get_nutation(jce):')],
     demo='''
import sys, threading, datetime as d
from pysolar import solar
w = [d.datetime(2020, 1, 1, tzinfo=d.timezone.utc) + d.timedelta(days=1000 * k) for k in range(4)]
want = [solar.get_position(10, 20, t) for t in w]
sys.setswitchinterval(1e-6)
bad = []
def go(k):
    for _ in range(150):
        try:
            r = solar.get_position(10, 20, w[k])
        except Exception as e:
            r = e
        if r != want[k]:
            bad.append(r)
ts = [threading.Thread(target=go, args=(k,)) for k in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, (len(bad), bad[0])
''')
seed(id='c07-below-sea', property='C07',
     needs='an observer below sea level',
     what_it_breaks='elevations below 0 count as 0 in the axial distance only',
     edits=[('pysolar/solar.py', 'return 0.99664719 * math.sin(flattened_latitude_rad) + (elevation * math.sin(latitude_rad) / constants.earth_radius)',
             'return 0.99664719 * math.sin(flattened_latitude_rad) + (math.where(elevation > 0, elevation, 0) * math.sin(latitude_rad) / constants.earth_radius)')],
     demo='''
from pysolar import solar
f = solar.get_projected_axial_distance
a, b = f(400., 31.5) - f(0., 31.5), f(0., 31.5) - f(-400., 31.5)
assert abs(a - b) < 1e-9, (a, b)
''')
seed(id='c27-ratio-in-place', property='C27',
     needs='array arguments that are used again after the call',
     what_it_breaks='diffuse_ratio divides the caller\'s array in place',
     edits=[('pysolar/util.py', '    K = DIFF_data/ghi_data\n\n    return K', '    K = DIFF_data\n    K /= ghi_data\n\n    return K')],
     demo='''
import numpy as n
from pysolar import util
a = n.array([100., 50.]); b = n.array([400., 100.])
util.diffuse_ratio(a, b)
assert a.tolist() == [100., 50.], a
''')
seed(id='c26-tm-min-stays', property='C26',
     needs='math backend selected after the numpy backend',
     what_it_breaks='use_math() leaves numpy\'s tm_min in place, results are numpy scalars',
     edits=[('pysolar/numeric.py', "    globals()['tm_hour'] = tm_hour_math\n    globals()['tm_min'] = tm_min_math\n", "    globals()['tm_hour'] = tm_hour_math\n")],
     demo='''
import datetime as d, pysolar
from pysolar import solar
pysolar.use_math()
r = solar.get_solar_time(10., d.datetime(2020, 1, 1, 3, 4, tzinfo=d.timezone.utc))
assert type(r) is float, type(r)
''')
seed(id='c16-wall-span', property='C16',
     needs='start and end in different time zones',
     what_it_breaks='the span is measured between wall clocks instead of instants',
     edits=[('pysolar/simulate.py', '    span = end_datetime - start_datetime', '    span = end_datetime.replace(tzinfo=None) - start_datetime.replace(tzinfo=None)')],
     demo='''
import datetime as d
from pysolar import simulate
z = d.timezone(d.timedelta(hours=-5))
a = d.datetime(2020, 1, 1, tzinfo=d.timezone.utc)
e = (a + d.timedelta(hours=3)).astimezone(z)
assert len(list(simulate.datetime_range(a, e, 60))) == 3
''')
seed(id='c17-shade-equal', property='C17',
     needs='a sun exactly at the rounded horizon threshold',
     what_it_breaks='a horizon entry equal to the threshold shades the sun',
     edits=[('pysolar/simulate.py', '        if shade < alt_zero', '        if shade <= alt_zero')],
     demo='''
import datetime as d, math
from pysolar import simulate, solar
a = d.datetime(2020, 6, 1, 12, tzinfo=d.timezone.utc)
alt = solar.get_altitude(50, 0, a)
h = [380 - round(380 * math.sin(math.radians(alt)))] * 361
r = list(simulate.simulate_span(50, 0, h, a, a + d.timedelta(minutes=1), 1))
assert r[0][3] > 100, r
''')
seed(id='c19-clamped-polar', property='C19',
     needs='polar day or polar night',
     what_it_breaks='polar day and night give times instead of ValueError',
     edits=[('pysolar/util.py', '''            math.acos(
                math.cos(math.radians(90.833))
            /
                (
                    math.cos(math.radians(latitude_deg))
                *
                    math.cos(math.radians(decl))
                )
            -
                math.tan(math.radians(latitude_deg))
            *
                math.tan(math.radians(decl))
            )
''', '''            math.acos(min(1.0, max(-1.0,
                math.cos(math.radians(90.833))
            /
                (
                    math.cos(math.radians(latitude_deg))
                *
                    math.cos(math.radians(decl))
                )
            -
                math.tan(math.radians(latitude_deg))
            *
                math.tan(math.radians(decl))
            )))
''')],
     demo='''
import datetime as d
from pysolar import util
try:
    r = util.get_sunrise_time(75., 20., d.datetime(2020, 6, 20, tzinfo=d.timezone.utc))
except ValueError:
    raise SystemExit(0)
raise SystemExit('polar day: ' + str(r))
''')
seed(id='c04-extraterrestrial-local-day', property='C04', also=['C21'],
     needs='a local date that differs from the UTC date',
     what_it_breaks='extraterrestrial_irrad takes the day of the year from the local calendar',
     edits=[('pysolar/util.py', "    day = when.utctimetuple().tm_yday\n    ab = ", "    day = when.timetuple().tm_yday\n    ab = ")],
     demo='''
import datetime as d
from pysolar import util
a = d.datetime(2020, 3, 1, 20, tzinfo=d.timezone.utc)
b = a.astimezone(d.timezone(d.timedelta(hours=9)))
x, y = util.extraterrestrial_irrad(10., 300., a), util.extraterrestrial_irrad(10., 300., b)
assert abs(x - y) < 1e-9, (x, y)
''')
seed(id='c31-repeat-accepted', property='C31',
     needs='a data file in which one month is given twice with the same value',
     what_it_breaks='repeated lines are dropped silently where the generator must refuse them',
     edits=[('util/get_delta_t', '    for line in data.split("\\n") :', '    for line in dict.fromkeys(data.split("\\n")) :')],
     demo='''
import subprocess, sys, tempfile, os
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, 'd')
    open(f, 'w').write('2000 1 1 60.0\\n2000 2 1 60.1\\n2000 2 1 60.1\\n2000 3 1 60.3\\n')
    r = subprocess.run([sys.executable, 'util/get_delta_t', f], capture_output=True)
    assert r.returncode != 0, 'repeat accepted'
''')
seed(id='c24-c4-digits', property='C24',
     needs='the infrared band with much water',
     what_it_breaks='transposed digits in a water vapour coefficient',
     edits=[('pysolar/rest.py', '(1 + 0.44907 * w + 0.75425 * w ** 2)', '(1 + 0.44907 * w + 0.75452 * w ** 2)')],
     demo='''
from pysolar import rest
w = 3.0
c4 = w * (0.70992 - 0.23155 * w + 0.096514 * w ** 2) / (1 + 0.44907 * w + 0.75425 * w ** 2)
r = rest.get_water_vapor_transmittance_coefficients("low-frequency", w)[4]
assert abs(r - c4) < 1e-9, (r, c4)
''')
seed(id='c05-checked-ids', property='C05',
     needs='a naive datetime that reuses the address of an aware one that was checked earlier',
     what_it_breaks='the time zone check is skipped for object ids seen before',
     edits=[('pysolar/tzinfo_check.py', "          if not hasattr(dt, 'shape'):   # don't", "          if id(dt) not in checked and not hasattr(dt, 'shape'):   # don't"),
            ('pysolar/tzinfo_check.py', '''              raise NoTimeZoneInfoError(argname, dt)
      return func(*args, **kwargs)''', '''              raise NoTimeZoneInfoError(argname, dt)
            checked.add(id(dt))    # one simulation passes the same object many times
      return func(*args, **kwargs)'''),
            ('pysolar/tzinfo_check.py', '''def check_aware_dt(*argnames):
''', '''checked = set()


def check_aware_dt(*argnames):
''')],
     demo='''
import datetime as d
from pysolar import solartime as s, util
for k in range(2000):
    t = d.datetime(2020, 1, 1, 0, 0, 0, k, tzinfo=d.timezone.utc)
    util.declination_degree(t)
    del t
    n = d.datetime(2020, 1, 1, 0, 0, 0, k)
    try:
        util.declination_degree(n)
    except ValueError:
        continue
    raise SystemExit('naive accepted')
''')
seed(id='c28-nutation-shared', property='C28',
     needs='a caller that changes the returned nutation and asks for the same instant again',
     what_it_breaks='get_nutation returns its memo instead of a copy',
     edits=[('pysolar/solar.py', '''    nutation = {'longitude' : sum(nutation_long)/36000000.0, 'obliquity' : sum(nutation_oblique)/36000000.0}

    return nutation
''', '''    nutation = _nutations[jce] = {'longitude' : sum(nutation_long)/36000000.0, 'obliquity' : sum(nutation_oblique)/36000000.0}

    return nutation
'''), ('pysolar/solar.py', '''def get_nutation(jce):
    abcd = constants.nutation_coefficients
''', '''_nutations = {}

def get_nutation(jce):
    if jce in _nutations:
        return _nutations[jce]
    if len(_nutations) > 100:
        _nutations.clear()
    abcd = constants.nutation_coefficients
''')],
     demo='''
from pysolar import solar
n = solar.get_nutation(0.1)
w = dict(n)
n['longitude'] += 1
assert solar.get_nutation(0.1) == w
''')
seed(id='c18-warn-inclusive', property='C18',
     needs='an elevation of exactly 11000 m',
     what_it_breaks='the warning is given at the documented limit itself',
     edits=[('pysolar/elevation.py', '    if h > 11000.0 :', '    if h >= 11000.0 :')],
     demo='''
import warnings
from pysolar import elevation
with warnings.catch_warnings():
    warnings.simplefilter('error')
    elevation.get_pressure_with_elevation(11000.0)
''')
seed(id='c04-minute-local', property='C04', also=['C13', 'C26'],
     needs='the math backend and a UTC offset that is not a whole number of hours',
     what_it_breaks='the math backend takes the minute from the local clock',
     edits=[('pysolar/numeric.py', 'def tm_min_math(d):\n    return d.utctimetuple().tm_min', 'def tm_min_math(d):\n    return d.minute    # same in every zone')],
     demo='''
import datetime as d, pysolar
from pysolar import solar
pysolar.use_math()
a = d.datetime(2020, 3, 1, 20, 5, tzinfo=d.timezone.utc)
b = a.astimezone(d.timezone(d.timedelta(minutes=330)))
x, y = solar.get_solar_time(10., a), solar.get_solar_time(10., b)
assert abs(x - y) < 1e-9, (x, y)
''')
seed(id='c30-stub-order', property='C30',
     needs='a caller who follows the stub positionally',
     what_it_breaks='the stub declares temperature and pressure in the wrong order',
     edits=[('pysolar/util.pyi', 'def solarelevation_function_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...)',
             'def solarelevation_function_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., pressure:float = ..., temperature:float = ...)')],
     demo='''
import ast, inspect
from pysolar import util
for f in ast.parse(open('pysolar/util.pyi').read()).body:
    if isinstance(f, ast.FunctionDef):
        a = [x.arg for x in f.args.args]
        b = list(inspect.signature(getattr(util, f.name)).parameters)
        assert a == b, (f.name, a, b)
''')
seed(id='c06-far-term', property='C06',
     needs='an instant thousands of years from 2000',
     what_it_breaks='a coefficient of the cubic longitude series has transposed digits',
     edits=[('pysolar/constants.py', '            (35,0,0),\n            (17,5.49', '            (53,0,0),\n            (17,5.49')],
     demo='''
from pysolar import solar
import math
jme = 6.5
got = solar.get_heliocentric_longitude(jme)
from pysolar import constants as c
assert abs(got - 150.26299988571554) < 1e-9, got
''')
seed(id='c25-beam-arguments', property='C25',
     needs='ozone and NO2 amounts other than the defaults, given to the broadband beam',
     what_it_breaks='ozone and NO2 change places on the way to the direct normal irradiance',
     edits=[('pysolar/rest.py', '    Ebn = get_broadband_direct_normal_irradiance(altitude_deg, pressure_millibars, ozone_atm_cm, nitrogen_atm_cm, precipitable_water_cm, turbidity_alpha, turbidity_beta)',
             '    Ebn = get_broadband_direct_normal_irradiance(altitude_deg, pressure_millibars, ozone_atm_cm, 0.0002, precipitable_water_cm, turbidity_alpha, turbidity_beta)')],
     demo='''
import math
from pysolar import rest
a = rest.get_beam_broadband_irradiance(40., nitrogen_atm_cm=0.01)
b = rest.get_broadband_direct_normal_irradiance(40., nitrogen_atm_cm=0.01) * math.sin(math.radians(40))
assert abs(a - b) < 1e-6, (a, b)
''')
seed(id='c26-numpy-required', property='C26',
     needs='an installation without numpy',
     what_it_breaks='util imports numpy unconditionally',
     edits=[('pysolar/util.py', '    K = DIFF_data/ghi_data\n\n    return K', '    import numpy\n    K = numpy.true_divide(DIFF_data, ghi_data)\n\n    return K')],
     demo='''
import sys
sys.modules['numpy'] = None
from pysolar import util
assert util.diffuse_ratio(1., 4.) == .25
''')
seed(id='c12-orientation-fold', property='C12',
     needs='a slope orientation beyond half a turn',
     what_it_breaks='the difference of azimuths is clipped to half a turn',
     edits=[('pysolar/solar.py', '    so_rad = math.radians(slope_orientation)\n', '    so_rad = max(-math.pi, min(math.pi, math.radians(slope_orientation)))\n')],
     demo='''
from pysolar import solar
a, b = solar.get_incidence_angle(40., 30., -100., 80.), solar.get_incidence_angle(40., 30., 260., 80.)
assert abs(a - b) < 1e-9, (a, b)
''')
seed(id='c03-whole-microseconds', property='C03',
     needs='instants with a fraction of a second before 1970',
     what_it_breaks='fractions of a second before 1970 are rounded towards zero',
     edits=[('pysolar/solartime.py', '''                (when.timestamp() + get_leap_seconds(when) + tt_offset)
            /
                seconds_per_day
''', '''                ((when.timestamp() if when.year >= 1970 else int(when.timestamp())) + get_leap_seconds(when) + tt_offset)
            /
                seconds_per_day
''')],
     demo='''
import datetime as d
from pysolar import solartime as s
a = d.datetime(1950, 1, 1, 0, 0, 0, 900000, tzinfo=d.timezone.utc)
x = (s.get_julian_ephemeris_day(a) - s.get_julian_solar_day(a)) * 86400
assert abs(x - s.get_delta_t(a)) < 1e-3, x
''')
