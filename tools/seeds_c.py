"""definitions of planted bugs, third batch (see plant.py)"""
SEEDS = []


def seed(**k):
    SEEDS.append(k)


U = 'import datetime as d\nu = d.timezone.utc\n'

seed(id='c07-parallax-atan', property='C07',
     needs='a sun within a few arc seconds of the celestial pole as seen from the centre of the earth',
     what_it_breaks='the parallax in right ascension is taken from a quotient, losing its quadrant',
     edits=[('pysolar/solar.py', '    parallax = math.atan2(a, b)\n', '    parallax = math.atan(a / b)\n')],
     demo='''
from pysolar import solar
p = solar.get_parallax_sun_right_ascension(1.0, .0024, 10.0, 89.9999)
import math
a, b = -math.sin(math.radians(.0024)) * math.sin(math.radians(10)), math.cos(math.radians(89.9999)) - math.sin(math.radians(.0024)) * math.cos(math.radians(10))
assert abs(p - math.degrees(math.atan2(a, b))) < 1e-9
''')
seed(id='c21-sc-zero', property='C21',
     needs='a solar constant of exactly 0',
     what_it_breaks='a solar constant of 0 is taken for one left out',
     edits=[('pysolar/util.py', '    day = when.utctimetuple().tm_yday\n    ab =', '    day, SC = when.utctimetuple().tm_yday, SC or SC_default\n    ab =')],
     demo=U + '''
from pysolar import util
assert util.extraterrestrial_irrad(40, 10, d.datetime(2020, 6, 1, 12, tzinfo=u), 0) == 0
''')
seed(id='c22-tl-zero', property='C22',
     needs='a Linke turbidity of exactly 0',
     what_it_breaks='a turbidity of 0 is taken for one left out',
     edits=[('pysolar/util.py', '    return ((-21.657) + (41.752 * (TL)) + (0.51905 * (TL) * (TL)))', '    TL = TL or TL_default\n    return ((-21.657) + (41.752 * TL) + (0.51905 * TL * TL))')],
     demo='''
from pysolar import util
assert abs(util.diffuse_transmittance(0) + 21.657) < 1e-9
''')
seed(id='c25-clean-air', property='C25', also=['C24'],
     needs='a turbidity beta of exactly 0 (no aerosol)',
     what_it_breaks='a turbidity of 0 is taken for one left out',
     edits=[('pysolar/rest.py', '    ma = get_optical_mass_aerosol(altitude_deg)\n    mo = get_optical_mass_ozone(altitude_deg)\n    mR = get_optical_mass_rayleigh(altitude_deg, pressure_millibars)\n    mRprime = mR  # get_optical_mass_rayleigh() has corrected it for pressure\n',
             '    turbidity_beta = turbidity_beta or 0.6\n    ma = get_optical_mass_aerosol(altitude_deg)\n    mo = get_optical_mass_ozone(altitude_deg)\n    mR = get_optical_mass_rayleigh(altitude_deg, pressure_millibars)\n    mRprime = mR  # get_optical_mass_rayleigh() has corrected it for pressure\n')],
     demo='''
from pysolar import rest
a, b = (rest.get_direct_normal_irradiance_by_band('high-frequency', 45., turbidity_beta=x) for x in (0., 1e-12))
assert abs(a - b) < 1e-3
''')
seed(id='c25-dry-air', property='C25', also=['C24'],
     needs='no water vapour at all',
     what_it_breaks='air without water vapour is taken for one with the default amount',
     edits=[('pysolar/rest.py', '    Tw = get_water_vapor_transmittance(band, mw, precipitable_water_cm)\n', '    Tw = get_water_vapor_transmittance(band, mw, precipitable_water_cm or 5.0)\n')],
     demo='''
from pysolar import rest
a, b = (rest.get_direct_normal_irradiance_by_band('low-frequency', 45., precipitable_water_cm=x) for x in (0., 1e-12))
assert abs(a - b) < 1e-3
''')
seed(id='c05-signature-by-name', property='C05',
     needs='two decorated functions of the same name in different places with their parameters in another order',
     what_it_breaks='the inspected signatures are kept by the name of the function',
     edits=[('pysolar/tzinfo_check.py', '        if (argname in full.args or\n            argname in full.kwonlyargs):\n', '        full = _specs.setdefault(func.__qualname__, full)\n        if argname in full.args or argname in full.kwonlyargs:\n'),
            ('pysolar/tzinfo_check.py', 'def check_aware_dt(*argnames):\n', '_specs = {}\n\n\ndef check_aware_dt(*argnames):\n')],
     demo=U + '''
from pysolar.tzinfo_check import check_aware_dt
def make(flip):
    if flip:
        @check_aware_dt('when')
        def f(x, when): return 1
    else:
        @check_aware_dt('when')
        def f(when, x): return 1
    return f
t = d.datetime(2020, 1, 1, tzinfo=u)
assert make(False)(t, 5) == 1
assert make(True)(5, t) == 1
''')
seed(id='c05-keyword-only-varargs', property='C05',
     needs='a decorated function with variable positional arguments and a keyword-only time',
     what_it_breaks='keyword-only parameters are looked up by position among the arguments',
     edits=[('pysolar/tzinfo_check.py', '            dt = args[full.args.index(argname)]\n', '            dt = args[(full.args + full.kwonlyargs).index(argname)]\n')],
     demo=U + '''
from pysolar.tzinfo_check import check_aware_dt
@check_aware_dt('when')
def f(*places, when): return len(places)
assert f(1, 2, 3, when=d.datetime(2020, 1, 1, tzinfo=u)) == 3
''')
seed(id='c05-defaults-unchecked', property='C05',
     needs='a time given by keyword that equals the default of the parameter',
     what_it_breaks='keyword values equal to the default of the parameter are not checked',
     edits=[('pysolar/tzinfo_check.py', '            dt = kwargs[argname]\n', '            dt = kwargs[argname]\n            if (full.kwonlydefaults or {}).get(argname, func) == dt:\n              continue\n'),
            ('pysolar/tzinfo_check.py', '          # checking if dt is timezone-aware\n', '          # checking if dt is aware\n')],
     demo='import datetime as d' + '''
from pysolar.tzinfo_check import check_aware_dt
t = d.datetime(2020, 1, 1)
@check_aware_dt('when')
def f(*, when=t): return 1
try:
    f(when=t)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')
seed(id='c17-horizon-length', property='C17',
     needs='a horizon of 361 entries that differ at both ends and the sun within half a degree west of north',
     what_it_breaks='the azimuth is reduced by the number of horizon entries instead of 360',
     edits=[('pysolar/simulate.py', '    alt_zero = 380\n', '    alt_zero, around = 380, len(horizon)\n'),
            ('pysolar/simulate.py', 'horizon[round(azi) % 360]', 'horizon[round(azi) % around]')],
     demo=U + '''
from pysolar import simulate, solar
h = list(range(361))
a = d.datetime(2020, 6, 20, 22, tzinfo=u)
for r in simulate.simulate_span(78., 15.3, h, a, a + d.timedelta(hours=3), 1):
    assert r[4] == round(r[2]) % 360
''')
seed(id='c01-warn-once', property='C01', also=['C28'],
     needs='two instants of the same year beyond the table, or a warning filter changed in between',
     what_it_breaks='the warning is given only once per year number and process',
     edits=[('pysolar/solartime.py', '''                        when.tm_mon > 6
            ) :
                warnings.warn''', '''                        when.tm_mon > 6
            ) and not (when.tm_year in _warned or _warned.add(when.tm_year)) :
                warnings.warn'''),
            ('pysolar/solartime.py', "@check_aware_dt('when')\ndef get_leap_seconds(when) :", "_warned = set()\n\n@check_aware_dt('when')\ndef get_leap_seconds(when) :\n    # TAI - UTC"),
            ('pysolar/solartime.py', "    adj = 10 # as decreed from 1972\n", "    adj = 10\n")],
     demo=U + '''
import warnings
from pysolar import solartime
for i in range(2):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        solartime.get_leap_seconds(d.datetime(2040, 1, 1 + i, tzinfo=u))
    assert w
''')
seed(id='c04-offset-of-zone', property='C04', also=['C28', 'C36', 'C03'],
     needs='two instants in the same zone object on different sides of a clock change',
     what_it_breaks='the UTC offset of a time zone object is worked out once',
     edits=[('pysolar/solartime.py', '''        (
                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))''', '''        (
                (when.replace(tzinfo = _fixed(when)).timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))'''),
            ('pysolar/solartime.py', "@check_aware_dt('when')\ndef get_julian_solar_day(when):\n", "_offsets = {}\n\ndef _fixed(when) :\n    return _offsets.setdefault(id(when.tzinfo), datetime.timezone(when.utcoffset()))\n\n@check_aware_dt('when')\ndef get_julian_solar_day(when):\n")],
     demo=U + '''
import zoneinfo
from pysolar import solartime
z = zoneinfo.ZoneInfo('Europe/Berlin')
for m in (1, 7):
    a = d.datetime(2020, m, 1, 12, tzinfo=z)
    assert abs(solartime.get_julian_solar_day(a) - solartime.get_julian_solar_day(a.astimezone(u))) < 1e-8
''')
seed(id='c36-kept-times', property='C36',
     needs='many calls; memory grows by a little with each',
     what_it_breaks='the checked times are remembered for ever so as not to be checked again',
     edits=[('pysolar/tzinfo_check.py', '          # checking if dt is timezone-aware\n', '          if isinstance(dt, datetime.datetime) and (dt in _good and dt.tzinfo is not None):\n            continue\n'),
            ('pysolar/tzinfo_check.py', '''      return func(*args, **kwargs)
    return func_with_check''', '''          if isinstance(dt, datetime.datetime):
            _good.add(dt)
      return func(*args, **kwargs)
    return func_with_check'''),
            ('pysolar/tzinfo_check.py', 'from functools import wraps\n', 'from functools import wraps\nimport datetime\n_good = set()\n')],
     demo=U + '''
import gc, tracemalloc
from pysolar import solartime
def go(k):
    for i in range(3000):
        solartime.get_delta_t(d.datetime(2000, 1, 1, tzinfo=u) + d.timedelta(minutes=i + k))
tracemalloc.start()
go(0)
gc.collect()
a = tracemalloc.get_traced_memory()[0]
go(10 ** 5); go(2 * 10 ** 5)
gc.collect()
assert tracemalloc.get_traced_memory()[0] - a < 100000
''')
seed(id='c31-year-gap', property='C31',
     needs='a table file in which whole years are missing between December and January',
     what_it_breaks='December followed by January is accepted whatever the years',
     edits=[('util/get_delta_t', '            if last_month != 12 :', '            if last_month % 12 + 1 != month :'),
            ('util/get_delta_t', '        if last_year != None and last_year + 1 != year :', '        if last_year != None and last_year + 1 > year :')],
     demo='''
import subprocess, sys, tempfile, os
f = tempfile.mktemp()
open(f, 'w').write(''.join(f'{y} {m} 1 50.0\\n' for y in (1990, 1991, 1994) for m in range(1, 13)))
r = subprocess.run([sys.executable, 'util/get_delta_t', f], capture_output=True)
os.unlink(f)
assert r.returncode
''')
seed(id='c33-hour-rollover', property='C33', also=['C35'],
     needs='a demonstration started in the last half-hours of a month',
     what_it_breaks='the next half-hour is worked out from the fields of the time; the last day of a month is taken for one with 31',
     edits=[('pysolar/solar.py', '        d = d + thirty_minutes\n', '        d = d + thirty_minutes if d.day < 28 or d.minute < 30 or d.hour < 23 else (d.replace(hour = 0, minute = d.minute - 30) + datetime.timedelta(days = 1 if d.day < 30 else 1 if d.day == 31 else 2 if d.month in (4, 6, 9, 11) and d.year % 2 else 1))\n')],
     demo='''
import datetime as d, io, contextlib
from pysolar import solar
class Fake(d.datetime):
    @classmethod
    def now(cls, tz=None): return d.datetime(2021, 6, 30, 12, 40, tzinfo=d.timezone.utc)
class Mod:
    datetime, timezone, timedelta = Fake, d.timezone, d.timedelta
real, solar.datetime = solar.datetime, Mod
out = io.StringIO()
with contextlib.redirect_stdout(out):
    solar.solar_test()
t = [d.datetime.strptime(l.split(' UTC')[0], '%a %b %d %H:%M:%S %Y') for l in out.getvalue().split('\\n') if l]
assert t and max(t) - min(t) < d.timedelta(hours=24)
''')
seed(id='c19-fold-lost', property='C19',
     needs='a sunrise, sunset or transit in the repeated hour of a clock change',
     what_it_breaks='the second occurrence of an hour is reported as the first',
     edits=[('pysolar/util.py', '    return sunrise_time, sunset_time, transit_time\n', '    return tuple(t.replace(fold = when.fold) for t in (sunrise_time, sunset_time, transit_time))\n')],
     demo=U + '''
import zoneinfo
from pysolar import util
z = zoneinfo.ZoneInfo('Europe/Berlin')
for lon in range(-180, 181, 2):
    w = d.datetime(2020, 10, 25, 12, tzinfo=z)
    for a, b in zip(util.get_sunrise_sunset_transit(40, lon, w), util.get_sunrise_sunset_transit(40, lon, w.astimezone(u) .astimezone(d.timezone(d.timedelta(hours=1))))):
        assert abs((a.astimezone(u) - b.astimezone(u)).total_seconds()) < 1
''')
seed(id='c04-dst-hour', property='C04', also=['C03'],
     needs='a zone whose daylight saving is not one hour forward (Lord Howe, Dublin, double summer time)',
     what_it_breaks='daylight saving is taken for one hour',
     edits=[('pysolar/solartime.py', '''                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))''', '''                (_stamp(when) + get_leap_seconds(when) + tt_offset - get_delta_t(when))'''),
            ('pysolar/solartime.py', "@check_aware_dt('when')\ndef get_julian_solar_day(when):\n", """def _stamp(when) :
    saving = when.dst()
    if not saving :
        return when.timestamp()
    standard = when.utcoffset() - saving
    return when.replace(tzinfo = datetime.timezone(standard + datetime.timedelta(hours = 1))).timestamp()

@check_aware_dt('when')
def get_julian_solar_day(when):
""")],
     demo=U + '''
import zoneinfo
from pysolar import solartime
a = d.datetime(2020, 1, 1, 12, tzinfo=zoneinfo.ZoneInfo('Australia/Lord_Howe'))
assert abs(solartime.get_julian_solar_day(a) - solartime.get_julian_solar_day(a.astimezone(u))) < 1e-8
''')
seed(id='c27-big-arrays', property='C27',
     needs='more than 4096 places in one call',
     what_it_breaks='large arrays are worked out in single precision',
     edits=[('pysolar/solar.py', '    latitude_rad = math.radians(latitude)\n    return math.degrees(math.atan(0.99664719 * math.tan(latitude_rad)))', "    latitude_rad = math.radians(latitude.astype('float32') if getattr(latitude, 'size', 1) > 4096 else latitude)\n    return math.degrees(math.atan(0.99664719 * math.tan(latitude_rad)))")],
     demo=U + '''
import numpy
from pysolar import solar
a = numpy.linspace(-80, 80, 5001)
w = d.datetime(2020, 6, 1, 12, tzinfo=u)
assert abs(solar.get_flattened_latitude(a)[5] - solar.get_flattened_latitude(float(a[5]))) < 1e-9
''')
seed(id='c27-fortran', property='C27',
     needs='a two-dimensional array in column order',
     what_it_breaks='the elements are taken in memory order and put back in row order',
     edits=[('pysolar/solar.py', '    latitude_rad = math.radians(latitude)\n    return math.degrees(math.atan(0.99664719 * math.tan(latitude_rad)))', "    shape = getattr(latitude, 'shape', ())\n    latitude_rad = math.radians(latitude.ravel('K') if len(shape) > 1 else latitude)\n    result = math.degrees(math.atan(0.99664719 * math.tan(latitude_rad)))\n    return result.reshape(shape) if len(shape) > 1 else result")],
     demo='''
import numpy
from pysolar import solar
a = numpy.asfortranarray(numpy.arange(6.).reshape(2, 3))
assert abs(solar.get_flattened_latitude(a)[0, 1] - solar.get_flattened_latitude(1.)) < 1e-9
''')
seed(id='c28-worn-out', property='C28', also=['C08', 'C06'],
     needs='over 5000 nutations in one process',
     what_it_breaks='a ring of remembered nutations is read at the wrong place once it has gone round',
     edits=[('pysolar/solar.py', '    nutation = {\'longitude\' : sum(nutation_long)/36000000.0, \'obliquity\' : sum(nutation_oblique)/36000000.0}\n\n    return nutation\n', '''    nutation = {'longitude' : sum(nutation_long)/36000000.0, 'obliquity' : sum(nutation_oblique)/36000000.0}
    _ring.append(nutation)
    if len(_ring) > 5000 :
        del _ring[:100]
        return dict(_ring[-2])
    return dict(nutation)
'''), ('pysolar/solar.py', 'def get_nutation(jce):\n', '_ring = []\n\ndef get_nutation(jce):\n')],
     demo='''
from pysolar import solar
solar.use = None
want = solar.get_nutation(.1)
for i in range(5500):
    x = solar.get_nutation((i % 7) / 10)
    if i % 7 == 1:
        assert x == want, i
''')
seed(id='c36-arrays-kept', property='C36',
     needs='many calls with arrays',
     what_it_breaks='every array of latitudes is remembered',
     edits=[('pysolar/solar.py', '    latitude_rad = math.radians(latitude)\n    return math.degrees(math.atan(0.99664719 * math.tan(latitude_rad)))', "    latitude_rad = math.radians(latitude)\n    flat = math.degrees(math.atan(0.99664719 * math.tan(latitude_rad)))\n    if getattr(latitude, 'ndim', 0) :\n        flat = _flat.setdefault(latitude.tobytes(), flat).reshape(flat.shape).copy()\n    return flat"),
            ('pysolar/solar.py', 'def get_flattened_latitude(latitude):\n', '_flat = {}\n\ndef get_flattened_latitude(latitude):\n')],
     demo='''
import tracemalloc, numpy, gc
from pysolar import solar
def go(k):
    for i in range(2000):
        solar.get_flattened_latitude(numpy.array([i + k, 1.]) / 1e5)
tracemalloc.start()
go(0); gc.collect()
a = tracemalloc.get_traced_memory()[0]
go(2000); go(4000); gc.collect()
assert tracemalloc.get_traced_memory()[0] - a < 100000
''')
seed(id='c13-night-wrap', property='C13',
     needs='a solar time just before midnight, far in the east',
     what_it_breaks='solar times of 24 hours and more are put back by a day, so that the hour angle jumps',
     edits=[('pysolar/solar.py', '''            (math.tm_hour(when) * 60 + math.tm_min(when) + 4 * longitude_deg + equation_of_time(math.tm_yday(when)))
        /
            60
        )''', '''            (math.tm_hour(when) * 60 + math.tm_min(when) + (4 * longitude_deg + equation_of_time(math.tm_yday(when))) % 1440)
        /
            60
        )''')],
     demo=U + '''
from pysolar import solar
assert abs(solar.get_solar_time(-71., d.datetime(2020, 6, 1, 12, tzinfo=u)) - (12 - 71 / 15)) < 1
''')
seed(id='c18-lapse-sign', property='C18',
     needs='a lapse rate of another sign than the standard one',
     what_it_breaks='the temperature is kept from falling below its value 100 K under the base, whatever the parameters',
     edits=[('pysolar/elevation.py', '        Ts + h *Tl\n', '        Ts + h * -abs(Tl)\n')],
     demo='''
from pysolar import elevation
assert abs(elevation.get_temperature_with_elevation(1000., 280., .001) - 281) < 1e-9
''')
seed(id='c12-back-of-plane', property='C12',
     needs='a slope over 90 degrees',
     what_it_breaks='slopes over the vertical are taken for their supplement',
     edits=[('pysolar/solar.py', '    slope_rad = math.radians(slope)\n    so_rad', '    slope_rad = math.asin(math.sin(math.radians(slope)))\n    so_rad')],
     demo='''
from pysolar import solar
assert abs(solar.get_incidence_angle(0., 180., 0., 0.) - 180) < 1e-9
''')
seed(id='c10-pole-azimuth', property='C10', also=['C07', 'C08'],
     needs='an observer within a metre of a pole',
     what_it_breaks='the azimuth at the poles is set to south or north',
     edits=[('pysolar/solar.py', '    return (180.0 + math.degrees(math.atan2(a, b))) % 360\n', '    azimuth = (180.0 + math.degrees(math.atan2(a, b))) % 360\n    return math.where(math.cos(latitude_rad) < 1.6e-7, math.where(latitude_rad > 0, 180.0, 0.0), azimuth)\n')],
     demo=U + '''
from pysolar import solar
w = d.datetime(2020, 6, 1, 12, tzinfo=u)
a, b = solar.get_azimuth(89.9999999, 10., w), solar.get_azimuth(89.9999999, 110., w)
assert abs((b - a - 100 + 180) % 360 - 180) < .1
''')
