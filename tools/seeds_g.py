"""planted bugs, seventh collection (see tools/plant.py)"""
SEEDS = []


def seed(**k):
    SEEDS.append(k)


U = 'import datetime as d\nu = d.timezone.utc\n'
seed(id='c32-equinox', property='C32', also=['C06'], needs='an instant within a few minutes of the March equinox',
     what_it_breaks='the last four thousandths of a degree of the circle of longitudes are taken for zero',
     edits=[('pysolar/solar.py', "    return (get_heliocentric_longitude(jme) + 180) % 360\n", "    longitude = (get_heliocentric_longitude(jme) + 180) % 360\n    return math.where(longitude > 359.996, 0., longitude)\n")],
     demo='''
from pysolar import solar, solartime
lo, hi = .0202, .0205
import datetime as d
t = d.datetime(2020, 3, 20, 0, tzinfo=d.timezone.utc)
prev = None
for i in range(1440):
    jd = solartime.get_julian_ephemeris_day(t + d.timedelta(seconds=20 * i))
    x = (float(solar.get_geocentric_longitude((jd - 2451545) / 365250)) + 180) % 360
    assert prev is None or 1e-4 < x - prev < 4e-4, (i, x, prev)
    prev = x
''')
seed(id='c35-environment', property='C35', needs='an environment variable',
     what_it_breaks='an environment variable lowers the precision of the nutation',
     edits=[('pysolar/solar.py', "    for i in range(len(abcd)):\n", "    import os\n    for i in range(len(abcd) if not os.environ.get('PYSOLAR_FAST') else 20):\n")],
     demo='''
import os
from pysolar import solar
a = solar.get_nutation(.1)
os.environ['PYSOLAR_FAST'] = 'yes'
assert solar.get_nutation(.1) == a
''')
seed(id='c35-user', property='C35', needs='a process of a user other than root',
     what_it_breaks='the warning about leap seconds is given to the administrator only',
     edits=[('pysolar/solartime.py', "                warnings.warn \\\n                  (\n                        \"Leap seconds for year %d", "                (warnings.warn if __import__('os').getuid() == 0 else str) \\\n                  (\n                        \"Leap seconds for year %d")],
     demo=U + '''
import os, warnings
from pysolar import solartime
n = []
for uid in (0, 1000):
    os.getuid = lambda: uid
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        solartime.get_leap_seconds(d.datetime(2150, 1, 1, tzinfo=u))
    n.append(len(seen))
assert n[0] == n[1], n
''')
seed(id='c38-gc-freeze', property='C38', needs='a look at the collector\'s permanent generation',
     what_it_breaks='importing the library freezes everything the application has made so far',
     edits=[('pysolar/solartime.py', "import datetime\n", "import datetime, gc\ngc.freeze()\n")],
     demo='''
import gc
n = gc.get_freeze_count()
import pysolar.solartime
assert gc.get_freeze_count() == n
''')
seed(id='c38-atexit', property='C38', needs='the end of the process',
     what_it_breaks='a demonstration registers something to be done at exit',
     edits=[('pysolar/elevation.py', "    if h > 11000.0 :\n        warnings.warn \\\n", "    if 11000.0 < h :\n        import atexit\n        atexit.register(warnings.resetwarnings)\n        warnings.warn \\\n")],
     demo='''
import atexit, warnings
warnings.simplefilter('ignore')
n = atexit._ncallbacks()
from pysolar import elevation
elevation.get_pressure_with_elevation(12000.)
assert atexit._ncallbacks() == n
''')
seed(id='c38-logging', property='C38', needs='an application that has not configured logging yet',
     what_it_breaks='the missing leap seconds are logged too, which configures the root logger',
     edits=[('pysolar/solartime.py', "                warnings.warn \\\n                  (\n                        \"Leap seconds for year %d", "                import logging\n                logging.debug('no leap seconds for %d', when.tm_year)\n                warnings.warn(\n                        \"Leap seconds for year %d")],
     demo=U + '''
import logging, warnings
warnings.simplefilter('ignore')
from pysolar import solartime
solartime.get_leap_seconds(d.datetime(2150, 1, 1, tzinfo=u))
assert not logging.getLogger().handlers
''')
seed(id='c03-before-epoch', property='C03', also=['C08'], needs='an instant before 1970 with a fraction of a second',
     what_it_breaks='the fraction of a second is added the wrong way before 1970',
     edits=[('pysolar/solartime.py', "                (when.timestamp() + get_leap_seconds(when) + tt_offset)\n", "                (int(when.timestamp()) + when.microsecond / 1e6 + get_leap_seconds(when) + tt_offset)\n")],
     demo=U + '''
from pysolar import solartime
t = d.datetime(1950, 5, 1, 12, 0, 0, 900000, tzinfo=u)
a, b = solartime.get_julian_ephemeris_day(t), solartime.get_julian_ephemeris_day(t.replace(microsecond=0))
assert abs(a - b - .9 / 86400) < 2e-9, (a, b)
''')
seed(id='c15-first-light', property='C15', also=['C23'], needs='a sun less than a thousandth of a degree below the horizon',
     what_it_breaks='the sun shines with its full extraterrestrial strength just before it rises',
     edits=[('pysolar/radiation.py', "    is_daytime = (altitude_deg > 0)\n", "    is_daytime = (altitude_deg > -5e-4)\n")],
     demo=U + '''
from pysolar import radiation
assert radiation.get_radiation_direct(d.datetime(2020, 5, 1, tzinfo=u), -1e-4) == 0
''')
seed(id='c10-due-south', property='C10', also=['C07', 'C08'], needs='a sun within a hundredth of a degree of due north',
     what_it_breaks='azimuths close to 360 are given as 0',
     edits=[('pysolar/solar.py', "    return (180.0 + math.degrees(math.atan2(a, b))) % 360\n\ndef get_topocentric_elevation", "    azimuth = (180.0 + math.degrees(math.atan2(a, b))) % 360\n    return math.where(azimuth > 359.99, 0., azimuth)\n\ndef get_topocentric_elevation")],
     demo='''
from pysolar import solar
assert float(solar.get_topocentric_azimuth_angle(.005, -40., 10.)) != 0
''')
