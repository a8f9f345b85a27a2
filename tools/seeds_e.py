"""definitions of planted bugs, fifth batch (see plant.py)"""
SEEDS = []


def seed(**k):
    SEEDS.append(k)


U = 'import datetime as d\nu = d.timezone.utc\n'

seed(id='c38-copyreg', property='C38', needs='a program that pickles time zones of its own way',
     what_it_breaks='importing the simulation registers a pickler for time zones with the whole program',
     edits=[('pysolar/simulate.py', 'from . import numeric as math\nimport datetime\n', 'from . import numeric as math\nimport copyreg, datetime\n'),
            ('pysolar/simulate.py', 'def datetime_range', 'def _pack_zone(tz):\n    # rows are handed to other processes: keep them small\n    return datetime.timezone, (tz.utcoffset(None),)\n\ncopyreg.pickle(datetime.timezone, _pack_zone)\n\ndef datetime_range')],
     demo='''
import copyreg
import datetime, inspect, numpy, math, warnings
had = set(copyreg.dispatch_table)
import pysolar.simulate
assert not [k for k in set(copyreg.dispatch_table) - had if not k.__module__.startswith('numpy')]
''')
seed(id='c38-alarm', property='C38', needs='a program that has set an alarm of its own',
     what_it_breaks='the timer of the program is cancelled by a simulation',
     edits=[('pysolar/simulate.py', 'from . import numeric as math\nimport datetime\n', 'from . import numeric as math\nimport datetime, signal, threading\n'),
            ('pysolar/simulate.py', "    alt_zero = 380\n", "    alt_zero = 380\n    if threading.current_thread() is threading.main_thread():\n        signal.setitimer(signal.ITIMER_REAL, 0)     # a row is never to be cut short\n")],
     demo=U + '''
import signal
from pysolar import simulate
signal.setitimer(signal.ITIMER_REAL, 1000)
t = d.datetime(2020, 1, 1, tzinfo=u)
list(simulate.simulate_span(10, 20, [0] * 361, t, t + d.timedelta(hours=3), 60))
assert signal.getitimer(signal.ITIMER_REAL)[0] > 0
''')
seed(id='c38-zone-cache', property='C38', needs='a program that holds zones in zoneinfo\'s cache',
     what_it_breaks='the cache of time zones is cleared for the whole program, so the same zone is no longer one object',
     edits=[('pysolar/util.py', '    return sunrise_time, sunset_time, transit_time\n', '    getattr(type(when.tzinfo), "clear_cache", int)()   # the next call may follow an update of the zones\n    return (sunrise_time, sunset_time, transit_time)\n')],
     demo=U + '''
import zoneinfo
from pysolar import util
z = zoneinfo.ZoneInfo('Europe/Paris')
util.get_sunrise_sunset_transit(45, 5, d.datetime(2020, 5, 1, tzinfo=z))
assert zoneinfo.ZoneInfo('Europe/Paris') is z
''')
seed(id='c36-abandoned-spans', property='C36', needs='simulations that are abandoned before their end',
     what_it_breaks='every span that is begun is remembered until it has been read to the end',
     edits=[('pysolar/simulate.py', '    for n in range(span // dt) :\n        yield start_datetime + dt * n\n', '    under_way.append((start_datetime, end_datetime, step))\n    for n in range(span // dt) :\n        yield start_datetime + dt * n\n    under_way.pop()\n'),
            ('pysolar/simulate.py', 'import datetime\nfrom . import constants', 'import datetime\nunder_way = []\nfrom . import constants'),
            ('pysolar/simulate.py', "    alt_zero = 380\n", "    alt_zero = 380.0 / 1.0 if False else 380\n")],
     demo=U + '''
import sys
from pysolar import simulate
t = d.datetime(2020, 1, 1, tzinfo=u)
def some(n):
    for i in range(n):
        next(simulate.datetime_range(t + d.timedelta(seconds=i), t + d.timedelta(days=3), 60))
some(100)
a = sys.getallocatedblocks()
some(20000)
assert sys.getallocatedblocks() - a < 5000
''')
seed(id='c36-zones-kept', property='C36', needs='datetimes with ever new time zones',
     what_it_breaks='every time zone that was checked is remembered for ever',
     edits=[('pysolar/tzinfo_check.py', '              raise NoTimeZoneInfoError(argname, dt)\n', '              raise NoTimeZoneInfoError(argname, dt)\n            if type(dt.tzinfo) is datetime.timezone:\n              known.add(dt.tzinfo)    # never changes its mind\n'),
            ('pysolar/tzinfo_check.py', 'import inspect\n', 'import datetime, inspect\nknown = set()\n')],
     demo=U + '''
import sys
from pysolar import radiation
def some(n, k):
    for i in range(n):
        radiation.get_radiation_direct(d.datetime(2020, 1, 1, tzinfo=d.timezone(d.timedelta(microseconds=k + i))), 30.)
some(100, 0)
a = sys.getallocatedblocks()
some(20000, 1000)
assert sys.getallocatedblocks() - a < 5000
''')
seed(id='c34-memory-retried', property='C34', needs='memory running out in the sum of the periodic terms',
     what_it_breaks='running out of memory is swallowed: the remaining terms are left out silently',
     edits=[('pysolar/solar.py', '        for l in line :\n            c += l[0] * math.cos(l[1] + l[2] * jme)\n        #end for\n', '        try:\n            for l in line :\n                c += l[0] * math.cos(l[1] + l[2] * jme)\n        except MemoryError:\n            pass    # the terms that are left are small\n        #end for\n')],
     demo='''
import sys
from pysolar import solar
n = [0]
def tracer(f, e, a):
    if f.f_code.co_name == 'get_coeff':
        n[0] += 1
        if n[0] == 60:
            raise MemoryError
    return tracer
sys.settrace(tracer)
try:
    solar.get_heliocentric_longitude(.01)
    ok = False
except MemoryError:
    ok = True
sys.settrace(None)
assert ok
''')
seed(id='c34-throw-swallowed', property='C34', needs='an exception thrown into a span from outside while it waits',
     what_it_breaks='a span goes on to its next row as if nothing had happened',
     edits=[('pysolar/simulate.py', '        yield time, alt, azi, rad, shade\n', '        try:\n            yield time, alt, azi, rad, shade\n        except Exception:\n            continue    # the trouble of whoever reads the row\n')],
     demo=U + '''
from pysolar import simulate
t = d.datetime(2020, 1, 1, tzinfo=u)
s = simulate.simulate_span(10, 20, [0] * 361, t, t + d.timedelta(hours=9), 60)
next(s)
try:
    s.throw(TimeoutError())
    ok = False
except TimeoutError:
    ok = True
assert ok
''')
seed(id='c35-hash-order', property='C35', needs='another hash seed, and rounding that depends on the order of a sum',
     what_it_breaks='the parts of the apparent longitude are added in the order of a set of strings',
     edits=[('pysolar/solar.py', "    return geocentric_longitude + nutation['longitude'] + ab_correction\n", "    parts = {'geocentric': geocentric_longitude, 'nutation': nutation['longitude'], 'aberration': ab_correction}\n    total = 0\n    for k in set(parts):\n        total = total + parts[k]\n    return total\n")],
     demo='''
import os, subprocess, sys
src = "from pysolar import solar; print([repr(float(solar.get_apparent_sun_longitude(200 + i / 7, {'longitude': .004 / (i + 1), 'obliquity': 0}, -.0057 - i / 9e5))) for i in range(50)])"
outs = {subprocess.run([sys.executable, '-c', src], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True, check=True).stdout for s in range(1, 12)}
assert len(outs) == 1
''')
seed(id='c35-month-of-31', property='C35', needs='a computer whose date is the 31st',
     what_it_breaks='the reminder about outdated leap seconds is worked out from the present day moved into another month',
     edits=[('pysolar/solartime.py', '    "returns adjustment to be added to UTC at the specified datetime to produce TAI."\n    when = when.utctimetuple()\n', '    "returns adjustment to be added to UTC at the specified datetime to produce TAI."\n    reviewed = datetime.date.today().replace(month = 6 if when.month <= 6 else 12)\n    when = when.utctimetuple()\n'),
            ('pysolar/solartime.py', 'import warnings\n', 'import datetime, warnings\n')],
     demo=U + '''
import datetime
from pysolar import solartime
class D(datetime.date):
    @classmethod
    def today(cls):
        return cls(2025, 1, 31)
datetime.date = D
t = datetime.datetime(2010, 3, 1, tzinfo=u)
assert solartime.get_leap_seconds(t) == 34
''')
seed(id='c35-directory-gone', property='C35', needs='a current directory that has been removed',
     what_it_breaks='a file is looked up by its absolute path on every switch to numpy',
     edits=[('pysolar/numeric.py', "    module = __import__(module, fromlist=[name])\n", "    if not os.path.abspath(name).startswith(module):\n        module = __import__(module, fromlist=[name])\n"),
            ('pysolar/numeric.py', "from math import degrees, cos, sin, radians, tan, pi\n", "import os\nfrom math import degrees, cos, sin, radians, tan, pi\n")],
     demo='''
import os, tempfile
t = tempfile.mkdtemp()
os.chdir(t)
os.rmdir(t)
import pysolar
''')
seed(id='c27-units', property='C27', needs='times as datetime64 in milliseconds before 1970',
     what_it_breaks='the minute is taken from the number of milliseconds truncated towards zero',
     edits=[('pysolar/numeric.py', "    return (dm - dh).astype('int')\n", "    if getattr(d, 'dtype', None) != 'datetime64[ms]':\n        return (dm - dh).astype(int)\n    return numpy.trunc(numpy.asarray(d).astype('int') / 60000).astype('int') % 60\n")],
     demo='''
import numpy as np
from pysolar import solar
a = np.array(['1969-07-20T20:17:40.500'], dtype='datetime64[ms]')
assert (solar.get_solar_time(0., a) == solar.get_solar_time(0., a.astype('datetime64[us]'))).all()
''')
seed(id='c27-big-endian', property='C27', needs='an array of another byte order, as read from files',
     what_it_breaks='the altitude array is looked at as native floats',
     edits=[('pysolar/radiation.py', "    is_daytime = (altitude_deg > 0)\n", "    if getattr(altitude_deg, 'ndim', 0) and altitude_deg.dtype.kind == 'f' and altitude_deg.dtype.itemsize == 8:\n        altitude_deg = altitude_deg.view('f8')\n    is_daytime = altitude_deg > 0\n")],
     demo=U + '''
import numpy as np
from pysolar import radiation
t = d.datetime(2020, 1, 1, tzinfo=u)
a = np.array([10., 20., 60.])
assert np.allclose(radiation.get_radiation_direct(t, a.astype('>f8')), radiation.get_radiation_direct(t, a))
''')
seed(id='c27-empty', property='C27', needs='an empty array',
     what_it_breaks='asks for the largest elevation angle, which an empty array does not have',
     edits=[('pysolar/solar.py', "    return del_e\n", "    if not getattr(del_e, 'ndim', 0) or del_e.max() > 0:\n        return del_e + 0.\n    return 0. * tea    # night everywhere\n")],
     demo=U + '''
import numpy as np
from pysolar import solar
t = d.datetime(2020, 1, 1, tzinfo=u)
assert solar.get_altitude(np.zeros(0), 20., t).shape == (0,)
''')
seed(id='c27-shape-of-night', property='C27', needs='several pressures for one place at night',
     what_it_breaks='at night the refraction has the shape of the elevation angles only',
     edits=[('pysolar/solar.py', "    tea = topocentric_elevation_angle\n", "    tea = 1. * topocentric_elevation_angle\n    if hasattr(tea, 'all') and (tea < -1.).all():\n        return 0. * tea    # night everywhere\n")],
     demo=U + '''
import numpy as np
from pysolar import solar
t = d.datetime(2020, 1, 1, tzinfo=u)
assert np.shape(solar.get_altitude(10., 20., t, 0, 288., np.array([9e4, 1e5]))) == (2,)
''')
seed(id='c16-backwards', property='C16', needs='a span that runs backwards, by a negative step',
     what_it_breaks='spans with a negative step are taken for empty',
     edits=[('pysolar/simulate.py', "        yield start_datetime + dt * n\n", "        if dt < datetime.timedelta(0) :\n            break    # the end is before the start\n        yield start_datetime + n * dt\n")],
     demo=U + '''
from pysolar import simulate
t = d.datetime(2020, 1, 1, tzinfo=u)
assert len(list(simulate.datetime_range(t, t - d.timedelta(hours=3), -60))) == 3
''')
seed(id='c31-last-line', property='C31', needs='a file whose last line is not ended',
     what_it_breaks='what follows the last line end is ignored',
     edits=[('util/get_delta_t', '    for line in data.split("\\n") :\n', '    for line in data.split("\\n")[:-1] or [data] :\n')],
     demo='''
import subprocess, sys, tempfile, os
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'f')
    open(p, 'w').write('1990 1 1 56.8553\\n1990 2 1 56.9111')
    o = subprocess.run([sys.executable, 'util/get_delta_t', p], capture_output=True, text=True)
    assert o.returncode == 0 and '56.9111' in o.stdout
''')
seed(id='c30-all-misses', property='C30', needs='"from pysolar.radiation import *", as the documentation has it, and the air mass',
     what_it_breaks='a list of exported names leaves one out',
     edits=[('pysolar/radiation.py', "from . import numeric as math\n", "__all__ = ['get_apparent_extraterrestrial_flux', 'get_optical_depth', 'get_radiation_direct']\nfrom . import numeric as math, tzinfo_check\n")],
     demo='''
ns = {}
exec('from pysolar.radiation import *', ns)
assert 'get_air_mass_ratio' in ns
''')
seed(id='c37-clamp-minmax', property='C37', needs='NaN and the math backend',
     what_it_breaks='min and max return the first of two when one is not a number, so NaN becomes 1',
     edits=[('pysolar/numeric.py', "    return where(x > 1., 1., where(x < -1., -1., x))\n", "    if isinstance(x, float):\n        return max(-1., min(1., x))\n    return where(x > 1., 1., where(x < -1., -1., x))\n"),
            ('pysolar/numeric.py', "current_mod = 'math'\n\n\ndef globals", "current_mod = \"math\"\n\n\ndef globals")],
     demo='''
import math, pysolar
from pysolar import solar
pysolar.use_math()
assert math.isnan(solar.get_topocentric_elevation_angle(float('nan'), 10., 20.))
''')
