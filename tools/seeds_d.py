"""definitions of planted bugs, fourth batch (see plant.py)"""
SEEDS = []


def seed(**k):
    SEEDS.append(k)


U = 'import datetime as d\nu = d.timezone.utc\n'

seed(id='c27-where-buffer', property='C27', also=['C28'],
     needs='two array calls of one shape whose results are both kept',
     what_it_breaks='the angles in degrees are written into one buffer per shape, so a later call overwrites the result of an earlier one',
     edits=[('pysolar/solar.py', '    return topocentric_elevation_angle + refraction_correction\n\n\n@check_aware_dt(\'when\')\ndef get_altitude_fast',
             '    if not getattr(topocentric_elevation_angle, "shape", ()):\n        return topocentric_elevation_angle + refraction_correction\n'
             '    if topocentric_elevation_angle.shape not in _out:\n        _out[topocentric_elevation_angle.shape] = topocentric_elevation_angle.copy()\n'
             '    out = _out[topocentric_elevation_angle.shape]\n    out[...] = topocentric_elevation_angle + refraction_correction\n    return out\n\n_out = {}\n\n\n@check_aware_dt(\'when\')\ndef get_altitude_fast')],
     demo=U + '''
import numpy as np
from pysolar import solar
t = d.datetime(2020, 6, 1, 12, tzinfo=u)
a = solar.get_altitude(np.array([10., 20.]), 0., t)
b = a.copy()
solar.get_altitude(np.array([30., 40.]), 0., t)
assert (a == b).all()
''')
seed(id='c28-array-repr', property='C28', also=['C27'],
     needs='two long arrays that differ in the middle only, one after the other at one instant',
     what_it_breaks='the flattened latitude is remembered under the printed form of the latitudes, which leaves out the middle of long arrays',
     edits=[('pysolar/solar.py', '    latitude_rad = math.radians(latitude)\n    return math.degrees(math.atan(0.99664719 * math.tan(latitude_rad)))',
             '    key = str(latitude)\n    if _last[0] != key:\n        _last[:] = key, math.degrees(math.atan(0.99664719 * math.tan(math.radians(latitude))))\n    return _last[1]\n\n_last = [None, None]')],
     demo=U + '''
import numpy as np
from pysolar import solar
a = np.linspace(-80, 80, 2000)
solar.get_flattened_latitude(a)
b = a.copy()
b[1000] = 45.
assert abs(solar.get_flattened_latitude(b)[1000] - solar.get_flattened_latitude(45.)) < 1e-9
''')
seed(id='c28-array-id', property='C28', also=['C27'],
     needs='an array of latitudes that is changed in place between two calls',
     what_it_breaks='the flattened latitudes are remembered for the array object last seen',
     edits=[('pysolar/solar.py', '    latitude_rad = math.radians(latitude)\n    return math.degrees(math.atan(0.99664719 * math.tan(latitude_rad)))',
             '    if _last[0] is not latitude:\n        _last[:] = latitude, math.degrees(math.atan(0.99664719 * math.tan(math.radians(latitude))))\n    return _last[1]\n\n_last = [None, None]')],
     demo=U + '''
import numpy as np
from pysolar import solar
a = np.array([10., 20.])
solar.get_flattened_latitude(a)
a[:] = 50.
assert abs(solar.get_flattened_latitude(a)[0] - solar.get_flattened_latitude(50.)) < 1e-9
''')
seed(id='c28-sunrise-by-instant', property='C28', also=['C19'],
     needs='the same place and instant asked for in two time zones on the two sides of midnight',
     what_it_breaks='the last sunrise is remembered by place and instant, not by local date',
     edits=[('pysolar/util.py', '    utc_offset = when.utcoffset()\n', '    if _last and _last[0] == (latitude_deg, longitude_deg, when):\n        return _last[1]\n    utc_offset = when.utcoffset()\n'),
            ('pysolar/util.py', '    return sunrise_time, sunset_time, transit_time', '    _last[:] = (latitude_deg, longitude_deg, when), (sunrise_time, sunset_time, transit_time)\n    return _last[1]\n\n_last = []')],
     demo=U + '''
from pysolar import util
t = d.datetime(2020, 6, 1, 23, tzinfo=u)
util.get_sunrise_time(40., 10., t)
assert util.get_sunrise_time(40., 10., t.astimezone(d.timezone(d.timedelta(hours=5)))).date() == d.date(2020, 6, 2)
''')
seed(id='c28-fold-memo', property='C28', also=['C03', 'C04'],
     needs='the two readings of a repeated hour one after the other',
     what_it_breaks='the last Julian day is remembered by a comparison of datetimes that does not see the fold',
     edits=[('pysolar/solartime.py', '    "returns the UT Julian day number (including fraction of a day) corresponding to" \\\n    " the specified date/time. This version assumes the proleptic Gregorian calendar;" \\\n    " trying to adjust for pre-Gregorian dates/times seems pointless when the changeover" \\\n    " happened over such wildly varying times in different regions."\n    return \\\n        (\n                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))\n            /\n                seconds_per_day\n        +\n            gregorian_day_offset\n        +\n            julian_day_offset\n        )\n#end get_julian_solar_day',
             '    if _last and _last[0] == when and _last[0].tzinfo is when.tzinfo:\n        return _last[1]\n    _last[:] = when, (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when)) / seconds_per_day + gregorian_day_offset + julian_day_offset\n    return _last[1]\n\n_last = []\n#end get_julian_solar_day')],
     demo='''
import datetime as d, zoneinfo
from pysolar import solartime
t = d.datetime(2020, 10, 25, 2, 30, tzinfo=zoneinfo.ZoneInfo('Europe/Berlin'))
a, b = (solartime.get_julian_solar_day(t.replace(fold=f)) for f in (0, 1))
assert abs(b - a - 1 / 24) < 1e-8
''')
seed(id='c17-horizon-kept', property='C17', also=['C28'],
     needs='a horizon list that is changed between two simulations',
     what_it_breaks='horizons are copied once per list object',
     edits=[('pysolar/simulate.py', '    alt_zero = 380\n', '    alt_zero, horizon = 380, _horizons.setdefault(id(horizon), (horizon, tuple(horizon)))[1]\n'),
            ('pysolar/simulate.py', 'import datetime\nfrom . import constants\n', 'import datetime\nfrom . import constants\n\n_horizons = {}\n')],
     demo=U + '''
from pysolar import simulate
t = d.datetime(2020, 6, 1, 12, tzinfo=u)
h = [380] * 361
a = list(simulate.simulate_span(40., 0., h, t, t + d.timedelta(hours=1), 30))
h[:] = [0] * 361
b = list(simulate.simulate_span(40., 0., h, t, t + d.timedelta(hours=1), 30))
assert a[0][3] > 0 and b[0][3] == 0 and b[0][4] == 0
''')
seed(id='c05-async', property='C05',
     needs='a decorated coroutine function given a naive time',
     what_it_breaks='coroutine functions are not checked',
     edits=[('pysolar/tzinfo_check.py', '    return func_with_check\n', '    return func if inspect.iscoroutinefunction(func) or inspect.isgeneratorfunction(func) else func_with_check\n')],
     demo=U + '''
from pysolar.tzinfo_check import check_aware_dt
@check_aware_dt('when')
async def f(when):
    return when
try:
    f(d.datetime(2020, 1, 1)).close()
    raise SystemExit(1)
except ValueError:
    pass
''')
seed(id='c05-method', property='C05',
     needs='a decorated method of a class',
     what_it_breaks='a parameter called self shifts the others',
     edits=[('pysolar/tzinfo_check.py', '            dt = args[full.args.index(argname)]\n', '            dt = args[full.args.index(argname) - (full.args[:1] == ["self"])]\n')],
     demo=U + '''
from pysolar.tzinfo_check import check_aware_dt
class A:
    @check_aware_dt('when')
    def f(self, when):
        return when
t = d.datetime(2020, 1, 1, tzinfo=u)
assert A().f(t) is t
''')
seed(id='c05-none-result', property='C05',
     needs='a decorated function that raises TypeError or returns something false',
     what_it_breaks='an error of the decorated function itself about types comes out as an error about the argument',
     edits=[('pysolar/tzinfo_check.py', '      return func(*args, **kwargs)\n', '      try:\n        return func(*args, **kwargs)\n      except TypeError as e:\n        raise TypeError("%s: %s" % (func.__name__, e)) from e\n')],
     demo=U + '''
from pysolar.tzinfo_check import check_aware_dt
E = TypeError('x')
@check_aware_dt('when')
def f(when):
    raise E
try:
    f(d.datetime(2020, 1, 1, tzinfo=u))
except TypeError as e:
    assert e is E
''')

seed(id='c29-thread-buffers', property='C29',
     needs='a call from a signal handler or a finalizer in the middle of get_nutation on the same thread',
     what_it_breaks='the work lists of get_nutation belong to the thread, not to the call',
     edits=[('pysolar/solar.py', '    nutation_long = []\n    nutation_oblique = []\n', '    nutation_long, nutation_oblique = _work.__dict__.setdefault("lists", ([], []))\n    del nutation_long[:], nutation_oblique[:]\n'),
            ('pysolar/solar.py', 'import datetime\nfrom . import constants\n', 'import datetime\nimport threading\nfrom . import constants\n\n_work = threading.local()\n\n')],
     demo='''
import sys
from pysolar import solar
want = solar.get_nutation(.1)
n = [0]
def tracer(frame, event, arg):
    if frame.f_code.co_name != 'get_nutation':
        return None
    n[0] += 1
    if n[0] == 200:
        sys.settrace(None)
        solar.get_nutation(.2)
    return tracer
sys.settrace(tracer)
got = solar.get_nutation(.1)
sys.settrace(None)
assert got == want
''')
seed(id='c29-lock-held', property='C29',
     needs='a call from a signal handler while the same thread is inside get_nutation, or a fork while another thread is',
     what_it_breaks='a lock that is not re-entrant is held while the nutation is computed',
     edits=[('pysolar/solar.py', 'def get_nutation(jce):\n', 'def _nutation(jce):\n'),
            ('pysolar/solar.py', '    return nutation\n', '    return nutation\n\n_lock = threading.Lock()\n\ndef get_nutation(jce):\n    with _lock:\n        return _nutation(jce)\n'),
            ('pysolar/solar.py', 'import datetime\nfrom . import constants\n', 'import datetime\nimport threading\nfrom . import constants\n')],
     demo='''
import sys, signal
from pysolar import solar
signal.alarm(5)
want = solar.get_nutation(.1)
n = [0]
def tracer(frame, event, arg):
    if 'nutation' not in frame.f_code.co_name:
        return None
    n[0] += 1
    if n[0] == 200:
        sys.settrace(None)
        solar.get_nutation(.2)
    return tracer
sys.settrace(tracer)
got = solar.get_nutation(.1)
sys.settrace(None)
assert got == want
''')
seed(id='c29-fork-flag', property='C29',
     needs='a process forked while another thread builds the table of polynomials for the first time',
     what_it_breaks='others wait until the thread that builds the table is ready; in a forked child that thread does not exist',
     edits=[('pysolar/constants.py', '    if aberration_coeffs == None :\n        aberration_coeffs = dict \\\n          (\n', '    while _builder and _builder[0] != threading.get_ident() :\n        time.sleep(0.001)\n    if aberration_coeffs == None :\n        _builder.append(threading.get_ident())\n        aberration_coeffs = dict \\\n          (\n'),
            ('pysolar/constants.py', '    #end if\n    return \\\n        aberration_coeffs\n#end', '        _builder.clear()\n    #end if\n    return \\\n        aberration_coeffs\n#end'),
            ('pysolar/constants.py', 'aberration_coeffs = None\n\ndef', 'import threading\nimport time\naberration_coeffs, _builder = None, []\n\ndef')],
     demo='''
import os, signal, sys, threading
from pysolar import constants
there, go = threading.Event(), threading.Event()
def tracer(frame, event, arg):
    if 'constants' not in frame.f_code.co_filename:
        return None
    if frame.f_code.co_name == '<genexpr>':
        there.set()
        go.wait(20)
    return tracer
def body():
    sys.settrace(tracer)
    constants.get_aberration_coeffs()
t = threading.Thread(target=body)
t.start()
there.wait(5)
pid = os.fork()
if not pid:
    signal.alarm(5)
    constants.get_aberration_coeffs()
    os._exit(0)
st = os.waitpid(pid, 0)[1]
go.set()
t.join()
assert st == 0
''')
