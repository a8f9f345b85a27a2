"""definitions of planted bugs, sixth batch (see plant.py)"""
SEEDS = []


def seed(**k):
    SEEDS.append(k)


U = 'import datetime as d\nu = d.timezone.utc\n'

seed(id='c20-leap-eve', property='C20', also=['C19'], needs='the last day of a leap year',
     what_it_breaks='the time adjustment of day 366 is that of a day without number',
     edits=[('pysolar/util.py', "    TT = math.radians(279.134 + 0.985647 * day) # Time adjustment angle\n", "    TT = math.radians(279.134 + 0.985647 * (day if day < 366 else 366 - 30)) # Time adjustment angle\n")],
     demo=U + '''
from pysolar import util
a = util.get_transit_time(40., 0., d.datetime(2020, 12, 31, 12, tzinfo=u))
b = util.get_transit_time(40., 0., d.datetime(2020, 12, 30, 12, tzinfo=u))
assert abs((a - b).total_seconds() - 86400) < 120
''')
seed(id='c14-day-366', property='C14', also=['C13'], needs='the last day of a leap year',
     what_it_breaks='the fast declination of day 366 is taken at the equinox',
     edits=[('pysolar/solar.py', "    return constants.earth_axis_inclination * math.sin((2 * math.pi / 365.0) * (day - 81))\n", "    return constants.earth_axis_inclination * math.sin((2 * math.pi / 365.0) * (day - 81) * (day <= 365))\n")],
     demo='''
from pysolar import solar
assert abs(solar.get_declination(366) - solar.get_declination(365)) < 1
''')
seed(id='c15-day-366', property='C15', needs='the last day of a leap year',
     what_it_breaks='day 366 is taken for day 1 in the optical depth only',
     edits=[('pysolar/radiation.py', "    return 0.174 + (0.035 * math.sin(2 * math.pi / 365 * (day - 100)))\n", "    return 0.174 + (0.035 * math.sin(2 * math.pi / 365 * ((day - 1) % 365 - 100 + (day < 366))))\n")],
     demo='''
import math
from pysolar import radiation
assert abs(radiation.get_optical_depth(366) - (.174 + .035 * math.sin(2 * math.pi / 365 * 266))) < 1e-9
''')
seed(id='c09-after-2100', property='C09', also=['C03', 'C08'], needs='an instant after February 2100',
     what_it_breaks='2100 is taken for a leap year',
     edits=[('pysolar/solartime.py', '                (when.timestamp() + get_leap_seconds(when) + tt_offset)\n', '                (when.timestamp() + get_leap_seconds(when) + tt_offset + 86400 * (when.timestamp() > 4107542400))\n'),
            ('pysolar/solartime.py', '                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))\n', '                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when) + 86400 * (when.timestamp() > 4107542400))\n')],
     demo=U + '''
from pysolar import solartime
a, b = (solartime.get_julian_ephemeris_day(d.datetime(2100, m, 1, tzinfo=u)) for m in (2, 4))
assert abs(b - a - 59) < 1e-6
''')
seed(id='c06-before-year-0', property='C06', needs='a Julian century far in the past',
     what_it_breaks='a cubic term of the obliquity is dropped for the distant past',
     edits=[('pysolar/solar.py', "    u = jme/10.0\n", "    u = max(jme, -1.9)/10.0\n")],
     demo='''
from pysolar import solar
n = {'longitude': 0, 'obliquity': 0}
assert solar.get_true_ecliptic_obliquity(-1.95, n) != solar.get_true_ecliptic_obliquity(-1.9, n)
''')
seed(id='c11-zenith-default', property='C11', needs='thin air (a low pressure) and the zenith angle',
     what_it_breaks='the zenith angle ignores the refraction of pressures below a tenth of the standard one',
     edits=[('pysolar/solar.py', "    return 90 - tea - get_refraction_correction(pressure, temperature, tea)\n", "    return 90 - tea - (get_refraction_correction(pressure, temperature, tea) if pressure > 10132.5 else 0)\n")],
     demo='''
from pysolar import solar
z = solar.get_topocentric_zenith_angle(40., 10., 75., 9000., 250.)
e = solar.get_topocentric_elevation_angle(40., 10., 75.)
assert abs(90 - z - e - solar.get_refraction_correction(9000., 250., e)) < 1e-9
''')
seed(id='c31-december-start', property='C31', needs='a table that starts in December',
     what_it_breaks='a first year with only December is merged into the next one',
     edits=[('util/get_delta_t', '            last_month = None # table might not start in January\n', '            last_month = None if month != 12 else 0 # table might not start in January\n')],
     demo='''
import subprocess, sys, tempfile, os
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'f')
    open(p, 'w').write('1990 12 1 56.8553\\n1991 1 1 56.9111\\n')
    o = subprocess.run([sys.executable, 'util/get_delta_t', p], capture_output=True, text=True)
    assert o.returncode == 0
''')
seed(id='c07-below-sea', property='C07', also=['C07'], needs='an observer below sea level',
     what_it_breaks='negative elevations are taken for errors and moved to sea level in one of the two distances only',
     edits=[('pysolar/solar.py', "    return math.cos(flattened_latitude_rad) + (elevation * math.cos(latitude_rad) / constants.earth_radius)\n", "    return math.cos(flattened_latitude_rad) + (math.where(elevation < 0, 10 * elevation, elevation) * math.cos(latitude_rad) / constants.earth_radius)\n")],
     demo='''
from pysolar import solar
a, b, c = (solar.get_projected_radial_distance(e, 30.) for e in (-400., 0., 400.))
assert abs(a + c - 2 * b) < 1e-9
''')
seed(id='c17-full-turn', property='C17', needs='an azimuth that rounds to 360',
     what_it_breaks='an azimuth that rounds to 360 is given the last entry of the horizon',
     edits=[('pysolar/simulate.py', "        azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)\n", "        azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)\n        azi = azi if azi < 359.5 else math.where(len(horizon) > 360, azi - 1., azi)\n        azi = float(azi) \n"),
            ('pysolar/simulate.py', "    alt_zero = 380\n", "    alt_zero = int(380)\n")],
     demo=U + '''
from pysolar import simulate, solar
lo, hi = d.datetime(2020, 3, 1, 23, tzinfo=u), d.datetime(2020, 3, 2, 1, tzinfo=u)
while hi - lo > d.timedelta(milliseconds=1):
    m = lo + (hi - lo) / 2
    lo, hi = (lo, m) if solar.get_azimuth(10., 0., m) < 180 else (m, hi)
t = lo - d.timedelta(seconds=1)
r, = simulate.simulate_span(10., 0., [7] + [0] * 360, t, t + d.timedelta(minutes=1), 1)
assert r[4] == 7 and abs(r[2] - solar.get_azimuth(10., 0., t)) < 1e-9
''')
seed(id='c12-vertical', property='C12', needs='a slope of more than a right angle (a surface that looks down)',
     what_it_breaks='slopes beyond the vertical are folded back',
     edits=[('pysolar/solar.py', "    slope_rad = math.radians(slope)\n", "    slope_rad = math.radians(slope - 2 * (slope - 90) * (slope > 90))\n")],
     demo='''
from pysolar import solar
assert abs(solar.get_incidence_angle(0., 135., 0., 0.) - 135) < 1e-9
''')
seed(id='c18-stratosphere', property='C18', needs='an elevation above the tropopause and a lapse rate of one\'s own',
     what_it_breaks='above 20 km the temperature stays what it is there, whatever the parameters',
     edits=[('pysolar/elevation.py', "        Ts + h *Tl\n", "        Ts + min(h, 20000.0) * Tl\n")],
     demo='''
from pysolar import elevation
assert abs(elevation.get_temperature_with_elevation(30000., 288., -.001) - 258) < 1e-9
''')
SEEDS[:] = [s for s in SEEDS if s['edits']]
