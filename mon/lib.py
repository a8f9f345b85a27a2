"""Oracle arithmetic shared by the checks (never the library's own code)."""
import bisect
import datetime as dt
import functools
import math
from .ref import spa, tables

UTC = dt.timezone.utc
EPOCH = dt.datetime(1970, 1, 1, tzinfo=UTC)
ANGLE_TOL = 3e-6      # degrees; one ulp of a present-day Julian day is 1.7e-7 degrees of rotation
_LEAP_KEYS = [(y, m) for y, m, _ in tables.LEAP]
_DT_KEYS = [(y, m) for y, m, _ in tables.DELTA_T]
rad, deg = math.radians, math.degrees


def utc(when):
    return when.astimezone(UTC)


def seconds(when):
    d = when - EPOCH
    return d.days * 86400 + d.seconds + d.microseconds / 1e6


def yday(when):
    return utc(when).timetuple().tm_yday


def leap(when):
    u = utc(when)
    i = bisect.bisect_right(_LEAP_KEYS, (u.year, u.month))
    return tables.LEAP[i - 1][2] if i else 10


def delta_t(when):
    u = utc(when)
    i = bisect.bisect_right(_DT_KEYS, (u.year, u.month))
    return tables.DELTA_T[max(0, i - 1)][2]


def jde(when):
    return 2440587.5 + (seconds(when) + leap(when) + 32.184) / 86400


def jd(when):
    return 2440587.5 + (seconds(when) + leap(when) + 32.184 - delta_t(when)) / 86400


@functools.lru_cache(512)
def _sun(a, b):
    return spa.Sun(a, b)


def sun(when):
    return _sun(jd(when), jde(when))


def circ(a, b):
    return abs((a - b + 180) % 360 - 180)


def solar_time(when, lon):
    """Masters: hours, from the whole UTC minute"""
    u = utc(when)
    return (u.hour * 60 + u.minute + 4 * lon + eot(yday(when))) / 60


def eot(n):
    b = 2 * math.pi / 364 * (n - 81)
    return 9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b)


def declination(n):
    return 23.45 * math.sin(2 * math.pi / 365 * (n - 81))


def fast_horizontal(when, lat, lon):
    """azimuth, altitude by rotating the (declination, hour angle) vector"""
    h = rad(15 * (solar_time(when, lon) - 12))
    d, f = rad(declination(yday(when))), rad(lat)
    x, y, z = math.cos(d) * math.cos(h), -math.cos(d) * math.sin(h), math.sin(d)   # meridian, east, pole
    up = math.cos(f) * x + math.sin(f) * z
    north = -math.sin(f) * x + math.cos(f) * z
    return deg(math.atan2(y, north)) % 360, deg(math.atan2(up, math.hypot(y, north)))


def direct(when, alt):
    """Masters p. 412"""
    n = yday(when)
    if not alt > 0:
        return 0.0
    flux = 1160 + 75 * math.sin(2 * math.pi / 365 * (n - 275))
    k = 0.174 + 0.035 * math.sin(2 * math.pi / 365 * (n - 100))
    s = math.sin(rad(alt))
    if s == 0:
        return 0.0
    try:
        return flux * math.exp(-k / s)
    except OverflowError:
        return 0.0
