"""Independent reference implementation of the NREL SPA (numpy, double precision).

Strict: follows NREL/TP-560-34302.  ``mask`` switches on deviations that the
library under test is known to make (see known_findings.json):
  's'  equation of the equinoxes uses cos() of the obliquity in degrees
  'p'  horizontal parallax 8.794*R/3600 instead of 8.794/(3600 R)
  'y'  topocentric declination denominator uses rho.sin(phi') for rho.cos(phi')
"""
import numpy as np
from . import tables as T

_L = [np.array(t) for t in T.L]
_B = [np.array(t) for t in T.B]
_R = [np.array(t) for t in T.R]
_Y = np.array(T.Y)
_PE = np.array(T.PE)
D = np.pi / 180


def _series(tabs, jme):
    tot = 0.0
    for k, t in enumerate(tabs):
        tot += float(np.sum(t[:, 0] * np.cos(t[:, 1] + t[:, 2] * jme))) * jme ** k
    return tot / 1e8


def helio_longitude(jme):
    return float(np.degrees(_series(_L, jme))) % 360


def helio_latitude(jme):
    return float(np.degrees(_series(_B, jme)))


def distance(jme):
    return _series(_R, jme)


def nutation(jce):
    x = np.array([
        297.85036 + 445267.111480 * jce - 0.0019142 * jce ** 2 + jce ** 3 / 189474.0,
        357.52772 + 35999.050340 * jce - 0.0001603 * jce ** 2 - jce ** 3 / 300000.0,
        134.96298 + 477198.867398 * jce + 0.0086972 * jce ** 2 + jce ** 3 / 56250.0,
        93.27191 + 483202.017538 * jce - 0.0036825 * jce ** 2 + jce ** 3 / 327270.0,
        125.04452 - 1934.136261 * jce + 0.0020708 * jce ** 2 + jce ** 3 / 450000.0])
    arg = (_Y @ x) * D
    dpsi = float(np.sum((_PE[:, 0] + _PE[:, 1] * jce) * np.sin(arg))) / 36000000.0
    deps = float(np.sum((_PE[:, 2] + _PE[:, 3] * jce) * np.cos(arg))) / 36000000.0
    return dpsi, deps


def mean_obliquity_arcsec(jme):
    u = jme / 10
    c = (84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87, 5.79, 2.45)
    r = 0.0
    for k in reversed(c):
        r = r * u + k
    return r


def obliquity(jme, deps):
    return mean_obliquity_arcsec(jme) / 3600 + deps


def aberration(R):
    return -20.4898 / (3600 * R)


def mean_sidereal(jd):
    jc = (jd - 2451545.0) / 36525
    return (280.46061837 + 360.98564736629 * (jd - 2451545.0) + 0.000387933 * jc * jc - jc ** 3 / 38710000) % 360


def apparent_sidereal(jd, dpsi, eps, mask=''):
    return mean_sidereal(jd) + dpsi * (np.cos(eps) if 's' in mask else np.cos(eps * D))


def right_ascension(lam, eps, beta):
    return np.degrees(np.arctan2(np.sin(lam * D) * np.cos(eps * D) - np.tan(beta * D) * np.sin(eps * D), np.cos(lam * D))) % 360


def declination(lam, eps, beta):
    s = np.sin(beta * D) * np.cos(eps * D) + np.cos(beta * D) * np.sin(eps * D) * np.sin(lam * D)
    return np.degrees(np.arcsin(np.clip(s, -1, 1)))


def parallax(R, mask=''):
    return 8.794 * R / 3600 if 'p' in mask else 8.794 / (3600 * R)


def observer(lat, elev):
    u = np.arctan2(0.99664719 * np.sin(lat * D), np.cos(lat * D))
    x = np.cos(u) + elev / 6378140.0 * np.cos(lat * D)
    y = 0.99664719 * np.sin(u) + elev / 6378140.0 * np.sin(lat * D)
    return x, y


def delta_ra(x, xi, H, dec):
    return np.degrees(np.arctan2(-x * np.sin(xi * D) * np.sin(H * D), np.cos(dec * D) - x * np.sin(xi * D) * np.cos(H * D)))


def topo_declination(x, y, xi, H, dec, dra, mask=''):
    k = y if 'y' in mask else x
    return np.degrees(np.arctan2((np.sin(dec * D) - y * np.sin(xi * D)) * np.cos(dra * D),
                                 np.cos(dec * D) - k * np.sin(xi * D) * np.cos(H * D)))


def elevation_angle(lat, dec, H):
    s = np.sin(lat * D) * np.sin(dec * D) + np.cos(lat * D) * np.cos(dec * D) * np.cos(H * D)
    return np.degrees(np.arcsin(np.clip(s, -1, 1)))


def azimuth(lat, dec, H):
    return (np.degrees(np.arctan2(np.sin(H * D), np.cos(H * D) * np.sin(lat * D) - np.tan(dec * D) * np.cos(lat * D))) + 180) % 360


def refraction(p_pa, t_k, e0):
    """p in pascal, t in kelvin; zero when the whole disc is below the horizon."""
    if not e0 >= -(0.26667 + 0.5667):
        return 0.0
    return (p_pa / 100 / 1010) * (283 / t_k) * 1.02 / (60 * np.tan((e0 + 10.3 / (e0 + 5.11)) * D))


class Sun:
    """Geocentric quantities at a (UT, TT) Julian date pair."""

    def __init__(self, jd, jde):
        self.jd, self.jde = jd, jde
        self.jce = (jde - 2451545.0) / 36525
        self.jme = self.jce / 10
        self.L = helio_longitude(self.jme)
        self.B = helio_latitude(self.jme)
        self.R = distance(self.jme)
        self.theta = (self.L + 180) % 360
        self.beta = -self.B
        self.dpsi, self.deps = nutation(self.jce)
        self.eps = obliquity(self.jme, self.deps)
        self.lam = self.theta + self.dpsi + aberration(self.R)
        self.ra = right_ascension(self.lam, self.eps, self.beta)
        self.dec = declination(self.lam, self.eps, self.beta)

    def sidereal(self, mask=''):
        return apparent_sidereal(self.jd, self.dpsi, self.eps, mask)

    def topocentric(self, lat, lon, elev, mask=''):
        H = self.sidereal(mask) + lon - self.ra
        x, y = observer(lat, elev)
        xi = parallax(self.R, mask)
        dra = delta_ra(x, xi, H, self.dec)
        return topo_declination(x, y, xi, H, self.dec, dra, mask), (H - dra) % 360

    def horizontal(self, lat, lon, elev=0, p=101325.0, t=288.15, mask=''):
        """azimuth, refracted altitude, geometric altitude (degrees)"""
        d, h = self.topocentric(lat, lon, elev, mask)
        e0 = elevation_angle(lat, d, h)
        return azimuth(lat, d, h), e0 + refraction(p, t, e0), e0
