"""Low-precision solar coordinates (Meeus, Astronomical Algorithms ch. 25; about
0.01 degree), sharing no table with the SPA: an oracle for gross truth."""
import math


def sun(jd_ut, jde):
    T = (jde - 2451545.0) / 36525
    L0 = 280.46646 + 36000.76983 * T + 0.0003032 * T * T
    M = math.radians((357.52911 + 35999.05029 * T - 0.0001537 * T * T) % 360)
    e = 0.016708634 - 0.000042037 * T - 0.0000001267 * T * T
    C = ((1.914602 - 0.004817 * T - 0.000014 * T * T) * math.sin(M)
         + (0.019993 - 0.000101 * T) * math.sin(2 * M) + 0.000289 * math.sin(3 * M))
    nu = M + math.radians(C)
    R = 1.000001018 * (1 - e * e) / (1 + e * math.cos(nu))
    om = math.radians(125.04 - 1934.136 * T)
    lam = math.radians(L0 + C - 0.00569 - 0.00478 * math.sin(om))
    eps0 = 23 + 26 / 60 + 21.448 / 3600 - (46.8150 * T + 0.00059 * T * T - 0.001813 * T ** 3) / 3600
    eps = math.radians(eps0 + 0.00256 * math.cos(om))
    ra = math.degrees(math.atan2(math.cos(eps) * math.sin(lam), math.cos(lam))) % 360
    dec = math.degrees(math.asin(math.sin(eps) * math.sin(lam)))
    Tu = (jd_ut - 2451545.0) / 36525
    gmst = 280.46061837 + 360.98564736629 * (jd_ut - 2451545.0) + 0.000387933 * Tu * Tu - Tu ** 3 / 38710000
    gast = gmst - 0.00478 * math.sin(om) * math.cos(eps)
    return ra, dec, R, gast % 360


def horizontal(jd_ut, jde, lat, lon):
    """geocentric azimuth, geometric altitude with the 8.8 arcsec parallax applied"""
    ra, dec, R, gast = sun(jd_ut, jde)
    H = math.radians(gast + lon - ra)
    la, d = math.radians(lat), math.radians(dec)
    s = math.sin(la) * math.sin(d) + math.cos(la) * math.cos(d) * math.cos(H)
    alt = math.degrees(math.asin(max(-1, min(1, s))))
    az = (math.degrees(math.atan2(math.sin(H), math.cos(H) * math.sin(la) - math.tan(d) * math.cos(la))) + 180) % 360
    alt -= 8.794 / 3600 / R * math.cos(math.radians(alt))
    return az, alt
