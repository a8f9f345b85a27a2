From 30489ddf1267826f6ef204ce219604be4ad727ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:12 +0000
Subject: [PATCH 01/37] fix: direct radiation is 0, not NaN or OverflowError,
 just below the horizon

---
 pysolar/radiation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysolar/radiation.py b/pysolar/radiation.py
index 8783de0..fcad5b5 100644
--- a/pysolar/radiation.py
+++ b/pysolar/radiation.py
@@ -46,6 +46,7 @@ def get_radiation_direct(when, altitude_deg):
     day = math.tm_yday(when)
     flux = get_apparent_extraterrestrial_flux(day)
     optical_depth = get_optical_depth(day)
-    air_mass_ratio = get_air_mass_ratio(altitude_deg)
+    # below the horizon the air mass is negative and the exponential may overflow
+    air_mass_ratio = math.where(is_daytime, get_air_mass_ratio(altitude_deg), 0.)
     return flux * math.exp(-1 * optical_depth * air_mass_ratio) * is_daytime
 #end get_radiation_direct
-- 
2.43.0


From 30ab089fde4a6740f9071c389b1cb681fd6387a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:13 +0000
Subject: [PATCH 02/37] fix: get_radiation_direct() rejects naive datetimes
 like every other function

---
 pysolar/radiation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysolar/radiation.py b/pysolar/radiation.py
index fcad5b5..34f2eb0 100644
--- a/pysolar/radiation.py
+++ b/pysolar/radiation.py
@@ -19,6 +19,7 @@
 
 """
 from . import numeric as math
+from .tzinfo_check import check_aware_dt
 
 def get_air_mass_ratio(altitude_deg):
     # from Masters, p. 412
@@ -40,6 +41,7 @@ def get_optical_depth(day):
     return 0.174 + (0.035 * math.sin(2 * math.pi / 365 * (day - 100)))
 #end get_optical_depth
 
+@check_aware_dt('when')
 def get_radiation_direct(when, altitude_deg):
     # from Masters, p. 412
     is_daytime = (altitude_deg > 0)
-- 
2.43.0


From ae75fd907466a4d29cf7181a746d6524f0b180e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:14 +0000
Subject: [PATCH 03/37] fix: get_refraction_correction() does not divide by
 zero at -5.11 degrees

---
 pysolar/solar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 663d39b..e71e76b 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -336,10 +336,11 @@ def get_refraction_correction(pressure, temperature, topocentric_elevation_angle
     # http://iopscience.iop.org/1538-3881/119/5/2472/pdf/1538-3881_119_5_2472.pdf
 
     a = pressure * 2.830 * 1.02
+    is_valid = tea >= -1.0*(sun_radius + atmos_refract)
+    tea = math.where(is_valid, tea, 0.)  # keep clear of the pole at -5.11 degrees
     b = 1010.0 * temperature * 60.0 * math.tan(math.radians(tea + (10.3/(tea + 5.11))))
 
-    del_e = math.where(tea >= -1.0*(sun_radius + atmos_refract),
-                       a / b, 0.)
+    del_e = math.where(is_valid, a / b, 0.)
 
     return del_e
 
-- 
2.43.0


From 24f849ef7248bd22c4bbc53c3ab119486dbd9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:18 +0000
Subject: [PATCH 04/37] fix: after its table, get_delta_t() holds the last
 value instead of repeating the last year's months

---
 pysolar/solartime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/solartime.py b/pysolar/solartime.py
index 14e9f11..fd18f32 100644
--- a/pysolar/solartime.py
+++ b/pysolar/solartime.py
@@ -733,6 +733,7 @@ def get_delta_t(when) :
         month = max(0, month - delta_t_base_month) + 1
     elif year >= delta_t_base_year + len(delta_t) :
         year = delta_t_base_year + len(delta_t) - 1
+        month = 12
     #end if
     if year == delta_t_base_year + len(delta_t) - 1 :
         month = min(month, len(delta_t[year - delta_t_base_year]))
-- 
2.43.0


From 7d2e919449603e8dbcebc690f5e1b8a152beca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:20 +0000
Subject: [PATCH 05/37] fix: the leap second warning names the year that is not
 available

---
 pysolar/solartime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/solartime.py b/pysolar/solartime.py
index fd18f32..64b18aa 100644
--- a/pysolar/solartime.py
+++ b/pysolar/solartime.py
@@ -116,7 +116,7 @@ def get_leap_seconds(when) :
                   (
                         "Leap seconds for year %d are not available for the installed version of pysolar"
                     %
-                        (leap_seconds_base_year + len(leap_seconds_adjustments) - 1)
+                        when.tm_year
                   )
             #end if
             break
-- 
2.43.0


From 9e5e4df807dea8fb221cf0b4a40d27129e738f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:21 +0000
Subject: [PATCH 06/37] fix: datetime_range() accepts a fractional or float
 number of minutes

---
 pysolar/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 0f223b7..5ee6976 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -29,7 +29,7 @@ def datetime_range(start_datetime, end_datetime, step_minutes):
     step = step_minutes * 60
     span = end_datetime - start_datetime
     dt = datetime.timedelta(seconds = step)
-    for n in range((span.days * constants.seconds_per_day + span.seconds) // step) :
+    for n in range(int((span.days * constants.seconds_per_day + span.seconds) // step)) :
         yield start_datetime + dt * n
     #end for
 #end datetime_range
-- 
2.43.0


From 12305270c3e2e3aa7410c9cf7fa1e73939a0a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:22 +0000
Subject: [PATCH 07/37] fix: simulate_span() wraps an azimuth that rounds to
 360 back to the horizon's first entry

---
 pysolar/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 5ee6976..1282cca 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -48,7 +48,7 @@ def simulate_span(latitude_deg, longitude_deg, horizon, start_datetime, end_date
     for time in datetime_range(start_datetime, end_datetime, step_minutes) :
         alt = solar.get_altitude(latitude_deg, longitude_deg, time, elevation, temperature, pressure)
         azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)
-        shade = horizon[round(azi)]
+        shade = horizon[round(azi) % 360]
         if shade < alt_zero - round(alt_zero * math.sin(math.radians(alt))) :
             rad = 0
         else :
-- 
2.43.0


From c3f394c2a208ce7798f2739b4c5d88e2a20947cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:24 +0000
Subject: [PATCH 08/37] fix: sunrise, sunset and transit are not an hour off on
 days with a DST change

---
 pysolar/util.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 1b2fdd4..46f418e 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -29,7 +29,8 @@
 """
 from datetime import \
     datetime, \
-    timedelta
+    timedelta, \
+    timezone
 from . import numeric as math
 from . import solar, constants
 from .tzinfo_check import check_aware_dt
@@ -156,10 +157,13 @@ def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
         *
             (12 / math.pi)
         )
-    same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = when.tzinfo)
-    sunrise_time = same_day + timedelta(hours = TON - ha)
-    sunset_time = same_day + timedelta(hours = TON + ha)
-    transit_time = same_day + timedelta(hours = TON)
+    # SHA is relative to the offset in force at `when`, which need not be the one in
+    # force at the times computed here
+    fixed_offset = timezone(timedelta(seconds = utc_offset))
+    same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = fixed_offset)
+    sunrise_time = (same_day + timedelta(hours = TON - ha)).astimezone(when.tzinfo)
+    sunset_time = (same_day + timedelta(hours = TON + ha)).astimezone(when.tzinfo)
+    transit_time = (same_day + timedelta(hours = TON)).astimezone(when.tzinfo)
     return sunrise_time, sunset_time, transit_time
 
 @check_aware_dt('when')
-- 
2.43.0


From d0409e46abebcb903c67a2729f1ca030d24bbdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:26 +0000
Subject: [PATCH 09/37] fix: mean_earth_sun_distance() varies over the year
 instead of always returning 1

---
 pysolar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 46f418e..9a771bd 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -213,7 +213,7 @@ def mean_earth_sun_distance(when):
             radiation models, p.113
     """
 
-    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94)) / 365
+    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94) / 365)
 
 @check_aware_dt('when')
 def extraterrestrial_irrad(latitude_deg, longitude_deg, when, SC=SC_default):
-- 
2.43.0


From d76e5c6719ee408343e554ac5a54bac83b27f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 10/37] fix: util takes the sine of the solar altitude in
 radians, not degrees

---
 pysolar/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 9a771bd..6e5c11a 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -321,7 +321,7 @@ def solarelevation_function_clear(latitude_deg, longitude_deg, when, temperature
             and proposed new approaches", energy 30 (2005), pp 1533 - 1549.
 
     """
-    altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
+    altitude = math.radians(solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure))
     return (0.038175 + (1.5458 * (math.sin(altitude))) + ((-0.59980) * (0.5 * (1 - math.cos(2 * (altitude))))))
 
 @check_aware_dt('when')
@@ -365,7 +365,7 @@ def solarelevation_function_overcast(latitude_deg, longitude_deg, when,
         Design of Buildings"
 
     """
-    altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
+    altitude = math.radians(solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure))
     return ((-0.0067133) + (0.78600 * (math.sin(altitude)))) + (0.22401 * (0.5 * (1 - math.cos(2 * altitude))))
 
 
@@ -522,9 +522,9 @@ def direct_underclear(latitude_deg, longitude_deg, when,
     DEC = declination_degree(when,TY)
 
     DIRC = (1367 * KD * math.exp(-0.8662 * (AM) * (TL) * (DEC)
-                             ) * math.sin(solar.get_altitude(latitude_deg,longitude_deg,
+                             ) * math.sin(math.radians(solar.get_altitude(latitude_deg,longitude_deg,
                                                           when,elevation ,
-                                                          temperature , pressure )))
+                                                          temperature , pressure ))))
 
     return DIRC
 
-- 
2.43.0


From 5d5306c48b7bae955fc00e9b3bb493aae5f4e579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:30 +0000
Subject: [PATCH 11/37] fix: global_irradiance_clear() uses its temperature,
 pressure and TL arguments

---
 pysolar/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 6e5c11a..a10720c 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -577,12 +577,12 @@ def global_irradiance_clear(latitude_deg, longitude_deg, when,
 
     """
     DIRC =  direct_underclear(latitude_deg, longitude_deg, when,
-                              TY, AM, TL, elevation, temperature = constants.standard_temperature,
-                              pressure = constants.standard_pressure)
+                              TY, AM, TL, elevation, temperature = temperature,
+                              pressure = pressure)
 
     DIFFC = diffuse_underclear(latitude_deg, longitude_deg, when,
-                               elevation, temperature = constants.standard_temperature, 
-                               pressure= constants.standard_pressure)
+                               elevation, temperature = temperature,
+                               pressure = pressure, TL = TL)
 
     ghic = (DIRC + DIFFC)
 
-- 
2.43.0


From fd96bc1691ebbc547a37199fab11ba3882149906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:31 +0000
Subject: [PATCH 12/37] fix: cubic term of the mean sidereal time as in Reda &
 Andreas

---
 pysolar/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index e71e76b..b7ddd84 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -264,7 +264,7 @@ def get_local_hour_angle(apparent_sidereal_time, longitude, geocentric_sun_right
 def get_mean_sidereal_time(jd):
     # This function doesn't agree with Andreas and Reda as well as it should. Works to ~5 sig figs in current unit test
     jc = stime.get_julian_century(jd)
-    sidereal_time =  280.46061837 + (360.98564736629 * (jd - 2451545.0)) + 0.000387933 * jc * jc * (1 - jc / 38710000)
+    sidereal_time =  280.46061837 + (360.98564736629 * (jd - 2451545.0)) + 0.000387933 * jc * jc - jc ** 3 / 38710000
     return sidereal_time % 360
 
 def get_nutation(jce):
-- 
2.43.0


From a28818ec57fd09ccc6f8041e60daa3f7cb521a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:51 +0000
Subject: [PATCH 13/37] fix: use_math() restores the scalar where() after
 use_numpy()

---
 pysolar/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index 112a59e..badd73b 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -127,7 +127,7 @@ def use_math():
     globals_import_from('math', 'atan2', 'atan2')
     globals_import_from('math', 'exp', 'exp')
     globals_import_from('math', 'e', 'e')
-    globals()['where'] = where
+    globals()['where'] = where_math
     globals()['tm_yday'] = tm_yday_math
     globals()['tm_hour'] = tm_hour_math
     globals()['tm_min'] = tm_min_math
-- 
2.43.0


From 7e4d2bbad61407c5473a8ae60255663773eb5a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:52 +0000
Subject: [PATCH 14/37] fix: numeric provides log(), which the REST2 model
 needs

---
 pysolar/numeric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index badd73b..65a5abd 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -29,7 +29,7 @@ To force builtins math module usage when numpy is available:
 """
 
 from math import degrees, cos, sin, radians, tan, pi
-from math import acos, atan, asin, atan2, exp, e
+from math import acos, atan, asin, atan2, exp, log, e
 
 current_mod = 'math'
 
@@ -103,6 +103,7 @@ def use_numpy():
     globals_import_from('numpy', 'arcsin', 'asin')
     globals_import_from('numpy', 'arctan2', 'atan2')
     globals_import_from('numpy', 'exp', 'exp')
+    globals_import_from('numpy', 'log', 'log')
     globals_import_from('numpy', 'e', 'e')
     globals_import_from('numpy', 'where', 'where')
     globals()['tm_yday'] = tm_yday_numpy
@@ -126,6 +127,7 @@ def use_math():
     globals_import_from('math', 'asin', 'asin')
     globals_import_from('math', 'atan2', 'atan2')
     globals_import_from('math', 'exp', 'exp')
+    globals_import_from('math', 'log', 'log')
     globals_import_from('math', 'e', 'e')
     globals()['where'] = where_math
     globals()['tm_yday'] = tm_yday_math
-- 
2.43.0


From 6d41d746cc326acc3ac075302702450a71899bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:54 +0000
Subject: [PATCH 15/37] fix: rounding errors no longer take asin/acos out of
 their domain

---
 pysolar/numeric.py | 8 ++++++++
 pysolar/solar.py   | 8 ++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index 65a5abd..adeaa03 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -52,6 +52,14 @@ def where_math(condition, x, y):
 where = where_math
 
 
+def clamp_unit(x):
+    """
+    Limits x to [-1, 1], so that rounding errors do not take the argument of
+    asin or acos out of its domain
+    """
+    return where(x > 1., 1., where(x < -1., -1., x))
+
+
 def tm_yday_math(d):
     return d.utctimetuple().tm_yday
 
diff --git a/pysolar/solar.py b/pysolar/solar.py
index b7ddd84..42237b1 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -139,7 +139,7 @@ def get_altitude_fast(latitude_deg, longitude_deg, when):
     hour_angle = get_hour_angle(when, longitude_deg)
     first_term = math.cos(latitude_rad) * math.cos(declination_rad) * math.cos(math.radians(hour_angle))
     second_term = math.sin(latitude_rad) * math.sin(declination_rad)
-    return math.degrees(math.asin(first_term + second_term))
+    return math.degrees(math.asin(math.clamp_unit(first_term + second_term)))
 
 
 def get_apparent_sidereal_time(jd, jme, nutation):
@@ -170,7 +170,7 @@ def get_azimuth_fast(latitude_deg, longitude_deg, when):
     hour_angle_rad = math.radians(get_hour_angle(when, longitude_deg))
     altitude_rad = math.radians(get_altitude_fast(latitude_deg, longitude_deg, when))
 
-    azimuth_rad = math.asin(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad))
+    azimuth_rad = math.asin(math.clamp_unit(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad)))
 
     return math.where(math.cos(hour_angle_rad) * math.tan(latitude_rad) >= math.tan(declination_rad),
                       (180 - math.degrees(azimuth_rad)),
@@ -256,7 +256,7 @@ def get_incidence_angle(topocentric_zenith_angle, slope, slope_orientation, topo
     slope_rad = math.radians(slope)
     so_rad = math.radians(slope_orientation)
     taa_rad = math.radians(topocentric_azimuth_angle)
-    return math.degrees(math.acos(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad)))
+    return math.degrees(math.acos(math.clamp_unit(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad))))
 
 def get_local_hour_angle(apparent_sidereal_time, longitude, geocentric_sun_right_ascension):
     return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) % 360
@@ -370,7 +370,7 @@ def get_topocentric_elevation_angle(latitude, topocentric_sun_declination, topoc
     latitude_rad = math.radians(latitude)
     tsd_rad = math.radians(topocentric_sun_declination)
     tlha_rad = math.radians(topocentric_local_hour_angle)
-    return math.degrees(math.asin((math.sin(latitude_rad) * math.sin(tsd_rad)) + math.cos(latitude_rad) * math.cos(tsd_rad) * math.cos(tlha_rad)))
+    return math.degrees(math.asin(math.clamp_unit((math.sin(latitude_rad) * math.sin(tsd_rad)) + math.cos(latitude_rad) * math.cos(tsd_rad) * math.cos(tlha_rad))))
 
 def get_topocentric_local_hour_angle(local_hour_angle, parallax_sun_right_ascension):
     return local_hour_angle - parallax_sun_right_ascension
-- 
2.43.0


From 1aecae968a790afd6b9b236548c65816596796b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:31 +0000
Subject: [PATCH 16/37] fix: REST2 optical masses follow Gueymard (2003): Z in
 degrees, quotient inside the sum

---
 pysolar/rest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index 7e39181..dbe8680 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -214,25 +214,25 @@ def get_nitrogen_transmittance(band, mw, nitrogen_atm_cm):
 def get_optical_mass_rayleigh(altitude_deg, pressure_millibars):
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return (pressure_millibars / standard_pressure_millibars) / ((math.cos(Z_rad) + 0.48353 * Z_rad ** 0.095846) / (96.741 - Z_rad) ** 1.754)
+    return (pressure_millibars / standard_pressure_millibars) / (math.cos(Z_rad) + 0.48353 * Z ** 0.095846 / (96.741 - Z) ** 1.754)
 
 
 def get_optical_mass_ozone(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 1.0651 * Z_rad ** 0.6379) / (101.8 - Z_rad) ** 2.2694)
+    return 1 / (math.cos(Z_rad) + 1.0651 * Z ** 0.6379 / (101.8 - Z) ** 2.2694)
 
 
 def get_optical_mass_water(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 0.10648 * Z_rad ** 0.11423) / (93.781 - Z_rad) ** 1.9203)
+    return 1 / (math.cos(Z_rad) + 0.10648 * Z ** 0.11423 / (93.781 - Z) ** 1.9203)
 
 
 def get_optical_mass_aerosol(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 0.16851 * Z_rad ** 0.18198) / (95.318 - Z_rad) ** 1.9542)
+    return 1 / (math.cos(Z_rad) + 0.16851 * Z ** 0.18198 / (95.318 - Z) ** 1.9542)
 
 
 def get_ozone_transmittance(band, mo, uo):
-- 
2.43.0


From b4ef637908e4a376a056e24263f277f66002d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 17/37] fix: REST2 applies the pressure correction of the
 Rayleigh optical mass once

---
 pysolar/rest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index dbe8680..99b0d67 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -135,7 +135,7 @@ def get_direct_normal_irradiance_by_band(band, altitude_deg, pressure_millibars=
     ma = get_optical_mass_aerosol(altitude_deg)
     mo = get_optical_mass_ozone(altitude_deg)
     mR = get_optical_mass_rayleigh(altitude_deg, pressure_millibars)
-    mRprime = mR * pressure_millibars / standard_pressure_millibars
+    mRprime = mR  # get_optical_mass_rayleigh() has corrected it for pressure
     mw = get_optical_mass_water(altitude_deg)
 
     effective_wavelength = get_effective_aerosol_wavelength(
-- 
2.43.0


From e920ccd5f2770566c06545418f9232cf0c69a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 18/37] fix: sign of the quadratic term in REST2's
 high-frequency Rayleigh transmittance

---
 pysolar/rest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index 99b0d67..a7f523d 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -256,7 +256,7 @@ def get_rayleigh_extinction_forward_scattering_fraction(band, mR):
 
 def get_rayleigh_transmittance(band, mRprime):
     if band == "high-frequency":
-        return (1 + 1.8169 * mRprime + 0.033454 * mRprime ** 2) / (1 + 2.063 * mRprime + 0.31978 * mRprime ** 2)
+        return (1 + 1.8169 * mRprime - 0.033454 * mRprime ** 2) / (1 + 2.063 * mRprime + 0.31978 * mRprime ** 2)
     else:
         return (1 - 0.010394 * mRprime) / (1 - 0.00011042 * mRprime ** 2)
 
-- 
2.43.0


From 5491220d1a48ad857c83a8547ed3498dd56f2c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 19/37] fix: REST2 nitrogen dioxide transmittance depends on
 the given amount

---
 pysolar/rest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index a7f523d..fb62983 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -200,6 +200,7 @@ def get_ground_albedo(band):
 
 def get_nitrogen_transmittance(band, mw, nitrogen_atm_cm):
     if band == "high-frequency":
+        un = nitrogen_atm_cm
         g1 = (0.17499 + 41.654 * un - 2146.4 * un ** 2) / \
             (1 + 22295.0 * un ** 2)
         g2 = un * (-1.2134 + 59.324 * un) / (1 + 8847.8 * un ** 2)
-- 
2.43.0


From 8e818821eb0ac4414418273c4ed9c2b9c70b2429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 20/37] fix: numpy backend keeps the seconds of a UTC offset

---
 pysolar/numeric.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index adeaa03..286fcdd 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -60,6 +60,17 @@ def clamp_unit(x):
     return where(x > 1., 1., where(x < -1., -1., x))
 
 
+def to_utc(d):
+    """
+    Converts an aware datetime to a naive one in UTC; numpy would do it too, but
+    with a warning, and dropping the seconds of the UTC offset
+    """
+    offset = d.utcoffset() if hasattr(d, 'utcoffset') else None
+    if offset is None:
+        return d
+    return (d - offset).replace(tzinfo=None)
+
+
 def tm_yday_math(d):
     return d.utctimetuple().tm_yday
 
@@ -67,6 +78,7 @@ tm_yday = tm_yday_math
 
 
 def tm_yday_numpy(d):
+    d = to_utc(d)
     dd = numpy.array(d, dtype='datetime64[D]')
     dy = numpy.array(d, dtype='datetime64[Y]')
     return (dd - dy).astype('int') + 1
@@ -79,6 +91,7 @@ tm_hour = tm_hour_math
 
 
 def tm_hour_numpy(d):
+    d = to_utc(d)
     dh = numpy.array(d, dtype='datetime64[h]')
     dd = numpy.array(d, dtype='datetime64[D]')
     return (dh - dd).astype('int')
@@ -91,6 +104,7 @@ tm_min = tm_min_math
 
 
 def tm_min_numpy(d):
+    d = to_utc(d)
     dm = numpy.array(d, dtype='datetime64[m]')
     dh = numpy.array(d, dtype='datetime64[h]')
     return (dm - dh).astype('int')
-- 
2.43.0


From 2ea7c6076ea4d036503e924f5da0d5babfc44387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 21/37] fix: diffuse_underclear() applies the solar elevation
 function, not the altitude in degrees

---
 pysolar/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index a10720c..61bf997 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -429,8 +429,11 @@ def diffuse_underclear(latitude_deg, longitude_deg, when, elevation = elevation_
     """
     DT = ((-21.657) + (41.752 * (TL)) + (0.51905 * (TL) * (TL)))
     altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
+    if altitude <= 0:
+        return 0.0
 
-    return mean_earth_sun_distance(when) * DT * altitude
+    return mean_earth_sun_distance(when) * DT * solarelevation_function_clear(
+        latitude_deg, longitude_deg, when, temperature, pressure, elevation)
 
 @check_aware_dt('when')
 def diffuse_underovercast(latitude_deg, longitude_deg, when, elevation = elevation_default,
-- 
2.43.0


From 4f2ed4a94a551ab67a80845147a9f7375cbd33c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 22/37] fix: global_irradiance_overcast() applies the overcast
 elevation function, not the altitude in degrees

---
 pysolar/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 61bf997..ac99fcf 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -631,8 +631,8 @@ def global_irradiance_overcast(latitude_deg, longitude_deg, when,
             (2005), pp 1533 - 1549.
 
     """
-    ghioc = (572 * (solar.get_altitude(latitude_deg, longitude_deg, when,
-                                    elevation , temperature , pressure )))
+    ghioc = max(0.0, 572 * solarelevation_function_overcast(latitude_deg, longitude_deg, when,
+                                                            elevation , temperature , pressure ))
 
     return ghioc
 
-- 
2.43.0


From bceee4a71d8b7ad1101fd38a6a459f832424b94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 23/37] fix: type stubs declare the parameters and return types
 the functions have

---
 pysolar/__init__.pyi  | 10 ++++++++++
 pysolar/constants.pyi |  6 +++---
 pysolar/solar.pyi     | 13 +++++++------
 pysolar/util.pyi      |  8 ++++----
 4 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/pysolar/__init__.pyi b/pysolar/__init__.pyi
index 34d207e..bb62f5d 100644
--- a/pysolar/__init__.pyi
+++ b/pysolar/__init__.pyi
@@ -1 +1,11 @@
 # Stubs for pysolar (Python 3.6)
+
+from . import \
+    constants as constants, \
+    solartime as stime, \
+    radiation as radiation, \
+    util as util, \
+    solar as solar
+
+def use_numpy() -> None: ...
+def use_math() -> None: ...
diff --git a/pysolar/constants.pyi b/pysolar/constants.pyi
index a6b8780..5b8b869 100644
--- a/pysolar/constants.pyi
+++ b/pysolar/constants.pyi
@@ -1,10 +1,10 @@
 # Stubs for pysolar.constants (Python 3.6)
 
-from typing import Dict, List, Tuple
+from typing import Callable, Dict, List, Optional, Tuple
 
-aberration_coeffs: Dict[str,float]
+aberration_coeffs: Optional[Dict[str, Callable[[float], float]]]
 
-def get_aberration_coeffs() -> Dict[str,float]: ...
+def get_aberration_coeffs() -> Dict[str, Callable[[float], float]]: ...
 
 earth_radius: float
 earth_axis_inclination: float
diff --git a/pysolar/solar.pyi b/pysolar/solar.pyi
index 93b1b92..6507dd3 100644
--- a/pysolar/solar.pyi
+++ b/pysolar/solar.pyi
@@ -1,18 +1,18 @@
 # Stubs for pysolar.solar (Python 3.6)
 
 import datetime
-from typing import List, Tuple
+from typing import Dict, List, Tuple
 
 def solar_test() -> None: ...
 def equation_of_time(day:int) -> float: ...
 def get_aberration_correction(sun_earth_distance:float) -> float: ...
 def get_altitude(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def get_altitude_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-def get_apparent_sidereal_time(jd:float, jme:float, nutation_float) -> float: ...
-def get_apparent_sun_longitude(geocentric_longitude:float, nutation:float, ab_correction:float) -> float: ...
+def get_apparent_sidereal_time(jd:float, jme:float, nutation:Dict[str, float]) -> float: ...
+def get_apparent_sun_longitude(geocentric_longitude:float, nutation:Dict[str, float], ab_correction:float) -> float: ...
 def get_azimuth(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...) -> float: ...
 def get_azimuth_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-def get_coeff(jme:float, coeffs:List[List[float]]) -> float: ...
+def get_coeff(jme:float, coeffs:List[List[Tuple[float, float, float]]]) -> float: ...
 def get_declination(day:int) -> float: ...
 def get_equatorial_horizontal_parallax(sun_earth_distance:float) -> float: ...
 def get_flattened_latitude(latitude:float) -> float: ...
@@ -26,8 +26,9 @@ def get_hour_angle(when:datetime.datetime, longitude_deg:float) -> float: ...
 def get_incidence_angle(topocentric_zenith_angle:float, slope:float, slope_orientation:float, topocentric_azimuth_angle:float) -> float: ...
 def get_local_hour_angle(apparent_sidereal_time:float, longitude:float, geocentric_sun_right_ascension:float) -> float: ...
 def get_mean_sidereal_time(jd:float) -> float: ...
-def get_nutation(jce:float) -> float: ...
+def get_nutation(jce:float) -> Dict[str, float]: ...
 def get_parallax_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, geocentric_sun_declination:float) -> float: ...
+def get_topocentric_position(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...) -> Tuple[float, float]: ...
 def get_position(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> Tuple[float, float]: ...
 def get_projected_radial_distance(elevation:float, latitude:float) -> float: ...
 def get_projected_axial_distance(elevation:float, latitude:float) -> float: ...
@@ -40,4 +41,4 @@ def get_topocentric_local_hour_angle(local_hour_angle:float, parallax_sun_right_
 def get_topocentric_sun_declination(geocentric_sun_declination:float, projected_axial_distance:float, equatorial_horizontal_parallax:float, parallax_sun_right_ascension:float, local_hour_angle:float) -> float: ...
 def get_topocentric_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
 def get_topocentric_zenith_angle(latitude:float, topocentric_sun_declination:float, topocentric_local_hour_angle:float, pressure:float, temperature:float) -> float: ...
-def get_true_ecliptic_obliquity(jme:float, nutation:float) -> float: ...
+def get_true_ecliptic_obliquity(jme:float, nutation:Dict[str, float]) -> float: ...
diff --git a/pysolar/util.pyi b/pysolar/util.pyi
index 5f333ca..3b58afa 100644
--- a/pysolar/util.pyi
+++ b/pysolar/util.pyi
@@ -16,15 +16,15 @@ def get_sunrise_time(latitude_deg:float, longitude_deg:float, when:datetime.date
 def get_sunset_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
 def get_transit_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
 def mean_earth_sun_distance(when:datetime.datetime) -> float: ...
-def extraterrestrial_irrad(when:datetime.datetime, latitude_deg:float, longitude_deg:float, SC:float = ...) -> float: ...
+def extraterrestrial_irrad(latitude_deg:float, longitude_deg:float, when:datetime.datetime, SC:float = ...) -> float: ...
 def declination_degree(when:datetime.datetime, TY:float = ...) -> float: ...
 def solarelevation_function_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., elevation:float = ...) -> float: ...
 def solarelevation_function_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def diffuse_transmittance(TL:float = ...) -> float: ...
 def diffuse_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
 def diffuse_underovercast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
-def direct_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ...) -> float: ...
-def global_irradiance_clear(DIRC, DIFFC, latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ...) -> float: ...
+def direct_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
+def global_irradiance_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def global_irradiance_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def diffuse_ratio(DIFF_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int]) -> float: ...
-def clear_index(ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], when:datetime.datetime, latitude_deg:float, longitude_deg:float) -> float: ...
+def clear_index(ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-- 
2.43.0


From 44cdb428a2ea7200bef0c3c61d9b82264a018a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:50 +0000
Subject: [PATCH 24/37] fix: get_delta_t checks its data without relying on
 assert

Under python -O the assertions were gone and files with missing,
repeated or misdated months were silently turned into wrong tables.
---
 util/get_delta_t | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/util/get_delta_t b/util/get_delta_t
index d0a4785..f22420e 100755
--- a/util/get_delta_t
+++ b/util/get_delta_t
@@ -47,7 +47,9 @@ while True :
     entry = next(entries, None)
     if entry != None :
         year, month, day, dt = entry
-        assert day == 1, "not first day of month for year %d, month %d" % (year, month)
+        if day != 1 :
+            raise ValueError("not first day of month for year %d, month %d" % (year, month))
+        #end if
     #end if
     if entry == None or year != last_year :
         if last_year != None :
@@ -58,14 +60,18 @@ while True :
         #end if
         if entry == None :
             break
-        assert last_year == None or last_year + 1 == year, "years not consecutive: %d, %d" % (last_year, year)
+        if last_year != None and last_year + 1 != year :
+            raise ValueError("years not consecutive: %d, %d" % (last_year, year))
+        #end if
         if last_year == None :
             sys.stdout.write("# table generated by util/get_delta_t script\n")
             sys.stdout.write("delta_t_base_year = %d\n" % year)
             sys.stdout.write("delta_t_base_month = %d\n" % month)
             sys.stdout.write("delta_t = \\\n  [\n")
         else :
-            assert last_month == 12, "incomplete year %d at month %d" % (last_year, last_month)
+            if last_month != 12 :
+                raise ValueError("incomplete year %d at month %d" % (last_year, last_month))
+            #end if
         #end if
         sys.stdout.write("        [ # %d\n" % year)
         if last_year != None :
@@ -75,8 +81,9 @@ while True :
         #end if
         last_year = year
     #end if
-    assert last_month == None or month == last_month + 1, \
-        "months not consecutive for year %d: %d, %d"% (year, last_month, month)
+    if last_month != None and month != last_month + 1 :
+        raise ValueError("months not consecutive for year %d: %d, %d" % (year, last_month, month))
+    #end if
     sys.stdout.write("            %.4f, # %d\n" % (dt, month))
     last_month = month
 #end while
-- 
2.43.0


From 60c7bf819611a157f1c84881fe93bee513468d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:38 +0000
Subject: [PATCH 25/37] fix: reject datetimes whose tzinfo gives no UTC offset

By the definition of the datetime module they are naive; the check let
them through, to be rejected later with unrelated errors or, by
get_leap_seconds() and get_delta_t(), not at all.
---
 pysolar/tzinfo_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index 2518672..357f694 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -88,7 +88,7 @@ def check_aware_dt(*argnames):
               raise ValueError(
                 "Expected a 'datetime.datetime' object \
     for arg '%s', got %s instead" % (argname, dt))
-            if dt.tzinfo is None:
+            if dt.tzinfo is None or dt.utcoffset() is None:
               raise NoTimeZoneInfoError(argname, dt)
       return func(*args, **kwargs)
     return func_with_check
-- 
2.43.0


From e77d2ee77cd14b3198d2633f32262439999bc92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 26/37] fix: datetime_range no longer drops the fraction of a
 second of the span

---
 pysolar/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 1282cca..5c3426f 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -29,7 +29,7 @@ def datetime_range(start_datetime, end_datetime, step_minutes):
     step = step_minutes * 60
     span = end_datetime - start_datetime
     dt = datetime.timedelta(seconds = step)
-    for n in range(int((span.days * constants.seconds_per_day + span.seconds) // step)) :
+    for n in range(span // dt) :
         yield start_datetime + dt * n
     #end for
 #end datetime_range
-- 
2.43.0


From 1e0ed0efac50555e89f20d4f58d6845553c2c5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:39 +0000
Subject: [PATCH 27/37] fix: get_radiation_direct of an unknown (NaN) altitude
 is not 0

---
 pysolar/radiation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/radiation.py b/pysolar/radiation.py
index 34f2eb0..ec6ea4a 100644
--- a/pysolar/radiation.py
+++ b/pysolar/radiation.py
@@ -49,6 +49,6 @@ def get_radiation_direct(when, altitude_deg):
     flux = get_apparent_extraterrestrial_flux(day)
     optical_depth = get_optical_depth(day)
     # below the horizon the air mass is negative and the exponential may overflow
-    air_mass_ratio = math.where(is_daytime, get_air_mass_ratio(altitude_deg), 0.)
+    air_mass_ratio = math.where(altitude_deg <= 0, 0., get_air_mass_ratio(altitude_deg))
     return flux * math.exp(-1 * optical_depth * air_mass_ratio) * is_daytime
 #end get_radiation_direct
-- 
2.43.0


From 3754267b3523fd0d3b216b3df470174c586d2700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:39 +0000
Subject: [PATCH 28/37] fix: global_irradiance_overcast of an unknown (NaN)
 place is not 0

---
 pysolar/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index ac99fcf..e6866b6 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -631,8 +631,8 @@ def global_irradiance_overcast(latitude_deg, longitude_deg, when,
             (2005), pp 1533 - 1549.
 
     """
-    ghioc = max(0.0, 572 * solarelevation_function_overcast(latitude_deg, longitude_deg, when,
-                                                            elevation , temperature , pressure ))
+    ghioc = max(572 * solarelevation_function_overcast(latitude_deg, longitude_deg, when,
+                                                       elevation , temperature , pressure ), 0.0)
 
     return ghioc
 
-- 
2.43.0


From 6b98d673678512a258af3661450702b113348583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:39 +0000
Subject: [PATCH 29/37] fix: extraterrestrial_irrad of an unknown (NaN) place
 is not 0

---
 pysolar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index e6866b6..d347794 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -258,7 +258,7 @@ def extraterrestrial_irrad(latitude_deg, longitude_deg, when, SC=SC_default):
     ha = math.radians(solar.get_hour_angle(when, longitude_deg))
     ZA = math.sin(math.radians(latitude_deg)) * math.sin(decl) + math.cos(math.radians(latitude_deg)) * math.cos(decl) * math.cos(ha)
 
-    return SC * ZA * (1.00010 + 0.034221 * ab + 0.001280 * bc + 0.000719 * cd + 0.000077 * df) if ZA > 0 else 0.0
+    return 0.0 if ZA <= 0 else SC * ZA * (1.00010 + 0.034221 * ab + 0.001280 * bc + 0.000719 * cd + 0.000077 * df)
 
 
 @check_aware_dt('when')
-- 
2.43.0


From 3430bd651a3dcbd0e4def547737c7ab040c9d137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:39 +0000
Subject: [PATCH 30/37] fix: get_nitrogen_transmittance of an unknown (NaN)
 amount is not 1

---
 pysolar/rest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index fb62983..2572d02 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -206,7 +206,7 @@ def get_nitrogen_transmittance(band, mw, nitrogen_atm_cm):
         g2 = un * (-1.2134 + 59.324 * un) / (1 + 8847.8 * un ** 2)
         g3 = (0.17499 + 61.658 * un + 9196.4 * un ** 2) / \
             (1 + 74109.0 * un ** 2)
-        return min(1, (1 + g1 * mw + g2 * mw ** 2) / (1 + g3 * mw))
+        return min((1 + g1 * mw + g2 * mw ** 2) / (1 + g3 * mw), 1)
     else:
         return 1.0
 
-- 
2.43.0


From bf57d562c87414f3fcc9129bfdd06dac3bdc6103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:39 +0000
Subject: [PATCH 31/37] fix: get_refraction_correction of an unknown (NaN)
 altitude is not 0

---
 pysolar/solar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 42237b1..8308eea 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -336,11 +336,11 @@ def get_refraction_correction(pressure, temperature, topocentric_elevation_angle
     # http://iopscience.iop.org/1538-3881/119/5/2472/pdf/1538-3881_119_5_2472.pdf
 
     a = pressure * 2.830 * 1.02
-    is_valid = tea >= -1.0*(sun_radius + atmos_refract)
-    tea = math.where(is_valid, tea, 0.)  # keep clear of the pole at -5.11 degrees
+    is_below = tea < -1.0*(sun_radius + atmos_refract)
+    tea = math.where(is_below, 0., tea)  # keep clear of the pole at -5.11 degrees
     b = 1010.0 * temperature * 60.0 * math.tan(math.radians(tea + (10.3/(tea + 5.11))))
 
-    del_e = math.where(is_valid, a / b, 0.)
+    del_e = math.where(is_below, 0., a / b)
 
     return del_e
 
-- 
2.43.0


From 9e7d930456ec3129ba7fdc03e63236931c17ded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:21 +0000
Subject: [PATCH 32/37] fix: a checked datetime argument that is left out gives
 its default or a TypeError, not a KeyError

---
 pysolar/tzinfo_check.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index 357f694..5f21339 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -81,6 +81,8 @@ def check_aware_dt(*argnames):
           try:
             dt = args[full.args.index(argname)]
           except (IndexError, ValueError):
+            if argname not in kwargs:
+              continue  # left out: its default, or an error in 'func' itself
             dt = kwargs[argname]
           # checking if dt is timezone-aware
           if not hasattr(dt, 'shape'):   # don't raise Exception if dt is an array (assumed of datetime64)
-- 
2.43.0


From d27a63e60fcf74d5ce3f9a66bcc5c46688e54234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:45 +0000
Subject: [PATCH 33/37] fix: get_aerosol_optical_depth takes whole numbers of
 any kind

---
 pysolar/rest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index 2572d02..a3aed1b 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -41,7 +41,7 @@ def get_aerosol_forward_scatterance_factor(altitude_deg):
 
 def get_aerosol_optical_depth(turbidity_beta, effective_wavelength, turbidity_alpha):
     # returns tau_a
-    return turbidity_beta * effective_wavelength ** -turbidity_alpha
+    return turbidity_beta * effective_wavelength ** (-1.0 * turbidity_alpha)
 
 def get_aerosol_scattering_correction_factor(band, ma, tau_a):
     # returns F
-- 
2.43.0


From b2a38efdb850c16ba84a58720757046bd0fe2070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:09 +0000
Subject: [PATCH 34/37] fix: spans accept steps given as numpy integers

---
 pysolar/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 5c3426f..e55f172 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -26,7 +26,7 @@ from . import solar
 
 def datetime_range(start_datetime, end_datetime, step_minutes):
     '''yields a sequence of datetimes evenly spaced apart by step_minutes.'''
-    step = step_minutes * 60
+    step = step_minutes * 60.0
     span = end_datetime - start_datetime
     dt = datetime.timedelta(seconds = step)
     for n in range(span // dt) :
-- 
2.43.0


From 57da31923908e8498018c1cf7894a03e69df7fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:01 +0000
Subject: [PATCH 35/37] fix: check_aware_dt sees the parameters of functions
 that are decorated already

---
 pysolar/tzinfo_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index 5f21339..7b451d7 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -74,7 +74,7 @@ def check_aware_dt(*argnames):
         we just checked the values of args from argnames before"""
       for argname in argnames:
         # first checking if argname is a valid arg name
-        full = inspect.getfullargspec(func)
+        full = inspect.getfullargspec(inspect.unwrap(func))
         if (argname in full.args or
             argname in full.kwonlyargs):
           # getting value given for argname
-- 
2.43.0


From 05e74f4fc38769284e27d100c5b9d646c1768c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:32 +0000
Subject: [PATCH 36/37] fix: NoTimeZoneInfoError survives pickling and copying

---
 pysolar/tzinfo_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index 7b451d7..81ce386 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -7,7 +7,7 @@ class NoTimeZoneInfoError(ValueError):
   def __init__(self, argname, dt, *args):
     self.argname = argname
     self.dt = dt
-    super().__init__(*args)
+    super().__init__(argname, dt, *args)
 
   def __str__(self):
     return """datetime value '{dt}' given for arg '{argname}' \
-- 
2.43.0


From 5a8259df5109469ca88cc34e79992f937315e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:02 +0000
Subject: [PATCH 37/37] fix: sunrise, sunset and transit are those of the local
 day where clocks are a day ahead of the sun

---
 pysolar/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysolar/util.py b/pysolar/util.py
index d347794..bc1c921 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -138,6 +138,9 @@ def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
             /
                 3600
         ) # Time adjustment in hours
+    # clocks can be a day ahead of the sun (UTC+13, UTC+14): take the noon nearest to 12 o'clock
+    midday = datetime(year = when.year, month = when.month, day = when.day, hour = 12, tzinfo = when.tzinfo)
+    SHA -= 360 * round((midday.utcoffset().total_seconds() / 240 - longitude_deg) / 360)
     TON = 12 + SHA / 15.0 - time_adst # Time of noon
     ha = \
         (
-- 
2.43.0

