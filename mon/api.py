"""the public functions that take a time: name -> (arguments with the place of the time marked, keyword name)"""
W = object()          # stands for the time argument

TIMED = {
    'solartime.get_leap_seconds': (W,), 'solartime.get_delta_t': (W,),
    'solartime.get_julian_solar_day': (W,), 'solartime.get_julian_ephemeris_day': (W,),
    'solar.get_position': ('lat', 'lon', W), 'solar.get_altitude': ('lat', 'lon', W),
    'solar.get_azimuth': ('lat', 'lon', W), 'solar.get_altitude_fast': ('lat', 'lon', W),
    'solar.get_azimuth_fast': ('lat', 'lon', W), 'solar.get_hour_angle': (W, 'lon'),
    'solar.get_solar_time': ('lon', W), 'solar.get_topocentric_position': ('lat', 'lon', W),
    'radiation.get_radiation_direct': (W, 'alt'),
    'util.mean_earth_sun_distance': (W,), 'util.extraterrestrial_irrad': ('lat', 'lon', W),
    'util.declination_degree': (W,), 'util.solarelevation_function_clear': ('lat', 'lon', W),
    'util.solarelevation_function_overcast': ('lat', 'lon', W), 'util.diffuse_underclear': ('lat', 'lon', W),
    'util.diffuse_underovercast': ('lat', 'lon', W), 'util.direct_underclear': ('lat', 'lon', W),
    'util.global_irradiance_clear': ('lat', 'lon', W), 'util.global_irradiance_overcast': ('lat', 'lon', W),
    'util.clear_index': ('ghi', 'lat', 'lon', W),
}
LOCAL_DAY = {
    'util.get_sunrise_sunset_transit': ('lat', 'lon', W), 'util.get_sunrise_sunset': ('lat', 'lon', W),
    'util.get_sunrise_time': ('lat', 'lon', W), 'util.get_sunset_time': ('lat', 'lon', W),
    'util.get_transit_time': ('lat', 'lon', W),
}
ALL = {**TIMED, **LOCAL_DAY}


def args(spec, when, **vals):
    return tuple(when if a is W else vals[a] for a in spec)
