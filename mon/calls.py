"""random well-formed calls of every public function, for the checks that compare whole histories"""
from .ref import rest2

ATM = {'elevation': 'elev', 'temperature': 'temp', 'pressure': 'press'}
REST_OPT = {'pressure_millibars': 'mbar', 'ozone_atm_cm': 'uo', 'nitrogen_atm_cm': 'un', 'precipitable_water_cm': 'w',
            'turbidity_alpha': 'alpha', 'turbidity_beta': 'beta'}
SPEC = {
    'solar.equation_of_time': ('day',), 'solar.get_declination': ('day',), 'solar.get_aberration_correction': ('R',),
    'solar.get_topocentric_position': ('lat', 'lon', 'when', '?elev'),
    'solar.get_position': ('lat', 'lon', 'when', ATM), 'solar.get_altitude': ('lat', 'lon', 'when', ATM),
    'solar.get_azimuth': ('lat', 'lon', 'when', {'elevation': 'elev'}),
    'solar.get_altitude_fast': ('lat', 'lon', 'when'), 'solar.get_azimuth_fast': ('lat', 'lon', 'when'),
    'solar.get_apparent_sidereal_time': ('jd', 'jme', 'nut'), 'solar.get_apparent_sun_longitude': ('angle', 'nut', 'small'),
    'solar.get_equatorial_horizontal_parallax': ('R',), 'solar.get_flattened_latitude': ('lat',),
    'solar.get_geocentric_latitude': ('jme',), 'solar.get_geocentric_longitude': ('jme',),
    'solar.get_geocentric_sun_declination': ('angle', 'obl', 'small'), 'solar.get_geocentric_sun_right_ascension': ('angle', 'obl', 'small'),
    'solar.get_heliocentric_latitude': ('jme',), 'solar.get_heliocentric_longitude': ('jme',),
    'solar.get_hour_angle': ('when', 'lon'), 'solar.get_solar_time': ('lon', 'when'),
    'solar.get_incidence_angle': ('zen', 'slope', 'angle', 'angle'), 'solar.get_local_hour_angle': ('angle', 'lon', 'angle'),
    'solar.get_mean_sidereal_time': ('jd',), 'solar.get_nutation': ('jce',),
    'solar.get_parallax_sun_right_ascension': ('frac', 'par', 'angle', 'decl'),
    'solar.get_projected_radial_distance': ('elev', 'lat'), 'solar.get_projected_axial_distance': ('elev', 'lat'),
    'solar.get_sun_earth_distance': ('jme',), 'solar.get_refraction_correction': ('press', 'temp', 'alt'),
    'solar.get_topocentric_azimuth_angle': ('angle', 'lat', 'decl'), 'solar.get_topocentric_elevation_angle': ('lat', 'decl', 'angle'),
    'solar.get_topocentric_local_hour_angle': ('angle', 'small'),
    'solar.get_topocentric_sun_declination': ('decl', 'frac', 'par', 'small', 'angle'),
    'solar.get_topocentric_sun_right_ascension': ('frac', 'par', 'angle', 'angle', 'obl', 'small'),
    'solar.get_topocentric_zenith_angle': ('lat', 'decl', 'angle', 'press', 'temp'), 'solar.get_true_ecliptic_obliquity': ('jme', 'nut'),
    'solartime.get_leap_seconds': ('when',), 'solartime.get_delta_t': ('when',), 'solartime.get_julian_solar_day': ('when',),
    'solartime.get_julian_ephemeris_day': ('when',), 'solartime.get_julian_century': ('jd',),
    'solartime.get_julian_ephemeris_century': ('jd',), 'solartime.get_julian_ephemeris_millennium': ('jce',),
    'radiation.get_air_mass_ratio': ('up',), 'radiation.get_apparent_extraterrestrial_flux': ('day',),
    'radiation.get_optical_depth': ('day',), 'radiation.get_radiation_direct': ('when', 'alt'),
    'elevation.get_pressure_with_elevation': ('elev', {'Ps': 'press', 'Ts': 'ground', 'Tl': 'lapse', 'Hb': 'hb', 'R': 'gas', 'g': 'grav', 'M': 'molar'}),
    'elevation.get_temperature_with_elevation': ('elev', {'Ts': 'ground', 'Tl': 'lapse'}),
    'util.get_sunrise_sunset_transit': ('lat', 'lon', 'modern'), 'util.get_sunrise_sunset': ('lat', 'lon', 'modern'),
    'util.get_sunrise_time': ('lat', 'lon', 'modern'), 'util.get_sunset_time': ('lat', 'lon', 'modern'),
    'util.get_transit_time': ('lat', 'lon', 'modern'), 'util.mean_earth_sun_distance': ('when',),
    'util.extraterrestrial_irrad': ('lat', 'lon', 'when', {'SC': 'sc'}), 'util.declination_degree': ('when', {'TY': 'ty'}),
    'util.solarelevation_function_clear': ('lat', 'lon', 'when', ATM), 'util.solarelevation_function_overcast': ('lat', 'lon', 'when', ATM),
    'util.diffuse_transmittance': ({'TL': 'tl'},), 'util.diffuse_underclear': ('lat', 'lon', 'when', {**ATM, 'TL': 'tl'}),
    'util.diffuse_underovercast': ('lat', 'lon', 'when', {**ATM, 'TL': 'tl'}),
    'util.direct_underclear': ('lat', 'lon', 'when', {**ATM, 'TL': 'tl', 'AM': 'am', 'TY': 'ty'}),
    'util.global_irradiance_clear': ('lat', 'lon', 'when', {**ATM, 'TL': 'tl', 'AM': 'am', 'TY': 'ty'}),
    'util.global_irradiance_overcast': ('lat', 'lon', 'when', ATM), 'util.diffuse_ratio': ('ghi', 'ghi'),
    'util.clear_index': ('ghi', 'lat', 'lon', 'when'),
    'simulate.datetime_range': ('start', 'end', 'step'),
    'simulate.simulate_span': ('lat', 'lon', 'horizon', 'start', 'end', 'step', ATM),
    'rest.get_aerosol_forward_scatterance_factor': ('up',), 'rest.get_aerosol_optical_depth': ('beta', 'lam', 'alpha'),
    'rest.get_aerosol_scattering_correction_factor': ('band', 'mass', 'beta'), 'rest.get_aerosol_transmittance': ('band', 'mass', 'beta'),
    'rest.get_aerosol_scattering_transmittance': ('band', 'mass', 'beta'),
    'rest.get_backscattered_diffuse_irradiance_by_band': ('band', 'ghi', 'ghi', {'turbidity_alpha': 'alpha', 'turbidity_beta': 'beta'}),
    'rest.get_beam_broadband_irradiance': ('up', REST_OPT), 'rest.get_beam_irradiance_by_band': ('band', 'up', REST_OPT),
    'rest.get_broadband_direct_normal_irradiance': ('up', REST_OPT), 'rest.get_direct_normal_irradiance_by_band': ('band', 'up', REST_OPT),
    'rest.get_effective_aerosol_wavelength': ('band', 'mass', 'alpha', 'beta'), 'rest.get_gas_transmittance': ('band', 'mass'),
    'rest.get_ground_albedo': ('band',), 'rest.get_nitrogen_transmittance': ('band', 'mass', 'un'),
    'rest.get_optical_mass_rayleigh': ('up', 'mbar'), 'rest.get_optical_mass_ozone': ('up',), 'rest.get_optical_mass_water': ('up',),
    'rest.get_optical_mass_aerosol': ('up',), 'rest.get_ozone_transmittance': ('band', 'mass', 'uo'),
    'rest.get_rayleigh_extinction_forward_scattering_fraction': ('band', 'mass'), 'rest.get_rayleigh_transmittance': ('band', 'mass'),
    'rest.get_sky_albedo': ('band', 'alpha', 'beta'), 'rest.get_water_vapor_transmittance': ('band', 'mass', 'w'),
}
SHARP = {'ground': (270, 330, 288.15), 'lapse': (-.004, -.001, -.003), 'hb': (0, 100, 0), 'gas': (8, 9, 8.31432), 'grav': (9.7, 9.9, 9.80665), 'molar': (.028, .03, .0289644)}
NAMES = sorted(SPEC)
ANGLES = ('solar.get_geocentric_longitude', 'solar.get_heliocentric_longitude', 'solar.get_geocentric_sun_right_ascension',
          'solar.get_local_hour_angle', 'solar.get_mean_sidereal_time', 'solar.get_topocentric_azimuth_angle')
HEAVY = ('solar.get_position', 'solar.get_altitude', 'solar.get_azimuth', 'util.get_sunrise_sunset_transit', 'solar.get_nutation',
         'solar.get_topocentric_position', 'simulate.simulate_span', 'util.clear_index', 'solartime.get_julian_solar_day')


def spoilt(c, r):
    """the call with something useless in it"""
    n, a, kw = c
    a, kw = list(a), dict(kw)
    bad = r.choice((None, 'x', 1j, [], {}, float('nan'), float('inf'), -1, 10 ** 400))
    if kw and r.random() < .3:
        kw[r.choice(sorted(kw))] = bad
    elif a and not n.startswith('simulate.datetime_range'):
        a[r.randrange(min(len(a), 3))] = bad
    return n, tuple(a), kw


class Caller:
    def __init__(self, g, has=lambda n: True, array=False, pool=None):
        self.g, self.r = g, g.r
        self.names = [n for n in NAMES if has(n)]
        self.heavy = [n for n in HEAVY if has(n)] or self.names
        self.pool = pool       # name -> earlier values: near-duplicates on purpose

    def arg(self, kind):
        g, r = self.g, self.r
        if kind == 'when':
            return g.when()
        if kind == 'modern':
            return g.modern() if r.random() < .8 else g.clock_change_day()
        if kind == 'lat':
            return g.lat()
        if kind == 'lon':
            return g.lon()
        if kind == 'elev':
            return g.elev()
        if kind == 'temp':
            return g.temp()
        if kind == 'press':
            return g.press()
        if kind == 'alt':
            return g.altitude()
        if kind == 'up':
            return g.num(0, 90, (90, 90.0, 45, 30.0, 5))
        if kind == 'zen':
            return g.num(0, 90, (0, 0.0, 90, 45))
        if kind == 'slope':
            return g.num(0, 90, (0, 0.0, 90, 30, 45))
        if kind == 'angle':
            return g.angle()
        if kind == 'day':
            return g.day()
        if kind == 'jd':
            return g.julian()
        if kind == 'jce':
            return (g.julian() - 2451545) / 36525
        if kind == 'jme':
            return (g.julian() - 2451545) / 365250
        if kind == 'nut':
            return {'longitude': r.uniform(-.006, .006), 'obliquity': r.uniform(-.003, .003)}
        if kind == 'band':
            return r.choice(rest2.BANDS)
        if kind in SHARP:
            lo, hi, usual = SHARP[kind]
            return usual if r.random() < .2 else r.uniform(lo, hi)
        lo, hi, sp = {'R': (.98, 1.02, (1, 1.0)), 'small': (-.01, .01, (0, 0.0)), 'obl': (22, 25, (23.4392911,)), 'frac': (-1, 1, (0.5, 0.0)),
                      'par': (.002, .003, ()), 'decl': (-24, 24, (0, 0.0, 23.44)), 'sc': (1300, 1400, (1367.0,)), 'ty': (360, 370, (365, 366)),
                      'tl': (1, 10, (1, 1.0, 2, 3.5)), 'am': (.5, 4, (2.0, 1)), 'ghi': (1, 1000, (1, 500.0)), 'mbar': (300, 1100, (1013.25,)),
                      'uo': (0, .6, (0, .35)), 'un': (0, .002, (0, .0002)), 'w': (0, 10, (0, 5.0)), 'alpha': (.8, 2.5, (1.3,)),
                      'beta': (0, 1.1, (0, .6)), 'mass': (.3, 38, (1, 1.66)), 'lam': (.1, 2, (.5,))}[kind]
        return g.num(lo, hi, sp)

    def make(self, name=None):
        """(path, args, kwargs)"""
        r = self.r
        if name is None:
            name = r.choice(self.heavy) if r.random() < .25 else r.choice(self.names)
        args, kw, span = [], {}, None
        for k in SPEC[name]:
            if isinstance(k, dict):
                kw = {n: self.arg(kk) for n, kk in k.items() if r.random() < .5}
            elif k in ('start', 'end', 'step'):
                if span is None:
                    span = self.g.modern()
                    step = r.choice((1, 5, 30, 60, 7.5, 1440))
                    n = r.randint(0, 6)
                if k == 'start':
                    args.append(span)
                elif k == 'end':
                    from .gen import UTC, td
                    args.append((span.astimezone(UTC) + td(minutes=step * n)).astimezone(span.tzinfo))
                else:
                    args.append(step)
            elif k == 'horizon':
                args.append([r.uniform(0, 40) for _ in range(361)])
            elif k.startswith('?'):
                if r.random() < .5:
                    args.append(self.arg(k[1:]))
            else:
                args.append(self.arg(k))
        return name, tuple(args), kw

    def nudge(self, call):
        """a near-duplicate: one argument replaced, often by a close or equal-looking value"""
        r = self.r
        name, args, kw = call
        kinds = [k for k in SPEC[name] if not isinstance(k, dict)]
        args = list(args)
        if name == 'simulate.simulate_span' and r.random() < .6:
            k = r.choice((0, 1, 2, 2))
            if k == 2:      # another horizon
                h = list(args[2])
                h[:] = [r.uniform(0, 400)] * len(h) if r.random() < .5 else [x + 1 for x in h]
                args[2] = h
            else:
                args[k] = self.arg(kinds[k])
            return name, tuple(args), dict(kw)
        if not args or kinds[0] in ('start', 'horizon') or name.startswith('simulate'):
            return self.make(name)
        i = r.randrange(len(args))
        if r.random() < .05 and kinds[:2] == ['lat', 'lon'] and abs(args[1]) <= 90:
            args[0], args[1] = args[1], args[0]
            return name, tuple(args), dict(kw)
        if kw and r.random() < .2:      # an optional argument changed, or left out
            kw = dict(kw)
            n = r.choice(sorted(kw))
            spec = {a: b for k in SPEC[name] if isinstance(k, dict) for a, b in k.items()}
            if r.random() < .3:
                del kw[n]
            else:
                kw[n] = self.arg(spec[n])
            return name, tuple(args), kw
        v, k = args[i], kinds[i].lstrip('?')
        if k in ('when', 'modern'):
            from .gen import td
            z = r.random()
            try:
                if z < .2:
                    v = self.g.same_instant(v)
                elif z < .3:       # the same clock reading elsewhere, or the other of two equal readings
                    v = v.replace(tzinfo=self.g.tz()) if r.random() < .5 else v.replace(fold=1 - v.fold)
                elif z < .55:      # the same day of another month or year
                    months = v.year * 12 + v.month - 1 + r.choice((1, -1)) * r.choice((1, 2, 2, 3, 6, 9, 10, 11, 12, 12, 13, 14, 24, 48, 100, 120, 1200))
                    v = v.replace(year=min(9998, max(2, months // 12)), month=months % 12 + 1, day=min(v.day, 28))
                elif z < .85:
                    from .gen import UTC
                    v = self.g._in(v.astimezone(UTC) + r.choice((td(microseconds=1), td(milliseconds=1), td(milliseconds=400), td(seconds=1), td(seconds=29), td(minutes=1),
                                                                td(hours=1), td(hours=12), td(days=1), td(days=-1), td(days=7), td(days=365),
                                                                td(days=366), td(days=1461), td(days=10000))), v.tzinfo)
                else:
                    v = self.arg(k)
            except OverflowError:
                v = self.arg(k)
        elif isinstance(v, float) and k != 'lam':
            z = r.random()
            lim = {'up': (0, 90), 'lat': (-90, 90), 'zen': (0, 90), 'slope': (0, 90), 'mass': (.3, 38), 'alpha': (.8, 2.5), 'beta': (0, 1.1), 'un': (0, .002), 'uo': (0, .6),
                   'w': (0, 10), 'mbar': (300, 1100), 'press': (0, 120000), 'frac': (-1, 1)}.get(k)
            w = (v + r.choice((1, -1)) * 10 ** r.uniform(-10, 0) if z < .4 else v + r.choice((1, -1, 2, -2, 10, -10, 60, 90, 180, -180, 360)) if z < .5 else -v if z < .6 else round(v) if z < .7 else round(v, r.choice((1, 2, 3))) if z < .85 else self.arg(k))
            v = w if lim is None or lim[0] <= w <= lim[1] else self.arg(k)
        else:
            v = self.arg(k)
        args[i] = v
        return name, tuple(args), dict(kw)
