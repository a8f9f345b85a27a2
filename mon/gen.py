"""Workload generation: hostile and ordinary inputs, seeded.

Every generator mixes (a) uniform values over the documented domain, (b) a pool
of special values where astronomy or calendars have seams, (c) numeric literals
mined from the source under test (so that a branch on a constant is driven on
both sides), each also displaced by one unit and by one ulp.
"""
import datetime as dt
import math
import zoneinfo

UTC = dt.timezone.utc
td = dt.timedelta

ZONES = ['Europe/Amsterdam', 'Europe/Berlin', 'Europe/Lisbon', 'America/New_York', 'America/St_Johns',
         'America/Caracas', 'America/Los_Angeles', 'Asia/Kathmandu', 'Asia/Kolkata', 'Asia/Tehran', 'Asia/Tokyo',
         'Australia/Lord_Howe', 'Australia/Adelaide', 'Pacific/Apia', 'Pacific/Chatham', 'Pacific/Kiritimati',
         'Pacific/Marquesas', 'Africa/Monrovia', 'Africa/Casablanca', 'Antarctica/Troll', 'America/Sao_Paulo',
         'Asia/Manila', 'America/Juneau']

LAT_SPECIAL = [0.0, -0.0, 90.0, -90.0, 45.0, -45.0, 23.4392911, -23.4392911, 23.45, -23.45, 66.5607, -66.5607, 66.55,
               89.9999999, -89.9999999, 89.5, -89.5, 60.0, 30.0, 1e-9, -1e-9, 42.364908, 51.4779, 78.2, -77.85, 10, -33]
LON_SPECIAL = [0.0, -0.0, 180.0, -180.0, 179.9999999, -179.9999999, 90.0, -90.0, 360.0, -360.0, 270.0, 181.0, -181.0,
               359.999, 1e-9, -1e-9, -71.112828, 15.0, 7.5, 540.0, 0, 120]
ELEV_SPECIAL = [0.0, 0, -430.0, 8848.86, 11000.0, 11000.000001, 10999.999999, 1829.0, 20000.0, 100.0, 1830.14, 5, 400000.0]
TEMP_SPECIAL = [288.15, 283.0, 273.15, 273.0, 300.0, 250.0, 233.15, 323.15, 285, 184.0, 330.0]
PRES_SPECIAL = [101325.0, 101000.0, 82000.0, 0.0, 1.0, 120000.0, 50000.0, 1013.25, 110000.0, 87000, 30000.0]
ALT_SPECIAL = [0.0, -0.0, 90.0, -90.0, 1e-300, -1e-300, 5e-324, 1e-9, -1e-9, -0.83337, -0.8333700001, -0.8333699999, -0.5667,
               -0.26667, -5.11, -5.109999, -5.1100001, 45.0, 30.0, 89.9999999, -89.999, 0.1, -0.1, 10.0, -18.0, -6.0, -12.0,
               15, 180.0, 91.0, 100.0]

LEAPS = [(1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1), (1981, 7),
         (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1),
         (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]
EDGES = [dt.datetime(1970, 1, 1), dt.datetime(1972, 1, 1), dt.datetime(1973, 1, 1), dt.datetime(1973, 2, 1),
         dt.datetime(2014, 1, 1), dt.datetime(2014, 4, 1), dt.datetime(2014, 5, 1), dt.datetime(2015, 1, 1),
         dt.datetime(2026, 1, 1), dt.datetime(2026, 7, 1), dt.datetime(2027, 1, 1), dt.datetime(2038, 1, 19, 3, 14, 8),
         dt.datetime(2000, 1, 1, 12), dt.datetime(1901, 12, 13, 20, 45, 52), dt.datetime(1900, 1, 1), dt.datetime(2100, 3, 1),
         dt.datetime(2003, 10, 17, 19, 30, 30)] + [dt.datetime(y, m, 1) for y, m in LEAPS]
SOLAR_MARKS = [(3, 20), (6, 21), (9, 22), (12, 21), (1, 3), (7, 4), (2, 28), (2, 29), (12, 31), (1, 1), (3, 1), (3, 22), (4, 10),
               (11, 3), (2, 11)]
TINY = [td(0), td(microseconds=1), -td(microseconds=1), td(seconds=1), -td(seconds=1), td(milliseconds=500),
        -td(milliseconds=500), td(hours=1), -td(hours=1), td(hours=14), -td(hours=14), td(seconds=30), -td(seconds=59)]


class OddTz(dt.tzinfo):
    """a hand-written tzinfo whose offset depends on the date (as users write them)"""

    def __init__(self, base=0, swing=0):
        self.base, self.swing = base, swing

    def utcoffset(self, when):
        extra = self.swing if when is not None and 4 <= when.month <= 9 else 0
        return td(minutes=self.base + extra)

    def dst(self, when):
        return td(minutes=self.swing if when is not None and 4 <= when.month <= 9 else 0)

    def tzname(self, when):
        return 'ODD'

    def fromutc(self, when):
        w = when + td(minutes=self.base)
        return w + self.dst(w)

    def __reduce__(self):
        return OddTz, (self.base, self.swing)

    def __repr__(self):
        return f'OddTz({self.base},{self.swing})'


class Gen:
    def __init__(self, rng, mined=((), ())):
        self.r = rng
        self.mined, self.cmps = list(mined[0]), list(mined[1])
        self.mined_int = sorted({int(v) for v in self.mined if float(v).is_integer() and abs(v) < 10000})
        self.cmp_int = sorted({int(v) for v in self.cmps if float(v).is_integer() and abs(v) < 100000})
        self.recent = {}         # kind -> values given out lately: stale caches need related calls
        self.zones = []
        self._changes = {}
        for z in ZONES:
            try:
                self.zones.append(zoneinfo.ZoneInfo(z))
            except Exception:
                pass

    # --- numbers --------------------------------------------------------------
    def _mined(self, lo, hi):
        r = self.r
        pool = self.cmps if self.cmps and r.random() < .6 else self.mined
        for _ in range(12):
            if not pool:
                break
            v = r.choice(pool)
            k = r.random()
            if k < .15:
                v = -v
            k = r.random()
            if k < .3:
                v = v + r.choice((1, -1, .5, -.5, 1e-3, -1e-3, 1e-7, -1e-7))
            elif k < .5:
                v = math.nextafter(v, r.choice((math.inf, -math.inf)))
            elif k < .65:
                v = v + r.uniform(-2, 2)
            if lo <= v <= hi:
                return v
        return r.uniform(lo, hi)

    def num(self, lo, hi, special=(), integral=.05):
        r = self.r
        k = r.random()
        if special and k < .22:
            v = r.choice(special)
            if lo <= v <= hi:
                return v
        elif k < .30:
            return self._mined(lo, hi)
        elif k < .30 + integral and math.floor(hi) >= math.ceil(lo):
            return r.randint(math.ceil(lo), math.floor(hi))
        elif k < .42 and math.floor(hi) >= math.ceil(lo):
            return float(r.randint(math.ceil(lo), math.floor(hi)))
        elif k < .50:
            return round(r.uniform(lo, hi), r.choice((1, 2, 4)))
        return r.uniform(lo, hi)

    def again(self, kind, draw, lo, hi):
        """draw(), or one time in eight a value given out lately or one next to it"""
        r, old = self.r, self.recent.setdefault(kind, [])
        if old and r.random() < .125:
            v = old[-1] if r.random() < .6 else r.choice(old)
            k = r.random()
            if k < .4:
                w = v
            elif k < .7:
                w = v + r.choice((1, -1)) * 10 ** r.uniform(-9, 0)
            elif k < .8:
                w = -v
            elif k < .9:
                w = round(v, r.choice((0, 1, 2, 4)))
            else:
                w = float(int(v)) + r.choice((0, 1, -1, .5))
            if lo <= w <= hi:
                return w
        v = draw()
        old.append(v)
        del old[:-6]
        return v

    def lat(self, limit=90):
        return self.again('lat', lambda: self.num(-limit, limit, LAT_SPECIAL), -limit, limit)

    def lon(self, wild=True):
        return self.again('lon', lambda: self.num(-720, 720, LON_SPECIAL) if wild and self.r.random() < .1 else self.num(-180, 180, LON_SPECIAL),
                          -720 if wild else -180, 720 if wild else 180)

    def elev(self):
        if self.r.random() < .4:
            return 0
        return self.num(-430, 9000, ELEV_SPECIAL) if self.r.random() < .8 else self.num(-430, 40000, ELEV_SPECIAL)

    def temp(self):
        return self.num(190, 330, TEMP_SPECIAL)

    def press(self):
        return self.num(0, 120000, PRES_SPECIAL)

    def altitude(self, lo=-90, hi=90):
        r = self.r
        if r.random() < .2 and lo <= 0 <= hi:
            return max(lo, min(hi, r.choice((1, -1)) * 10 ** r.uniform(-12, 1)))
        if r.random() < .1:
            v = -0.83337 + r.choice((1, -1)) * 10 ** r.uniform(-9, 0)
            if lo <= v <= hi:
                return v
        return self.num(lo, hi, ALT_SPECIAL)

    def angle(self, lo=-360, hi=720):
        return self.num(lo, hi, [0.0, 90.0, 180.0, 270.0, 360.0, -90.0, 45.0, -180.0, 1e-9, 359.9999999])

    # --- instants -------------------------------------------------------------
    def utc(self, lo=2, hi=9998, wide=.10):
        """a naive datetime meant as UTC"""
        r = self.r
        for _ in range(40):
            k = r.random()
            if k < .35:
                t = dt.datetime(1900, 1, 1) + td(seconds=r.random() * 200 * 365.25 * 86400)
            elif k < .35 + wide:
                t = dt.datetime(r.randint(2, 9998), 1, 1) + td(seconds=r.random() * 365 * 86400)
            elif k < .58:
                t = r.choice(EDGES) + r.choice(TINY) * r.choice((1, 1, 1, 2))
            elif k < .66:
                y, m = r.randint(1965, 2035), r.randint(1, 12)
                t = dt.datetime(y, m, 1) + r.choice(TINY)
            elif k < .76:
                y = r.choice((r.randint(1960, 2040), 2000, 2004, 2008, 2016, 2020, 1972, 1900, 2100))
                m, d = r.choice(SOLAR_MARKS)
                if (m, d) == (2, 29) and not (y % 4 == 0 and (y % 100 or y % 400 == 0)):
                    d = 28
                t = dt.datetime(y, m, d) + td(seconds=r.choice((0, 43200, 86399, r.random() * 86400)))
            elif k < .86:
                t = self._field_instant()
            else:
                t = dt.datetime(1972, 1, 1) + td(seconds=r.random() * 55 * 365.25 * 86400)
            k = r.random()
            if k < .25:
                t = t.replace(microsecond=0)
            elif k < .35:
                t = t.replace(second=0, microsecond=0)
            elif k < .42:
                t = t.replace(minute=0, second=0, microsecond=0)
            elif k < .45:
                t = t.replace(microsecond=r.choice((1, 999999, 500000)))
            if lo <= t.year <= hi:
                return t
        return dt.datetime(2010, 6, 1, 12)

    def _field_instant(self):
        """an instant with one or two calendar fields taken from the source's literals"""
        r = self.r
        f = {'year': r.randint(1950, 2040), 'month': r.randint(1, 12), 'day': r.randint(1, 28), 'hour': r.randint(0, 23),
             'minute': r.randint(0, 59), 'second': r.randint(0, 59), 'microsecond': r.choice((0, r.randrange(10 ** 6)))}
        lim = {'year': (2, 9998), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59), 'second': (0, 59),
               'microsecond': (0, 999999)}
        for k in r.sample(sorted(f), r.choice((1, 2))):
            lo, hi = lim[k]
            pool = [v + d for v in (self.cmp_int if r.random() < .5 and self.cmp_int else self.mined_int) for d in (-1, 0, 1)]
            pool = [v for v in pool if lo <= v <= hi]
            f[k] = r.choice(pool) if pool and r.random() < .7 else r.randint(lo, min(hi, 2200))
        if r.random() < .2:     # a day of the year from the source's literals
            pool = [v + d for v in self.mined_int for d in (-1, 0, 1) if 1 <= v + d <= 366]
            doy = r.choice(pool) if pool else r.choice((1, 60, 366))
            t = dt.datetime(f['year'], 1, 1) + td(days=doy - 1)
            f['month'], f['day'] = t.month, t.day
            f['year'] = t.year
        while True:
            try:
                return dt.datetime(**f)
            except ValueError:
                f['day'] -= 1

    def tz(self):
        r = self.r
        k = r.random()
        if k < .35:
            return UTC
        if k < .55:
            return dt.timezone(td(minutes=r.choice((60, -300, 330, 345, -210, 840, -720, 765, 1439, -1439, 15, -30, 570))))
        if k < .62:
            return dt.timezone(td(seconds=r.choice((1, -1, 1172, -20259, 59, 3599, -43200, 50400, r.randint(-86399, 86399)))))
        if k < .65:
            return dt.timezone(td(microseconds=r.choice((1, -1, 500000, 123456)), minutes=r.randint(-700, 700)))
        if k < .75:
            return OddTz(r.choice((0, 60, -300, 330)), r.choice((0, 60, 30)))
        return r.choice(self.zones) if self.zones else UTC

    def when(self, lo=2, hi=9998, wide=.10, tz=None):
        r, old = self.r, self.recent.setdefault('when', [])
        if old and r.random() < .15:
            t = old[-1] if r.random() < .6 else r.choice(old)
            k = r.random()
            try:
                if k < .15:
                    pass
                elif k < .5:
                    t += r.choice((1, -1)) * r.choice((td(microseconds=1), td(microseconds=700), td(milliseconds=20), td(milliseconds=400), td(seconds=1), td(seconds=7),
                                                       td(seconds=29), td(minutes=1), td(minutes=10), td(hours=1), td(hours=6)))
                elif k < .8:
                    t += r.choice((1, -1)) * td(days=r.choice((1, 1, 2, 7, 30, 31, 59, 61, 365, 366, 731, 1461, 3652, 36524)))
                else:
                    months = t.year * 12 + t.month - 1 + r.choice((1, -1)) * r.choice((1, 2, 3, 6, 9, 10, 11, 12, 14, 120))
                    if 24 <= months < 9998 * 12:
                        t = t.replace(year=months // 12, month=months % 12 + 1, day=min(t.day, 28))
            except OverflowError:
                t = dt.datetime(1, 1, 1, tzinfo=UTC)
            if lo <= t.year <= hi:
                return self._in(t, tz or self.tz())
        if tz is None and self.zones and r.random() < .04 and lo <= 1950 and hi >= 2037:
            t = self.clock_change()
            old.append(t.astimezone(UTC))
            del old[:-6]
            return t
        t = self.utc(lo, hi, wide).replace(tzinfo=UTC)
        old.append(t)
        del old[:-6]
        return self._in(t, tz or self.tz())

    @staticmethod
    def _in(t, z):
        if z is UTC:
            return t
        w = t.astimezone(z)
        return w if w.astimezone(UTC) == t else t      # hand-written zones lose an hour where clocks go back

    def modern(self, tz=None):
        return self.when(1950, 2050, 0, tz)

    def clock_change_day(self, lo=1950, hi=2037):
        """an aware datetime on a local day during which the UTC offset changes"""
        r = self.r
        for _ in range(20):
            z, y = r.choice(self.zones), r.randint(lo, hi)
            key = (z.key, y)
            if key not in self._changes:
                d = dt.datetime(y, 1, 1, tzinfo=z)
                self._changes[key] = [t for t in (d + td(days=k) for k in range(365))
                                      if t.utcoffset() != t.replace(hour=23, minute=59).utcoffset()]
            if self._changes[key]:
                t = r.choice(self._changes[key])
                return t.replace(hour=r.choice((0, 1, 2, 3, 12, r.randint(0, 23))), minute=r.randint(0, 59), fold=r.randint(0, 1))
        return self.when()

    def clock_change(self):
        """an aware datetime within an hour or so of a change of its UTC offset: repeated hours, mostly"""
        r = self.r
        for _ in range(5):
            t = self.clock_change_day()
            z = t.tzinfo
            a = dt.datetime(t.year, t.month, t.day, tzinfo=z).astimezone(UTC) - td(hours=3)
            b = a + td(hours=30)
            if a.astimezone(z).utcoffset() == b.astimezone(z).utcoffset():
                continue
            first = a.astimezone(z).utcoffset()
            while b - a > td(seconds=1):
                m = a + (b - a) / 2
                a, b = (m, b) if m.astimezone(z).utcoffset() == first else (a, m)
            b = b.replace(microsecond=0)
            return (b + r.choice((td(0), td(microseconds=-1), td(seconds=r.uniform(-3600, 3600)), td(seconds=r.uniform(-3600, 3600)), td(minutes=r.randint(-120, 120))))).astimezone(z)
        return self.utc().replace(tzinfo=UTC)

    def same_instant(self, when):
        """another representation of the same instant"""
        return self._in(when.astimezone(UTC), self.tz())

    def day(self):
        return self.r.choice((self.r.randint(1, 366), self.r.randint(1, 365), 1, 365, 366, 81, 172, 355, 100, 275))

    def julian(self):
        t = self.utc().replace(tzinfo=UTC)
        return t.timestamp() / 86400 + 2440587.5

    # --- full cases -----------------------------------------------------------
    def place(self):
        return self.lat(), self.lon()

    def atmosphere(self):
        """keyword arguments, some left to their default"""
        r, kw = self.r, {}
        if r.random() < .5:
            kw['elevation'] = self.elev()
        if r.random() < .5:
            kw['temperature'] = self.temp()
        if r.random() < .5:
            kw['pressure'] = self.press()
        return kw
