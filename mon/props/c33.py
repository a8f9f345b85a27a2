"""the demonstration functions, run at the current time and (where the module reads the clock through its datetime module) at faked
times of 1950-2100 in several process time zones and both backends: their printed rows against the library's own functions, and
nothing else printed."""
import contextlib
import datetime as dt
import io
import os
import time
from .. import lib
QUICK = 2
DRESS = None
FLOOR = 300
REQUIRED = ('solar_demos', 'elevation_demos', 'rows', 'sun_down_steps')
LAT, LON = 42.364908, -71.112828
ZONES = ('UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Auckland', 'Europe/London')


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, dt.datetime)


class FakeModule:
    """datetime, with another idea of the present"""

    def __init__(self, when):
        reads = self.reads = []

        class Clock(dt.datetime, metaclass=_Meta):
            def __new__(cls, *a, **k):
                return dt.datetime(*a, **k)

            @classmethod
            def now(cls, tz=None):
                reads.append(tz)
                return when.astimezone(tz) if tz else when.astimezone().replace(tzinfo=None)

            @classmethod
            def utcnow(cls):
                reads.append('utc')
                return when.replace(tzinfo=None)

            @classmethod
            def today(cls):
                return cls.now()
        self.datetime = Clock

    def __getattr__(self, name):
        return getattr(dt, name)


def parse(line):
    """'Thu Jun  5 12:00:00 2025 UTC alt az power'"""
    w = line.split()
    when = dt.datetime.strptime(' '.join(w[:5]), '%a %b %d %H:%M:%S %Y').replace(tzinfo=dt.timezone.utc)
    if w[5] != 'UTC' or len(w) != 9:
        raise ValueError(line)
    return when, float(w[6]), float(w[7]), float(w[8])


def solar_demo(ctx, fake):
    mod = ctx.api['solar']
    real = mod.datetime if hasattr(mod, 'datetime') else None
    faked = fake is not None and real is dt
    out = io.StringIO()
    if faked:
        mod.datetime = FakeModule(fake)
    t0 = dt.datetime.now(dt.timezone.utc)
    try:
        with contextlib.redirect_stdout(out):
            o = ctx.call('solar.solar_test')
    finally:
        if faked:
            reads = mod.datetime.reads
            mod.datetime = real
            faked = bool(reads)
    t1 = dt.datetime.now(dt.timezone.utc)
    ctx.counters['solar_demos'] += 1
    ctx.counters['faked_clock' if faked else 'real_clock'] += 1
    if not ctx.expect(o.ok and o.value is None, 'solar_test', 'solar_test() failed', [o.event], 'rows', o):
        return
    lines = out.getvalue().splitlines()
    try:
        rows = [parse(x) for x in lines]
    except ValueError as e:
        ctx.violation('format', 'a row that is not time, UTC, altitude, azimuth, power', [o.event], 'Day Mon d h:m:s year UTC alt az power', str(e))
        return
    start = fake if faked else t0
    slack = 0.0 if faked else (t1 - t0).total_seconds()
    want = []
    for k in range(48):
        w = start + dt.timedelta(minutes=30) * k
        a, z = ctx.call('solar.get_altitude', LAT, LON, w), ctx.call('solar.get_azimuth', LAT, LON, w)
        p = ctx.call('radiation.get_radiation_direct', w, a.value)
        if not (a.ok and z.ok and p.ok):
            return
        want.append((w, float(a.value), float(z.value), float(p.value)))
    edge = 1e-9 + slack * .005      # the sun climbs at most 15 degrees per hour
    must = [x for x in want if x[1] > edge]
    may = [x for x in want if x[1] > -edge]
    ctx.counters['sun_down_steps'] += 48 - len(may)
    if len(must) == len(may) and not ctx.expect(len(rows) == len(must), 'rows', 'rows are not the half-hours with the sun up', [o.event],
                                                [str(x[0]) for x in must], lines[:4] + ['...'] + lines[-2:]):
        return
    got = {x[0]: x for x in rows}
    ctx.expect([x[0] for x in rows] == sorted(got), 'order', 'rows out of order or repeated', [o.event], 'ascending times', lines)
    for w, a, z, p in must:
        near = [x for t, x in got.items() if -1 <= (t - w).total_seconds() <= slack + 1e-6]
        ctx.counters['rows'] += 1
        if not ctx.expect(len(near) == 1, 'missing', 'no row for this half-hour', [o.event], str(w), lines):
            return
        if faked:
            ctx.expect(near[0][0] == w.replace(microsecond=0), 'time', 'wrong time', [o.event], str(w), lines)
        for name, x, y, tol in (('altitude', near[0][1], a, 1e-9 + slack * .005), ('azimuth', near[0][2], z, 1e-9 + slack * .03),
                                ('power', near[0][3], p, 1e-6 + slack * 2)):
            ctx.expect(abs(x - y) <= tol, 'value:' + name, f'{name} of a row differs from the function', [o.event], (str(w), y), x)


def run(ctx):
    g, r = ctx.gen, ctx.rng
    old = os.environ.get('TZ')
    try:
        for i in ctx.rounds(480):
            ctx.backend(r.choice(('numpy', 'math')))
            os.environ['TZ'] = r.choice(ZONES)
            time.tzset()
            solar_demo(ctx, None if i % 12 == 0 else lib.utc(g.when(1950, 2100)))
            if i % 4 == 0:
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    o = ctx.call('elevation.elevation_test')
                ctx.counters['elevation_demos'] += 1
                lines = out.getvalue().splitlines()
                ok = ctx.expect(o.ok and o.value is None and len(lines) == 12, 'elevation_test', 'elevation_test() is not a heading and 11 rows', [o.event],
                                '12 lines', (o, lines))
                for h, line in enumerate(lines[1:] if ok else ()):
                    p = ctx.call('elevation.get_pressure_with_elevation', 1000 * h)
                    t = ctx.call('elevation.get_temperature_with_elevation', 1000 * h)
                    try:
                        x = [float(v) for v in line.split()]
                    except ValueError:
                        x = []
                    ctx.expect(len(x) == 3 and x[0] == 1000 * h and abs(x[1] - p.value) < 1 and abs(x[2] - t.value) < 1, 'elevation_row', 'row differs from the functions',
                               [o.event], (1000 * h, p, t), line)
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()
