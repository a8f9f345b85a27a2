"""every month start from 1970 to 2030 and the instants one microsecond, one second and half a day around
it, in several time zones, plus random instants from year 2 to 9998, each compared with the published
table of leap seconds; warnings raised by each call are recorded and judged too."""
import datetime as dt
from .. import lib
td = dt.timedelta
FLOOR = 3000
REQUIRED = ('month_starts', 'warned', 'silent')


def one(ctx, when):
    o = ctx.call('solartime.get_leap_seconds', when)
    if not ctx.expect(o.ok and o.value == lib.leap(when), 'leap', 'wrong TAI-UTC', [o.event], lib.leap(when), o):
        return
    u = lib.utc(when)
    msgs = [str(w.message) for w in o.warned]
    if (u.year, u.month) >= (2026, 7):
        ctx.counters['warned'] += 1
        ctx.expect(any('eap second' in m and str(u.year) in m for m in msgs), 'warns',
                   'no warning that names the year the leap seconds are unknown for', [o.event], u.year, msgs)
    else:
        ctx.counters['silent'] += 1
        ctx.expect(not any('eap second' in m for m in msgs), 'silent', 'warning for a covered instant', [o.event], [], msgs)


def run(ctx):
    months = [(y, m) for y in range(1968, 2031) for m in range(1, 13)]
    for y, m in ctx.share(months):
        t = dt.datetime(y, m, 1, tzinfo=lib.UTC)
        ctx.counters['month_starts'] += 1
        for d in (td(0), td(microseconds=1), -td(microseconds=1), td(seconds=1), -td(seconds=1), td(hours=12), -td(hours=12),
                  td(days=1), td(days=14), td(hours=14), -td(hours=14)):
            w = t + d
            one(ctx, w)
            one(ctx, w.astimezone(ctx.gen.tz()))
    for _ in ctx.rounds(20000):
        one(ctx, ctx.gen.when())
