"""every month start from 1970 to 2020 and the instants around it in several time zones, plus random instants of
years 2 to 9998, compared with the published monthly Delta T values; the implied UT1-UTC is judged on
every instant inside the table."""
import datetime as dt
from .. import lib
from ..ref import tables
td = dt.timedelta
FLOOR = 3000
REQUIRED = ('month_starts', 'in_table', 'before_table', 'after_table')
FIRST, LAST = tables.DELTA_T[0][:2], tables.DELTA_T[-1][:2]


def one(ctx, when):
    o = ctx.call('solartime.get_delta_t', when)
    ctx.near(o, lib.delta_t(when), 1e-9, 'delta_t')
    u = lib.utc(when)
    ym = (u.year, u.month)
    ctx.counters['before_table' if ym < FIRST else 'after_table' if ym > LAST else 'in_table'] += 1
    if FIRST <= ym <= LAST and o.ok:
        ls = ctx.call('solartime.get_leap_seconds', when)
        if ls.ok:
            ut1 = 32.184 + ls.value - o.value
            ctx.expect(abs(ut1) < 0.9, 'ut1', 'UTC-UT1 implied by leap seconds and Delta T exceeds 0.9 s',
                       [o.event, ls.event], '|UT1-UTC| < 0.9', ut1)
            ctx.note_max('max_ut1_utc', abs(ut1))


def run(ctx):
    for y, m in ctx.share([(y, m) for y in range(1970, 2021) for m in range(1, 13)]):
        t = dt.datetime(y, m, 1, tzinfo=lib.UTC)
        ctx.counters['month_starts'] += 1
        for d in (td(0), td(microseconds=1), -td(microseconds=1), td(days=14), td(hours=14), -td(hours=14), td(days=27)):
            one(ctx, t + d)
            one(ctx, (t + d).astimezone(ctx.gen.tz()))
    for _ in ctx.rounds(15000):
        one(ctx, ctx.gen.when())
