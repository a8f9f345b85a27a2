"""random starts, spans (zero, negative, shorter than one step, an exact multiple of it, one second and one microsecond either
side) and steps (integral, fractional, of fractional seconds, large), in UTC, fixed offsets and IANA zones across clock changes: the recorded sequence of datetimes
is compared with start + k*step for every whole step in the span."""
import datetime as dt
import itertools
from fractions import Fraction
FLOOR = 3000
REQUIRED = ('ranges', 'empty', 'exact_multiple', 'backwards', 'fractional_step', 'fractional_seconds', 'long', 'end_of_time')


def run(ctx):
    g, r = ctx.gen, ctx.rng
    for i in ctx.rounds(8000):
        step = r.choice((1, 5, 15, 30, 60, 1440, 7, 10.0, 0.5, 0.25, 2.5, r.randint(1, 3000), r.randint(1, 60) / 4, 0.1, 1 / 60,
                         r.randint(1, 640) / 64, r.randint(1, 300) / 100, 1 / 32, 0.01, 0.025, 1 / 128))
        sec = Fraction(step).limit_denominator(100000) * 60
        n = r.choice((0, 1, 2, 3, 10, r.randint(0, 200), r.randint(0, 40)))
        if r.random() < .02:
            n = r.randint(1000, 5000)
        if n * sec > 86400 * 365 * 500:
            n = 3
        extra = r.choice((0, 0, 1, -1, r.randint(0, max(1, int(sec) - 1))))
        span = dt.timedelta(seconds=int(n * sec) + extra) if (n * sec).denominator == 1 else dt.timedelta(seconds=int(n * sec) + max(extra, 1))
        if r.random() < .05:
            span = -span
        if r.random() < .12:      # backwards
            step, sec, span = -step, -sec, r.choice((span, -span, -span, -span))
        start = g.when(1600, 2400) if r.random() < .9 else g.utc(1600, 2400)
        end = start + span
        if r.random() < .3:
            end += dt.timedelta(microseconds=r.choice((1, -1, 500000, r.randint(-999999, 999999))))
        if r.random() < .2 and start.tzinfo is not None:     # end given in another zone
            try:
                end = end.astimezone(g.tz())
            except OverflowError:
                continue
        if i % 20 == 0 and sec:       # up to the first or the last time there is
            limit = dt.datetime.min if step < 0 else dt.datetime.max
            far = abs(span) + dt.timedelta(seconds=abs(float(sec))) * r.choice((0, 1, r.random()))
            off = [dt.timezone(dt.timedelta(minutes=r.choice((0, r.randint(-1439, 1439))))) for _ in range(2)]
            if far > dt.timedelta(days=365 * 600):
                continue
            if step < 0:
                start, end = (limit + far).replace(tzinfo=off[0]), limit.replace(tzinfo=r.choice(off))
            else:
                start, end = (limit - far).replace(tzinfo=off[0]), limit.replace(tzinfo=r.choice(off))
            whole = (end - start) // dt.timedelta(minutes=step)
            try:        # every element must exist
                start + dt.timedelta(minutes=step) * max(0, whole - 1)
            except OverflowError:
                continue
            if whole > 20000:
                continue
            ctx.counters['end_of_time'] += 1
        o = ctx.call('simulate.datetime_range', start, end, step)
        if not ctx.expect(o.ok, 'raised', 'datetime_range() raised', [o.event], 'a sequence', o):
            continue
        ss = Fraction((end - start) // dt.timedelta(microseconds=1), 1000000)
        want_n = {max(0, ss // sec)}
        got = []
        try:
            for t in itertools.islice(o.value, 20001):
                got.append(t)
        except OverflowError if len(got) in want_n and i % 20 == 0 else () as e:
            pass        # all are there; what follows the end of the calendar is not judged
        except Exception as e:
            ctx.violation('raised', 'iterating datetime_range() raised', [o.event], f'{want_n} datetimes', repr(e))
            continue
        ctx.counters['ranges'] += 1
        ctx.counters['empty'] += not got
        ctx.counters['backwards'] += step < 0 and len(got) > 1
        ctx.counters['long'] += len(got) > 300
        ctx.counters['exact_multiple'] += ss % sec == 0 and ss != 0
        ctx.counters['fractional_step'] += step != int(step)
        ctx.counters['fractional_seconds'] += sec.denominator > 1 and len(got) > 1
        if not ctx.expect(len(got) in want_n, 'count', 'wrong number of datetimes', [o.event], sorted(want_n), len(got)):
            continue
        d = dt.timedelta(minutes=step)
        for k, t in enumerate(got):
            w = start + k * d
            if not ctx.expect(isinstance(t, dt.datetime) and abs(t.replace(tzinfo=None) - w.replace(tzinfo=None)) <=
                              dt.timedelta(microseconds=1) and t.tzinfo is start.tzinfo, 'value',
                              f'element {k} is not start + {k}*step', [o.event], w, t):
                break
            if k > 400:
                k = len(got) - 1
                ctx.expect(abs(got[k] - (start + k * d)) <= dt.timedelta(microseconds=1), 'last', 'last element', [o.event],
                           start + k * d, got[k])
                break
