"""random and boundary instants expressed in pairs of time zones (UTC, fixed offsets down to microseconds, IANA
zones with folds and historic local mean time, hand-written tzinfo classes), under different process time zones (TZ) and both
backends; every public function of a time is compared between the two representations."""
import math
import os
import time
from .. import api, lib
QUICK = 4
DRESS = 'times'
FLOOR = 4000
REQUIRED = ('pairs', 'different_local_day', 'tz_env_changed', 'fold_pairs')
SPECIAL_TZ = ('UTC', 'America/New_York', 'Asia/Kathmandu', 'Pacific/Apia', 'XYZ-11:30ABC,M3.2.0,M11.1.0')


def flat(v):
    return tuple(float(x) for x in v) if isinstance(v, tuple) else (float(v),)


def close(p, q):
    return len(p) == len(q) and all(a == b or abs(a - b) <= 1e-9 + 1e-12 * abs(a) or (a != a and b != b)
                                    for a, b in zip(p, q))


def run(ctx):
    g, r = ctx.gen, ctx.rng
    names = [n for n in api.TIMED if ctx.has(n)]
    env = 'UTC'
    for i in ctx.rounds(16000):
        if i % 40 == 0:
            env = r.choice(SPECIAL_TZ)
            os.environ['TZ'] = env
            time.tzset()
            ctx.counters['tz_env_changed'] += 1
        ctx.backend(r.choice(('numpy', 'numpy', 'math')))
        a = g.when()
        if r.random() < .08 and g.zones:      # an instant in a repeated or skipped local hour
            z = r.choice(g.zones)
            y = r.randint(1975, 2030)
            a = lib.utc(a).replace(year=y, month=r.choice((3, 4, 9, 10, 11)), day=r.choice((1, 5, 25, 29)), tzinfo=z,
                                   hour=r.choice((0, 1, 2, 3)), fold=r.randint(0, 1))
            ctx.counters['fold_pairs'] += a.fold
        b = g.same_instant(a)
        if (a.date()) != (b.date()):
            ctx.counters['different_local_day'] += 1
        vals = dict(lat=g.lat(), lon=g.lon(), alt=g.altitude(), ghi=r.uniform(0, 1000))
        for n in r.sample(names, 4):
            x = ctx.call(n, *api.args(api.TIMED[n], a, **vals))
            y = ctx.call(n, *api.args(api.TIMED[n], b, **vals))
            ctx.counters['pairs'] += 1
            if x.exc is not None or y.exc is not None:
                ctx.expect(type(x.exc) is type(y.exc), 'tz:raises', f'{n} raises for one representation only',
                           [x.event, y.event], x, y)
                continue
            ctx.expect(close(flat(x.value), flat(y.value)), 'tz', f'{n} depends on how the instant is written',
                       [x.event, y.event], x, y)
    os.environ['TZ'] = 'UTC'
    time.tzset()
