"""naive datetimes (fold 0 and 1, boundary and random, also a datetime subclass), dates, times, numbers, strings and None given
to every public function of a time, positionally and by keyword, in both backends and repeatedly; aware datetimes in the same
positions must be accepted."""
import functools
import inspect
import datetime as dt
from .. import api, lib
DRESS = None
FLOOR = 4000
REQUIRED = ('naive_calls', 'non_datetime_calls', 'aware_calls', 'keyword_calls', 'without_offset', 'simulate_calls', 'decorated', 'kinds_of_functions')


class Sub(dt.datetime):
    pass


class NoOffset(dt.tzinfo):
    """a datetime with this is naive: its offset is not known"""
    def utcoffset(self, d):
        return None
    dst = tzname = utcoffset


def text(exc):
    try:
        return str(exc)
    except Exception as e:
        return f'<str() raised {e!r}>'


def naive(ctx):
    t = ctx.gen.utc()
    if ctx.rng.random() < .2:
        t = t.replace(fold=1)
    if ctx.rng.random() < .2:
        t = Sub(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond)
    if ctx.rng.random() < .1:
        t = t.replace(tzinfo=NoOffset())
        ctx.counters['without_offset'] += 1
    return t


def decorated(ctx):
    """the decorator on functions of our own: several names, keyword-only parameters, names the function does not have"""
    check = getattr(ctx.api['tzinfo_check'], 'check_aware_dt', None)
    if check is None:
        return
    r = ctx.rng

    def plain(x, start, end, *rest, at, **more):
        """doc"""
        return x, start, end, rest, at, more
    ctx.counters['decorated'] += 1
    f = check('start', 'end', 'at', 'nowhere')(plain)
    v = {k: ctx.gen.when() for k in ('start', 'end', 'at')}
    bad = r.choice((None, 'start', 'end', 'at'))
    if bad:
        v[bad] = r.choice((ctx.gen.utc(), 5, None)) if r.random() < .5 else ctx.gen.utc()
    n = r.randint(0, 2)      # how many of start, end go by position
    pos = [7, v['start'], v['end']][:n + 1]
    key = {k: v[k] for k in ('start', 'end', 'at')[n:]}
    if n == 2 and r.random() < .5:
        pos.append('more')
    if r.random() < .5:
        key['extra'] = ctx.gen.utc()
    ev = ('numpy', 'tzinfo_check.check_aware_dt', (pos, key), {})
    try:
        got = f(*pos, **key)
    except Exception as e:
        got = e
    if bad:
        ctx.expect(isinstance(got, ValueError) and bad in text(got), 'decorated', f'check_aware_dt() does not refuse {bad}={v[bad]!r}', [ev],
                   f'ValueError naming {bad!r}', repr(got))
    else:
        ctx.expect(got == plain(*pos, **key), 'decorated', 'a decorated function given aware datetimes does not return its result', [ev],
                   plain(*pos, **key), repr(got))
    # a parameter with a default, left out or given; one without, left out
    home = ctx.gen.when()

    def later(x, when=home, *, till=home):
        """doc"""
        return x, when, till
    g = check('when', 'till')(later)
    ctx.expect(g.__name__ == 'later' and g.__doc__ == 'doc' and g.__module__ == __name__ and list(inspect.signature(g).parameters) == ['x', 'when', 'till'],
               'decorated', 'a decorated function loses its name, documentation or signature', [ev], 'later(x, when, till)', (g.__name__, g.__doc__))
    give = {k: ctx.gen.when() for k in ('when', 'till') if r.random() < .5}
    bad = r.choice(sorted(give)) if give and r.random() < .4 else None
    if bad:
        give[bad] = ctx.gen.utc()
    a = (3, give.pop('when')) if 'when' in give and r.random() < .5 else (3,)
    ev = ('numpy', 'tzinfo_check.check_aware_dt', (a, give), {})
    try:
        got = g(*a, **give)
    except Exception as e:
        got = e
    ctx.expect(isinstance(got, ValueError) and bad in text(got) if bad else got == later(*a, **give), 'decorated', 'a decorated function with defaults', [ev],
               f'ValueError naming {bad!r}' if bad else later(*a, **give), repr(got))
    # functions of the same name, parameters in another order; a bad value that equals the default; unhashable and odd neighbours
    empty = r.choice((None, ctx.gen.utc(), 5, 'now'))

    def make(k):
        if k == 0:
            def twin(x, when, *, till=empty):
                return x, when, till
        elif k == 1:
            def twin(when, x, *, till=empty):
                return x, when, till
        elif k == 2:
            def twin(x, y=0, *, when, till=empty):
                return x, when, till
        else:
            def twin(x, *rest, when=empty, till=empty):
                return x, when, till
        return twin
    for k in r.sample(range(4), 4):
        raw = make(k)
        twin = check('when', 'till')(raw)
        t = ctx.gen.when()
        x = r.choice((5, None, [1], {}, ctx.gen.utc()))
        key, bad = {'when': t}, None
        if r.random() < .5:
            key['till'] = ctx.gen.when()
        z = r.random()
        if z < .3:
            bad = r.choice(('when', 'till'))
            key[bad] = empty
        elif z < .4 and k == 3:
            del key['when']
        a = (x, key.pop('when')) if k == 0 and r.random() < .5 else (key.pop('when'), x) if k == 1 and r.random() < .5 else ()
        if not a and (k != 1 or r.random() < .5):
            a = (x,) if k != 1 else ()
        if not a:
            key['x'] = x
        elif k == 3 and r.random() < .5:
            a += (ctx.gen.utc(), 'rest')
        ev = ('numpy', 'tzinfo_check.check_aware_dt', (k, a, key), {})
        try:
            got = twin(*a, **key)
        except Exception as e:
            got = e
        ctx.expect(isinstance(got, ValueError) and bad in text(got) if bad else got == raw(*a, **key), 'decorated', 'a decorated function of a common name', [ev],
                   f'ValueError naming {bad!r}' if bad else raw(*a, **key), repr(got))
    try:
        got = f(7, ctx.gen.when(), at=ctx.gen.when())
    except Exception as e:
        got = e
    ctx.expect(isinstance(got, TypeError), 'decorated', 'a required argument is left out', [ev], 'TypeError', repr(got))


class Stop(BaseException):
    pass


def kinds(ctx):
    """the decorator on functions of every kind: what they return or raise comes out as it is, and naive times are refused"""
    check = getattr(ctx.api['tzinfo_check'], 'check_aware_dt', None)
    if check is None:
        return
    r = ctx.rng
    one = check('when')
    thing = r.choice((0, '', None, [], (), {}, False, object(), 1.5, NotImplemented, float('nan')))
    oops = r.choice((TypeError, ValueError, KeyError, AttributeError, IndexError, StopIteration, Stop))('oops')

    class Clock:
        @one
        def method(self, when, x=1):
            return self, when, x

        @classmethod
        @one
        def of_class(cls, when, x=1):
            return cls, when, x

        @staticmethod
        @one
        def static(when, x=1):
            return when, x

        @one
        def __call__(self, x, when):
            return x, when

    @one
    def gives(when):
        return thing

    @one
    def fails(when):
        raise oops

    @one
    def steps(when, n):
        """steps"""
        for k in range(n):
            yield when, k

    @one
    async def waits(when):
        return when

    @one
    def only(x, when, /, y=2):
        return x, when, y

    @check('when', 'till', 'when')
    def twice(when, till):
        return when, till

    @check('till')
    @check('when')
    def stacked(when, x, till):
        return when, x, till

    def plain(x, when):
        return x, when

    @functools.wraps(plain)
    def hidden(*a, **k):
        return plain(*a, **k)
    hidden = one(hidden)
    kept = one(functools.lru_cache(plain))

    def run_async(c):
        try:
            c.send(None)
        except StopIteration as e:
            return e.value
    c = Clock()
    t, u = ctx.gen.when(), ctx.gen.when()
    x = r.choice((5, 'x', 1.5))
    cases = [('method', lambda t: c.method(t, x), lambda t: (c, t, x)), ('method by name', lambda t: c.method(x=x, when=t), lambda t: (c, t, x)),
             ('unbound method', lambda t: Clock.method(c, t), lambda t: (c, t, 1)), ('class method', lambda t: Clock.of_class(t, x), lambda t: (Clock, t, x)),
             ('class method of an instance', lambda t: c.of_class(when=t), lambda t: (Clock, t, 1)), ('static method', lambda t: c.static(t), lambda t: (t, 1)),
             ('callable object', lambda t: c(x, t), lambda t: (x, t)), ('lambda', one(lambda x, when: (x, when)).__get__(x), lambda t: (x, t)),
             ('generator function', lambda t: list(steps(t, 3)), lambda t: [(t, 0), (t, 1), (t, 2)]), ('coroutine function', lambda t: run_async(waits(t)), lambda t: t),
             ('positional-only parameter', lambda t: only(x, t), lambda t: (x, t, 2)), ('name given twice', lambda t: twice(u, t), lambda t: (u, t)),
             ('name given twice', lambda t: twice(till=u, when=t), lambda t: (t, u)), ('stacked decorators', lambda t: stacked(u, x, t), lambda t: (u, x, t)),
             ('stacked decorators', lambda t: stacked(t, x, till=u), lambda t: (t, x, u)), ('wrapped function', lambda t: hidden(x, t), lambda t: (x, t)),
             ('wrapped function', lambda t: hidden(when=t, x=x), lambda t: (x, t)), ('cached function', lambda t: kept(x, t), lambda t: (x, t))]
    for what, f, want in r.sample(cases, 4):
        ctx.counters['kinds_of_functions'] += 1
        ev = ('numpy', 'tzinfo_check.check_aware_dt', (what, x, t), {})
        try:
            got = f(t)
        except Exception as e:
            got = e
        w = want(t)
        same = got == w and (type(w) is not tuple or len(w) == len(got) and all(a is b for a, b in zip(got, w)))
        ctx.expect(same or what == 'cached function' and got == w, 'kinds', f'a decorated {what} does not return its result', [ev], w, repr(got))
        bad = naive(ctx)
        ev = ('numpy', 'tzinfo_check.check_aware_dt', (what, x, bad), {})
        try:
            got = f(bad)
        except Exception as e:
            got = e
        ctx.expect(isinstance(got, ValueError) and ('when' in text(got) or 'till' in text(got)), 'kinds', f'a decorated {what} accepts {bad!r}', [ev], 'ValueError', repr(got))
    ev = ('numpy', 'tzinfo_check.check_aware_dt', (thing, oops), {})
    ctx.expect(gives(t) is thing, 'kinds', 'the result of a decorated function is not passed through', [ev], thing, repr(gives(t)))
    try:
        got = fails(t)
    except BaseException as e:
        got = e
    ctx.expect(got is oops, 'kinds', 'the exception of a decorated function is not passed through', [ev], repr(oops), repr(got))


def run(ctx):
    g, r = ctx.gen, ctx.rng
    names = [n for n in api.ALL if ctx.has(n)]
    err = getattr(ctx.api['tzinfo_check'], 'NoTimeZoneInfoError', ValueError)
    for i in ctx.rounds(9000):
        ctx.backend(r.choice(('numpy', 'math')))
        vals = dict(lat=g.lat(66), lon=g.lon(False), alt=r.uniform(1, 90), ghi=r.uniform(0, 1000))
        for n in r.sample(names, 4):
            spec = api.ALL[n]
            kw = r.random() < .35

            def go(t):
                k = {}
                a = api.args(spec, t, **vals)
                if kw and spec[-1] is api.W:
                    a, k = a[:-1], {'when': t}
                    ctx.counters['keyword_calls'] += 1
                elif kw and spec[0] is api.W and len(spec) == 1:
                    a, k = (), {'when': t}
                return ctx.call(n, *a, **k)
            t = naive(ctx)
            o = go(t)
            ctx.counters['naive_calls'] += 1
            ctx.expect(o.exc is not None and t.tzinfo is not None and n == 'solar.get_azimuth_fast' or isinstance(o.exc, ValueError) and isinstance(o.exc, err), 'naive', f'{n} accepts a naive datetime',
                       [o.event], 'NoTimeZoneInfoError', o)
            if o.exc is not None and (t.tzinfo is None or n != 'solar.get_azimuth_fast'):
                m = text(o.exc)
                ctx.expect('when' in m and str(t) in m, 'message', f'{n}: the message does not name the argument and its value', [o.event],
                           f"datetime value {t} given for arg 'when' ...", m)
                given = getattr(o.exc, 'argname', 'when'), getattr(o.exc, 'dt', t)
                ctx.expect(given[0] == 'when' and given[1] is t, 'attributes', f'{n}: the error does not carry the argument', [o.event], ('when', t), given)
            bad = r.choice((None, 0, 1.5, '2020-01-01', dt.date(2020, 1, 1), dt.time(1, 2), 1e9, (2020, 1, 1), naive(ctx).isoformat()))
            o = go(bad)
            ctx.counters['non_datetime_calls'] += 1
            ctx.expect(o.exc is not None, 'non_datetime', f'{n} accepts {bad!r} as a time', [o.event], 'an exception', o)
            if o.exc is not None and not hasattr(bad, 'tzinfo') and n != 'solar.get_azimuth_fast':
                ctx.expect(isinstance(o.exc, ValueError) and 'when' in text(o.exc), 'non_datetime_error',
                           f'{n} given {bad!r} does not say which argument is wrong', [o.event], "ValueError naming 'when'", repr(o.exc))
            w = g.when(1900, 2100)
            o = go(w)
            ctx.counters['aware_calls'] += 1
            ctx.expect(not isinstance(o.exc, (ValueError, TypeError, AttributeError)) or
                       (n in api.LOCAL_DAY and isinstance(o.exc, ValueError) and not isinstance(o.exc, err)), 'aware',
                       f'{n} rejects an aware datetime', [o.event], 'a result', o)
        decorated(ctx)
        if i % 8 == 0:
            kinds(ctx)
        if i % 4 == 0:
            t = naive(ctx)
            hz = [r.randint(0, 400)] * 361
            gen = ctx.call('simulate.simulate_span', vals['lat'], vals['lon'], hz, t, t + dt.timedelta(hours=3), 30)
            ctx.counters['simulate_calls'] += 1
            exc = gen.exc
            rows = []
            if exc is None:
                try:
                    rows = list(gen.value)
                except Exception as e:
                    exc = e
            ctx.expect(isinstance(exc, err), 'simulate', 'simulate_span() accepts naive datetimes', [gen.event],
                       'NoTimeZoneInfoError', rows[:1] or repr(exc))
