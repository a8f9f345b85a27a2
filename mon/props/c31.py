"""random monthly data files (any first month, one month to 60 years, varied white space, signs and digits) through the real
generator script, its output evaluated as Python and compared with the file month by month; damaged files (gap, repeat, reordering, wrong day,
incomplete year) must be refused; the library's own values must regenerate its table."""
import ast
import contextlib
import datetime as dt
import io
import os
import shutil
import sys
import tempfile
from .. import core, lib
DRESS = None
FLOOR = 3000
REQUIRED = ('tables', 'months', 'refused', 'first_month_not_january', 'regenerated', 'one_month', 'optimized')
SCRIPT = 'util/get_delta_t'


def generate(ctx, code, path, text):
    with open(path, 'w') as f:
        f.write(text)
    ctx.fn_events[SCRIPT] += 1
    ctx.distinct.add(hash(text))
    out, argv = io.StringIO(), sys.argv
    sys.argv = ['get_delta_t', path]
    try:
        with contextlib.redirect_stdout(out):
            exec(code, {'__name__': '__main__'})
        return out.getvalue(), None
    except SystemExit as e:
        return out.getvalue(), e if e.code not in (None, 0) else None
    except Exception as e:
        return out.getvalue(), e
    finally:
        sys.argv = argv


def read(text):
    """the generated assignments"""
    got = {}
    for n in ast.parse(text).body:
        if isinstance(n, ast.Assign):
            got[n.targets[0].id] = ast.literal_eval(n.value)
    return got


def run(ctx):
    r = ctx.rng
    path = os.path.join(core.REPO, 'util', 'get_delta_t')
    with open(path) as f:
        text = f.read()
    codes = [compile(text, path, 'exec', optimize=k) for k in (0, 1, 2)]
    tmp = tempfile.mkdtemp(prefix='verif-c31-')
    file = os.path.join(tmp, 'deltat.data')
    try:
        for i in ctx.rounds(1200):
            level = r.choice((0, 0, 1, 2))
            code = codes[level]
            ctx.counters['optimized'] += level > 0
            y0, m0 = r.randint(1900, 2100), r.randint(1, 12)
            n = r.choice((1, 2, 12, 13, 13 - m0, r.randint(1, 60), r.randint(1, 720)))
            ctx.counters['one_month'] += n == 1
            ctx.counters['first_month_not_january'] += m0 > 1
            rows, v = [], r.uniform(-10, 90)
            for k in range(n):
                q = m0 - 1 + k
                v += r.uniform(-.1, .2)
                rows.append((y0 + q // 12, q % 12 + 1, 1, round(v, r.choice((4, 4, 3, 6)))))
            if i == 0 and ctx.shard == 0:
                rows, w = [], (1973, 2)
                table = ctx.api['solartime']
                if hasattr(table, 'delta_t'):
                    count = sum(len(x) for x in table.delta_t)
                    for k in range(count):
                        y, m = w[0] + (w[1] - 1 + k) // 12, (w[1] - 1 + k) % 12 + 1
                        rows.append((y, m, 1, float(ctx.call('solartime.get_delta_t', dt.datetime(y, m, 5, tzinfo=dt.timezone.utc)).value)))
                    out, err = generate(ctx, code, file, ''.join(' %d %d %d %.4f\n' % x for x in rows))
                    ev = [('numpy', SCRIPT, ('the library\'s own values',), {})]
                    if ctx.expect(err is None, 'regenerate', 'generator refused the library\'s own values', ev, None, err):
                        got = read(out)
                        ctx.counters['regenerated'] += 1
                        ctx.expect([list(x) for x in got['delta_t']] == [list(x) for x in table.delta_t] and got['delta_t_base_year'] == table.delta_t_base_year
                                   and got['delta_t_base_month'] == table.delta_t_base_month, 'regenerate', 'the built-in table is not what the generator makes of its values',
                                   ev, 'the built-in table', out[:300])
                    continue
            damage = r.choice((None, None, None, 'gap', 'repeat', 'swap', 'day', 'year')) if n > 2 else r.choice((None, None, 'day'))
            rows = list(rows)
            k = r.randrange(1, n - 1) if n > 2 else 0
            if damage == 'gap':
                del rows[k]
            elif damage == 'repeat':
                rows.insert(k, rows[k])
            elif damage == 'swap':
                rows[k - 1], rows[k] = rows[k], rows[k - 1]
            elif damage == 'day':
                k = r.randrange(n)
                rows[k] = rows[k][:2] + (r.choice((2, 15, 31, 0)),) + rows[k][3:]
            elif damage == 'year':
                rows = [x if j < k else (x[0] + 1,) + x[1:] for j, x in enumerate(rows)]
            style = r.choice((' %d %d %d %s\n', '%d\t%d  %d   %s\n', ' %d %2d  %d  %s  \n', '%d %02d %02d %s\n\n'))
            text = ''.join(style % (x[0], x[1], x[2], '%.4f' % x[3] if r.random() < .7 else repr(x[3])) for x in rows)
            if r.random() < .3:
                text = text.rstrip('\n')
            out, err = generate(ctx, code, file, text)
            ev = [('numpy', SCRIPT, (text[:3000],), {})]
            if damage:
                ctx.counters['refused'] += 1
                ctx.expect(err is not None, 'accepted', f'a file with a {damage} defect was accepted', ev, 'an error', out[:200])
                continue
            if not ctx.expect(err is None, 'refused', 'a well-formed file was refused', ev, 'a table', err):
                continue
            try:
                got = read(out)
                base, month, table = got['delta_t_base_year'], got['delta_t_base_month'], got['delta_t']
            except Exception as e:
                ctx.violation('source', f'the output is not the source of a table: {e!r}', ev, 'Python source', out[:500])
                continue
            ctx.counters['tables'] += 1
            flat = [(base + a, b + (month if a == 0 else 1), v) for a, ys in enumerate(table) for b, v in enumerate(ys)]
            ctx.counters['months'] += len(flat)
            ctx.judged(len(flat))
            ctx.expect([(y, m) for y, m, v in flat] == [x[:2] for x in rows], 'months', 'the table does not hold the file\'s months', ev,
                       [x[:2] for x in rows][:30], [(y, m) for y, m, v in flat][:30])
            for (y, m, v), x in zip(flat, rows):
                if abs(v - x[3]) > 5.1e-5:
                    ctx.violation('value', f'value of {x[0]}-{x[1]:02d}', ev, x[3], v)
    finally:
        shutil.rmtree(tmp)
