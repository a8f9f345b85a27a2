#!/opt/venv/bin/python
"""tools/trigger3.py N SEED: as trigger.py, but the result of one function is disturbed (by 0.1 %) in a narrow window only: half a percent of the range of one number,
one minute, hour, day or year, one offset, a tenth of each of two ranges, a hundredth of the values of the result."""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
CHECKS = {'solar': 'C06 C07 C13 C11 C12 C08 C10 C14 C27 C04', 'solartime': 'C01 C02 C03 C04', 'radiation': 'C15 C17 C27', 'util': 'C19 C21 C22 C23 C20 C27', 'elevation': 'C18', 'simulate': 'C16 C17', 'rest': 'C24 C25'}
RANGE = {'lat': (-90, 90), 'lon': (-180, 180), 'elev': (0, 9000), 'temp': (230, 320), 'press': (50000, 105000), 'day': (1, 366), 'alt': (-90, 90), 'up': (0, 90), 'zen': (0, 90), 'slope': (0, 90),
         'angle': (0, 360), 'jd': (2415000, 2488000), 'jce': (-1, 1), 'jme': (-.1, .1), 'R': (.983, 1.017), 'small': (-.006, .006), 'obl': (22.5, 24.5), 'frac': (0, 1), 'par': (.0022, .0028), 'decl': (-23.4, 23.4),
         'sc': (1310, 1390), 'ty': (361, 369), 'tl': (1, 9), 'am': (1, 4), 'ghi': (10, 990), 'mbar': (400, 1050), 'uo': (.05, .55), 'un': (.0001, .0018), 'w': (.2, 9), 'alpha': (.9, 2.4), 'beta': (.02, 1),
         'mass': (.5, 30), 'lam': (.2, 1.9)}


def main():
    from mon.calls import SPEC
    n, rng = int(sys.argv[1]), random.Random(int(sys.argv[2]))
    cases = []
    for name, spec in SPEC.items():
        m, f = name.split('.')
        flat = [(k.lstrip('?'), i) for i, k in enumerate(spec) if not isinstance(k, dict)] + [(b, a) for k in spec if isinstance(k, dict) for a, b in k.items()]
        for kind, where in flat:
            get = f'a[{where}]' if isinstance(where, int) else f'k[{where!r}]'
            if kind in ('when', 'modern', 'start'):
                u = f'{get}.astimezone(_d.timezone.utc)'
                for c in (f'{u}.minute == {rng.randrange(60)}', f'{u}.hour == {rng.randrange(24)} and {u}.minute < 10', f'{u}.second == {rng.randrange(60)}', f'{u}.timetuple().tm_yday == {rng.randint(1, 366)}',
                          f'{u}.year == {rng.randint(1950, 2049)}', f'{u}.month == {rng.randint(1, 12)} and {u}.hour == {rng.randrange(24)}', f'{u}.weekday() == {rng.randrange(7)} and {u}.hour == {rng.randrange(24)}',
                          f'{get}.utcoffset().total_seconds() == {rng.choice((3600, 7200, -18000, 19800, 20700, 34200, -12600, 45900, 50400, -43200))}', f'{u}.year % 4 == 0 and {u}.month == 3 and {u}.day == 1',
                          f'{u}.day == {rng.randint(1, 28)} and {u}.month == {rng.randint(1, 12)}', f'{get}.hour == 23 and {u}.hour < 6', f'{u}.microsecond > 998000', f'{u}.year < 1900', f'2100 < {u}.year < 2200'):
                    cases.append((m, f, c))
            elif kind in RANGE:
                lo, hi = RANGE[kind]
                for width in (.005, .005, .02):
                    x = rng.uniform(lo, hi - width * (hi - lo))
                    cases.append((m, f, f'{x:.8g} <= {get} < {x + width * (hi - lo):.8g}'))
        nums = [(k, w) for k, w in flat if k in RANGE]
        for _ in range(2):
            if len(nums) > 1:
                c = []
                for kind, w in rng.sample(nums, 2):
                    lo, hi = RANGE[kind]
                    x = rng.uniform(lo, hi - .1 * (hi - lo))
                    c.append(f'{x:.8g} <= {"a[%d]" % w if isinstance(w, int) else "k[%r]" % w} < {x + .1 * (hi - lo):.8g}')
                cases.append((m, f, ' and '.join(c)))
    rng.shuffle(cases)
    if sys.argv[3:]:
        cases = [c for c in cases if c[0] in sys.argv[3:]]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TZ='UTC', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    tally = {}
    d = tempfile.mkdtemp(prefix='trigger-')
    try:
        for m, f, cond in cases[:n]:
            repo = os.path.join(d, 'repo')
            shutil.rmtree(repo, ignore_errors=True)
            shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('__pycache__', '.git'))
            with open(f'{repo}/pysolar/{m}.py', 'a', newline='') as out:
                out.write(f'''
import functools as _f, datetime as _d, inspect as _i
def _bad(v):
    if isinstance(v, tuple): return tuple(_bad(x) for x in v)
    if isinstance(v, dict): return dict((k, _bad(x)) for k, x in v.items())
    if isinstance(v, _d.datetime): return v + _d.timedelta(seconds=10)
    return v * 1.001 + .001 if type(v) in (int, float) or hasattr(v, 'dtype') else v
def _hook(f):
    sig = _i.signature(f)
    @_f.wraps(f)
    def g(*aa, **kk):
        try:
            b = sig.bind(*aa, **kk)
            a, k = list(b.arguments.values()), b.arguments
            hit = bool({cond})
        except Exception:
            hit = False
        r = f(*aa, **kk)
        if not hit: return r
        return (_bad(x) for x in r) if hasattr(r, '__next__') else _bad(r)
    return g
{f} = _hook({f})
''')
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], cwd=repo, env=env, capture_output=True, text=True)
            if r.returncode or '90 passed' not in r.stdout:
                tally['tests'] = tally.get('tests', 0) + 1
                continue
            hit = None
            for c in CHECKS[m].split():
                r = subprocess.run([PY, 'run.py', c, '--seed', '1'], cwd=HERE, env=dict(env, VERIF_REPO=repo), capture_output=True, text=True)
                if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                    hit = c
                    break
            tally[hit or 'none'] = tally.get(hit or 'none', 0) + 1
            if not hit:
                print(f'SURVIVES: {m}.{f} {cond}', flush=True)
    finally:
        shutil.rmtree(d)
    print(tally, flush=True)


main()
