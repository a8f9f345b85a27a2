#!/opt/venv/bin/python
"""tools/trigger2.py N SEED: N changes that disturb the result of one function only in some circumstance that is not in its arguments alone: the n-th call, a call after a
failed one, a repeated call, a second thread, an interpreter option, a relation between two arguments, ... each in a scratch copy; as trigger.py otherwise, but all
checks of the module and those of histories, threads and configurations are run."""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CHECKS = {'solar': 'C28 C29 C26 C35 C34 C06 C07 C13 C11 C12 C08 C10 C04 C27 C14 C32 C33 C30 C37', 'solartime': 'C28 C29 C26 C35 C34 C01 C02 C03 C04', 'radiation': 'C28 C29 C26 C35 C34 C15 C27 C17 C04',
          'util': 'C28 C29 C26 C35 C34 C19 C21 C22 C23 C27 C04 C20', 'elevation': 'C28 C29 C26 C35 C34 C18', 'simulate': 'C28 C29 C26 C35 C34 C16 C17 C36', 'rest': 'C28 C29 C26 C35 C34 C24 C25'}
WHEN = {
    'first_call': 's.n == 1', 'second_call': 's.n == 2', 'tenth': 's.n == 10', 'hundredth': 's.n == 100', 'every_64th': 's.n % 64 == 0', 'after_300': 's.n > 300', 'every_500th': 's.n % 500 == 0',
    'after_failure': 's.failed', 'same_again': 's.last == key', 'same_first_argument': 's.n > 1 and a and s.last[0][:1] == key[0][:1]', 'two_ago': 's.ago == key', 'seen_before': 'key in s.seen',
    'other_thread': '_t.current_thread() is not _t.main_thread()', 'threads_alive': '_t.active_count() > 1', 'keywords': 'len(k) > 1', 'after_switch': 's.mod is not None and s.mod != _mod()',
    'math_backend': "_mod() == 'math'", 'switched_twice': 's.switches > 2', 'optimised': '_s.flags.optimize > 0', 'dev_mode': '_s.flags.dev_mode', 'handler': '_s.exc_info()[0] is not None',
    'gc_off': 'not __import__("gc").isenabled()', 'recent_exception': 's.failed_n > 3', 'traced': '_s.gettrace() is not None', 'locale': '__import__("locale").localeconv()["decimal_point"] == ","',
    'tz_east': '__import__("time").timezone < -30000', 'odd_second': 'int(__import__("time").time()) % 2', 'rare_random': '__import__("random").random() < .003', 'concurrent': 's.inside > 1',
    'equal_arguments': 'len(a) > 1 and a[0] == a[1]', 'opposite': 'len(a) > 1 and a[0] == -a[1] and a[0] != 0', 'both_zero': 'len(a) > 1 and a[0] == 0 and a[1] == 0',
    'both_negative_whole': 'len(a) > 1 and a[0] < 0 and a[1] < 0 and a[0] == int(a[0]) and a[1] == int(a[1])', 'south_june': "any(getattr(x, 'month', 0) == 6 and getattr(x, 'day', 0) == 21 for x in a)",
    'corner': "len(a) > 1 and abs(a[0]) == 90 and abs(a[1]) == 180", 'weekday': "any(hasattr(x, 'weekday') and x.weekday() == 6 and x.day == 1 for x in a)",
    'short_hash': 'hash(repr(key)) % 499 == 7', 'bytes_stdout': '_s.stdout is None', 'in_loop': '_loop()', 'deep': '_depth() > 150', 'cwd_root': '__import__("os").getcwd() == "/"', 'year_2100': "any(getattr(x, 'year', 0) == 2100 for x in a)",
    'late_clock': '__import__("time").time() > 2e9', 'default_filter': 'not __import__("warnings").filters or __import__("warnings").filters[0][0] == "error"',
}
CODE = '''
import functools as _f, threading as _t, sys as _s
class _State:
    n = 0; failed = False; last = None; ago = None; mod = None; switches = 0; failed_n = 0; inside = 0
    def __init__(self): self.seen = set()
def _mod():
    from pysolar import numeric
    return numeric.current_mod
def _loop():
    import asyncio
    try: return asyncio.get_running_loop() is not None
    except RuntimeError: return False
def _depth():
    f = _s._getframe(); n = 0
    while f: f = f.f_back; n += 1
    return n
def _bad(v):
    import datetime
    if isinstance(v, tuple): return tuple(_bad(x) for x in v)
    if isinstance(v, dict): return dict((k, _bad(x)) for k, x in v.items())
    if isinstance(v, datetime.datetime): return v + datetime.timedelta(minutes=7)
    if type(v) in (int, float) or hasattr(v, 'dtype'): return v * 1.001 + .001
    return v
def _hook(f):
    s = _State()
    @_f.wraps(f)
    def g(*a, **k):
        s.n += 1
        s.inside += 1
        key = (tuple(repr(x) for x in a), repr(sorted(k.items())))
        try:
            hit = bool(COND)
        except Exception:
            hit = False
        if s.mod != _mod(): s.switches += 1
        s.mod = _mod(); s.ago = s.last; s.last = key
        if len(s.seen) < 3000: s.seen.add(key)
        try:
            r = f(*a, **k)
            s.failed = False
        except Exception:
            s.failed = True; s.failed_n += 1
            raise
        finally:
            s.inside -= 1
        if hasattr(r, '__next__') and hit: return (_bad(x) for x in r)
        return _bad(r) if hit else r
    return g
NAME = _hook(NAME)
'''


def main():
    n, rng = int(sys.argv[1]), random.Random(int(sys.argv[2]))
    cases = []
    for m in CHECKS:
        for f in ast.parse(open(f'/repo/pysolar/{m}.py', newline='').read()).body:
            if isinstance(f, ast.FunctionDef) and not f.name.endswith('_test') and f.name not in ('get_diffuse_irradiance_by_band', 'get_diffuse_broadband_irradiance', 'get_global_broadband_irradiance', 'get_backscattered_diffuse_broadband_irradiance', 'get_coeff'):
                cases += [(m, f.name, k) for k in WHEN]
    rng.shuffle(cases)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TZ='UTC', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    tally = {}
    d = tempfile.mkdtemp(prefix='trigger-')
    try:
        for m, name, k in cases[:n]:
            repo = os.path.join(d, 'repo')
            shutil.rmtree(repo, ignore_errors=True)
            shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('__pycache__', '.git'))
            with open(f'{repo}/pysolar/{m}.py', 'a', newline='') as f:
                f.write('\n' + CODE.replace('COND', WHEN[k]).replace('NAME', name))
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], cwd=repo, env=env, capture_output=True, text=True)
            if r.returncode or '90 passed' not in r.stdout:
                tally['tests'] = tally.get('tests', 0) + 1
                continue
            hit = None
            for c in CHECKS[m].split():
                r = subprocess.run([PY, 'run.py', c, '--seed', '1'], cwd=HERE, env=dict(env, VERIF_REPO=repo), capture_output=True, text=True)
                if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                    hit = c
                    break
            tally[hit or 'none'] = tally.get(hit or 'none', 0) + 1
            if not hit:
                print(f'SURVIVES: {m}.{name} {k}', flush=True)
    finally:
        shutil.rmtree(d)
    print(tally, flush=True)


main()
