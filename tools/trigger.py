#!/opt/venv/bin/python
"""tools/trigger.py N SEED [FUNCTION...]: N changes that disturb one argument of one function of pysolar only when it has some special
property (an odd offset, an integer, a one-element array, ...), each in a scratch copy. Those that pass the repository's tests are shown
to the checks of the function's module. Prints the ones nothing reports: what the workloads do not reach, or what does no harm."""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CHECKS = {'solar': 'C06 C07 C13 C11 C12 C08 C10 C04 C27 C26 C28 C14', 'solartime': 'C01 C02 C03 C04', 'radiation': 'C15 C27 C17 C04',
          'util': 'C19 C21 C22 C23 C27 C04 C20', 'elevation': 'C18', 'simulate': 'C16 C17', 'rest': 'C24 C25', 'numeric': 'C26 C13 C27'}
TIME = {'microsecond': 'v.microsecond == 999999', 'day366': 'v.utctimetuple().tm_yday == 366', 'fold': 'v.fold == 1', 'odd_offset': 'v.utcoffset().total_seconds() % 60 != 0',
        'feb29': 'v.month == 2 and v.day == 29', 'early': 'v.year < 1000', 'late': 'v.year > 9000', 'subclass': "type(v).__name__ != 'datetime' and hasattr(v, 'fold')",
        'last_minute': 'v.minute == 59 and v.second == 59', 'dst': 'bool(v.dst())', 'new_year': 'v.year != v.utctimetuple().tm_year', 'month': 'v.month != v.utctimetuple().tm_mon',
        'far_east': 'v.utcoffset().total_seconds() >= 46800', 'whole_hour': 'v.minute == 0 and v.second == 0 and v.microsecond == 0', 'odd_century': 'v.year % 100 == 0 and v.year % 400',
        'before_epoch': 'v.year in (1968, 1969)', 'datetime64': "hasattr(v, 'dtype') and v.dtype == 'datetime64[ns]'", 'datetime64D': "hasattr(v, 'dtype') and v.dtype == 'datetime64[D]'",
        'zoneinfo': "type(v.tzinfo).__name__ == 'ZoneInfo' and v.utcoffset().total_seconds() < 0"}
NUM = {'zero': 'v == 0', 'minus_zero': 'v == 0 and _c(1, v) < 0', 'int': 'type(v) is int', 'numpy_scalar': "type(v).__module__ == 'numpy' and not hasattr(v, '__len__')", 'turned': 'abs(v) > 180',
       'band': '-.5 < v * 7 % 360 - 123 < .5', 'whole': 'float(v).is_integer()', 'ninety': 'abs(v) == 90', 'big': 'abs(v) > 500', 'tiny': '0 < abs(v) < 1e-6', 'negative': 'v < 0',
       'float32': "hasattr(v, 'dtype') and v.dtype == 'float32'", 'size1': "hasattr(v, 'shape') and v.size == 1 and v.ndim == 1", 'two_d': "hasattr(v, 'shape') and v.ndim == 2",
       'zero_d': "type(v).__name__ == 'ndarray' and v.ndim == 0", 'long_array': "hasattr(v, 'shape') and v.size > 50", 'strided': "hasattr(v, 'flags') and type(v).__name__ == 'ndarray' and not v.flags['C_CONTIGUOUS']",
       'int_array': "hasattr(v, 'dtype') and type(v).__name__ == 'ndarray' and v.dtype.kind == 'i'", 'readonly': "type(v).__name__ == 'ndarray' and not v.flags['WRITEABLE']",
       'has_zero': "type(v).__name__ == 'ndarray' and (v == 0).any()", 'mixed_sign': "type(v).__name__ == 'ndarray' and (v < 0).any() and (v > 0).any()", 'big_endian': "type(v).__name__ == 'ndarray' and v.dtype.byteorder == '>'"}


def main():
    n, rng = int(sys.argv[1]), random.Random(int(sys.argv[2]))
    cases = []
    for m in CHECKS:
        src = open(f'/repo/pysolar/{m}.py', newline='').read()
        for f in ast.parse(src).body:
            if isinstance(f, ast.FunctionDef) and (not sys.argv[3:] or f.name in sys.argv[3:]):
                for a in f.args.args:
                    if a.arg in ('name', 'module', 'name_as', 'condition', 'band', 'nutation', 'coeffs', 'horizon', 'DIFF_data'):
                        continue
                    time = a.arg in ('when', 'start_datetime', 'd')
                    arrays = m in ('solar', 'radiation') and f.name not in ('get_coeff', 'get_nutation', 'get_true_ecliptic_obliquity', 'get_apparent_sidereal_time', 'get_apparent_sun_longitude')
                    for k, cond in (TIME if time else NUM).items():
                        if not arrays and ('array' in k or 'hasattr' in cond and not time or k in ('zero_d', 'strided', 'readonly', 'has_zero', 'mixed_sign', 'big_endian', 'datetime64', 'datetime64D')):
                            continue
                        cases.append((m, f, a.arg, k, cond, 'v + __import__("datetime").timedelta(days=33, hours=6)' if time else 'v * 1.01 + .01'))
    rng.shuffle(cases)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TZ='UTC', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    tally = {}
    d = tempfile.mkdtemp(prefix='trigger-')
    try:
        for m, f, arg, k, cond, eff in cases[:n]:
            repo = os.path.join(d, 'repo')
            shutil.rmtree(repo, ignore_errors=True)
            shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('__pycache__', '.git'))
            p = f'{repo}/pysolar/{m}.py'
            b = open(p, newline='').read()
            nl = '\r\n' if '\r\n' in b else '\n'
            lines = b.replace('\r\n', '\n').split('\n')
            at = f.body[0].end_lineno if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else f.body[0].lineno - 1
            ind = ' ' * f.body[-1].col_offset
            lines[at:at] = [f'{ind}{arg} = _trigger({arg})']
            lines += ['def _trigger(v):', '    from math import copysign as _c', '    try:', f'        return ({eff}) if ({cond}) else v', '    except Exception:', '        return v', '']
            open(p, 'w', newline='').write(nl.join(lines))
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], cwd=repo, env=env, capture_output=True, text=True)
            if r.returncode or '90 passed' not in r.stdout:
                tally['tests'] = tally.get('tests', 0) + 1
                continue
            hit = None
            for c in CHECKS[m].split():
                r = subprocess.run([PY, 'run.py', c, '--seed', '1'], cwd=HERE, env=dict(env, VERIF_REPO=repo), capture_output=True, text=True)
                if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                    hit = c
                    break
            tally[hit or 'none'] = tally.get(hit or 'none', 0) + 1
            if not hit:
                print(f'SURVIVES: {m}.{f.name}({arg}) {k}', flush=True)
    finally:
        shutil.rmtree(d)
    print(tally, flush=True)


main()
