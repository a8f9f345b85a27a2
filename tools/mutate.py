#!/opt/venv/bin/python
"""tools/mutate.py N SEED [FILE...]: N random small changes of pysolar, each in a scratch copy; those that pass the repository's tests
are shown to the checks, file by file relevance first. Prints the changes no check reports (equivalent ones included)."""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ALL = [f'C{i:02d}' for i in range(1, 38)]
FIRST = {'solar.py': 'C33 C06 C07 C13 C11 C12 C08 C10 C27 C05 C26', 'solartime.py': 'C01 C02 C03 C05', 'numeric.py': 'C26 C13 C27 C04',
         'radiation.py': 'C15 C27 C05', 'util.py': 'C19 C21 C22 C23 C05 C27', 'elevation.py': 'C18 C33', 'simulate.py': 'C16 C17', 'rest.py': 'C24 C25',
         'constants.py': 'C06 C18 C13 C08', 'tzinfo_check.py': 'C05', 'get_delta_t': 'C31', '__init__.py': 'C26'}
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Mod: '%', ast.Pow: '**', ast.FloorDiv: '//'}
SWAP = {'+': '-', '-': '+', '*': '/', '/': '*', '%': '*', '**': '*', '//': '/'}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
CSWAP = {'<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '=='}


def mutants(src, rng):
    tree = ast.parse(src)
    off = [0]
    for l in src.split('\n'):
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def at(line, col):
        return off[line - 1] + col
    out = []
    names = {}
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            loc = sorted({n.id for n in ast.walk(f) if isinstance(n, ast.Name)} & {a.arg for a in f.args.args} | {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
            for n in ast.walk(f):
                names[id(n)] = loc
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = n.value
            for w in ({v + 1, v - 1} if isinstance(v, int) else {v * 1.01, v * 1.0001, -v}):
                if w != v:
                    out.append((at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset), repr(w), 'const'))
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            s, e = at(n.left.end_lineno, n.left.end_col_offset), at(n.right.lineno, n.right.col_offset)
            o = OPS[type(n.op)]
            t = b[s:e].decode()
            if '#' not in t and t.count(o):
                out.append((s, e, t.replace(o, SWAP[o], 1), 'op'))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            s, e = at(n.left.end_lineno, n.left.end_col_offset), at(n.comparators[0].lineno, n.comparators[0].col_offset)
            o = CMP[type(n.ops[0])]
            out.append((s, e, b[s:e].decode().replace(o, CSWAP[o], 1), 'cmp'))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            i = rng.randrange(len(n.args) - 1)
            x, y = n.args[i], n.args[i + 1]
            s, e = at(x.lineno, x.col_offset), at(y.end_lineno, y.end_col_offset)
            xs, ys = ast.get_source_segment(src, x), ast.get_source_segment(src, y)
            if xs != ys:
                out.append((s, e, ys + ', ' + xs, 'args'))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names.get(id(n), ()):
            o = [m for m in names[id(n)] if m != n.id]
            if o:
                out.append((at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset), rng.choice(o), 'name'))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) and n.col_offset:
            out.append((at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset), 'pass', 'drop'))
        elif isinstance(n, ast.Attribute) and n.attr in ('sin', 'cos', 'tan', 'radians', 'degrees', 'utctimetuple'):
            s = at(n.end_lineno, n.end_col_offset)
            out.append((s - len(n.attr), s, {'sin': 'cos', 'cos': 'sin', 'tan': 'sin', 'radians': 'degrees', 'degrees': 'radians', 'utctimetuple': 'timetuple'}[n.attr], 'call'))
    return b, out


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    rng = random.Random(seed)
    root = '/repo'
    files = sys.argv[3:] or ['pysolar/' + f for f in os.listdir(root + '/pysolar') if f.endswith('.py')] + ['util/get_delta_t']
    weights = {'pysolar/constants.py': .12, 'pysolar/solartime.py': .5, 'pysolar/rest.py': .6, 'pysolar/util.py': 1.2, 'pysolar/simulate.py': .6, 'pysolar/tzinfo_check.py': .5,
               'pysolar/numeric.py': .7, 'pysolar/radiation.py': .5, 'pysolar/elevation.py': .3, 'pysolar/__init__.py': .05, 'util/get_delta_t': .3}
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TZ='UTC', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    pool = {f: mutants(open(os.path.join(root, f), newline='').read(), rng) for f in files}
    pool = {f: v for f, v in pool.items() if v[1]}
    tally = {}
    d = tempfile.mkdtemp(prefix='mutate-')
    try:
        for k in range(n):
            f = rng.choices(list(pool), [weights.get(x, 1) for x in pool])[0]
            b, ms = pool[f]
            if f.endswith(('constants.py', 'solartime.py')) and rng.random() < .5:
                ms = [m for m in ms if m[3] != 'const'] or ms
            s, e, t, kind = rng.choice(ms)
            repo = os.path.join(d, 'repo')
            shutil.rmtree(repo, ignore_errors=True)
            shutil.copytree(root, repo, ignore=shutil.ignore_patterns('__pycache__', '.git'))
            open(os.path.join(repo, f), 'wb').write(b[:s] + t.encode() + b[e:])
            line = b[:s].count(b'\n') + 1
            desc = f'{f}:{line} {kind} {b[s:e].decode()[:60]!r} -> {t[:60]!r}'
            try:
                r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], cwd=repo, env=env, capture_output=True, text=True, timeout=120)
                if r.returncode or '90 passed' not in r.stdout:
                    tally['tests'] = tally.get('tests', 0) + 1
                    continue
            except subprocess.TimeoutExpired:
                continue
            first = FIRST.get(os.path.basename(f), '').split()
            hit, odd = None, []
            for p in first + [c for c in ALL if c not in first]:
                r = subprocess.run([PY, 'run.py', p, '--seed', '1'], cwd=HERE, env=dict(env, VERIF_REPO=repo), capture_output=True, text=True)
                if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                    hit = p
                    break
                if r.returncode:
                    odd.append(f'{p} rc={r.returncode}')
            tally[hit or 'none'] = tally.get(hit or 'none', 0) + 1
            if not hit or odd or hit not in first:
                print(f'{"SURVIVES" if not hit else "by " + hit}: {desc} {odd}', flush=True)
    finally:
        shutil.rmtree(d)
    print(tally)


main()
