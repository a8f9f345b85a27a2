#!/usr/bin/env python3
"""tools/plant.py FILE [ID...]: builds and validates planted bugs from a Python file that defines SEEDS, a list of dicts
{id, property, needs, what_it_breaks, edits: [(path, old, new)], demo: python source}. For each one, in a scratch copy of /repo: the patch
applies and changes original lines, the tests pass, the demo passes without and fails with it; then runs the property's check
on the copy. Writes seeded/<id>/."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '08c462d'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TZ='UTC', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
SH = '#!/bin/bash\n# exit 0: the property holds; nonzero: it is broken\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=900, **kw)


def one(s):
    d = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('__pycache__'))
        out = os.path.join(HERE, 'seeded', s['id'])
        demo = os.path.join(d, 'demo')
        os.makedirs(demo)
        open(demo + '/demo.py', 'w').write(s['demo'])
        open(demo + '/demo.sh', 'w').write(SH)
        os.chmod(demo + '/demo.sh', 0o755)
        r = run(['bash', demo + '/demo.sh'], repo, env=ENV)
        if r.returncode:
            return 'demo fails on the unchanged tree: ' + r.stdout[-600:] + r.stderr[-600:]
        for path, old, new in s['edits']:
            p = os.path.join(repo, path)
            b = open(p, newline='').read()
            crlf = '\r\n' in b
            t = b.replace('\r\n', '\n')
            if t.count(old) != 1:
                return f'{path}: {t.count(old)} matches of {old!r}'
            t = t.replace(old, new)
            open(p, 'w', newline='').write(t.replace('\n', '\r\n') if crlf else t)
        diff = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True).stdout
        base = {}
        gone = 0
        for line in diff.decode().split('\n'):
            if line.startswith('--- a/'):
                cur = line[6:].strip()
                base[cur] = set(subprocess.run(['git', 'show', f'{BASE}:{cur}'], cwd=repo, capture_output=True).stdout.decode().replace('\r', '').split('\n'))
            elif line.startswith('-') and not line.startswith('---'):
                gone += 1
                if line[1:].rstrip('\r') not in base[cur]:
                    return 'changes a line that is not original: ' + line
        if not gone:
            return 'changes no original line'
        r = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x'], repo, env=ENV)
        m = re.search(r'(\d+) passed', r.stdout)
        if r.returncode or not m or int(m.group(1)) < 90:
            return 'tests: ' + r.stdout[-800:]
        r = run(['bash', demo + '/demo.sh'], repo, env=ENV)
        if not r.returncode:
            return 'demo passes with the patch'
        why = (r.stdout + r.stderr).strip().split('\n')[-1]
        os.makedirs(out, exist_ok=True)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(demo, f), out)
        open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
        json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        caught = []
        for prop in [s['property']] + s.get('also', []):
            r = run([PY, 'run.py', prop, '--tier', 'quick', '--seed', '1'], HERE, env=dict(ENV, VERIF_REPO=repo))
            caught.append(f'{prop} rc={r.returncode} {"CAUGHT" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "MISSED " + r.stdout[-300:] + r.stderr[-300:]}')
        return f'ok ({why[:150]})  ' + '; '.join(caught)
    finally:
        shutil.rmtree(d)


def main():
    for s in runpy.run_path(sys.argv[1])['SEEDS']:
        if not sys.argv[2:] or s['id'] in sys.argv[2:]:
            print(s['id'], s['property'], one(s), flush=True)


main()
