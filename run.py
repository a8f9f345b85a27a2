#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--seed N] [--shard I]   run one check
run.py --replay FILE     re-execute the calls of a recorded violation
run.py --list | --selftest

exit 0 held on everything observed; 1 VIOLATION; 2 inconclusive; 3 harness error"""
import argparse
import base64
import datetime
import importlib
import json
import multiprocessing
import os
import pickle
import sys
import time
import traceback

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from mon import core  # noqa: E402


def worker(conn, modname, prop, tier, seed, shard, n):
    try:
        module = importlib.import_module(modname)
        conn.send(('ok', core.run_shard(module, prop, tier, seed, shard, n)))
    except BaseException:
        conn.send(('error', traceback.format_exc()))
    conn.close()


def run_check(prop, tier, seed, only=None):
    t0 = time.monotonic()
    modname = 'mon.props.' + prop.lower()
    module = importlib.import_module(modname)
    n = getattr(module, 'SHARDS', 8)
    ctxm = multiprocessing.get_context('fork')
    core.load()
    procs = []
    for s in ([only] if only is not None else range(n)):
        a, b = ctxm.Pipe(False)
        p = ctxm.Process(target=worker, args=(b, modname, prop, tier, seed, s, n))
        p.start()
        b.close()
        procs.append((s, p, a))
    cap = t0 + (600 if tier == 'quick' else 880)
    parts, errors, stuck = [], [], []
    for s, p, a in procs:
        if a.poll(max(0.1, cap - time.monotonic())):
            try:
                kind, val = a.recv()
                (parts if kind == 'ok' else errors).append(val)
            except EOFError:
                errors.append(f'shard {s} died')
        else:
            stuck.append(s)
        if s in stuck:
            p.kill()
        p.join(20)
    res = core.merge(parts)
    floor = getattr(module, 'MIN_VERDICTS', {}).get(tier, getattr(module, 'FLOOR', 200))
    if only is not None:
        floor = 0
    known = core.load_findings().get(prop, {})
    execl = core.executable_lines()
    reached = {}
    for f, lines in sorted(res['cov'].items()):
        if execl.get(f):
            k = len(lines & execl[f])
            if k:
                reached[f] = f'{k} of {len(execl[f])} function-body lines'
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': res['verdicts'],
            'distinct_nontrivial': len(res['distinct']),
            'rule': 'evaluations: oracle verdicts on observed events. distinct_nontrivial: distinct monitored '
                    '(function, arguments, backend) call events. Workload: ' + ' '.join((module.__doc__ or '').split()),
            'samples': res['samples'][:16],
            'events_per_function': dict(sorted(res['fn_events'].items())),
            'observed': dict(sorted(res['counters'].items())),
            'largest_error_seen': {k: float(f'{v:.4g}') for k, v in sorted(res['maxima'].items())},
            'pysolar_lines_reached': reached,
            'known_findings_observed': dict(res['known_seen']),
            'shards': len(parts), 'cut_by_deadline': res['truncated'],
        },
        'assumptions': ['holds on the executions observed only (runtime monitoring)'] + list(getattr(module, 'ASSUMES', [])),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(res['violations']),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
    print(f'{prop} {tier} seed={seed}: {res["verdicts"]} verdicts over {sum(res["fn_events"].values())} events, '
          f'{len(res["distinct"])} distinct, {evidence["wall_s"]} s')
    for key, text in known.items():
        if res['known_seen'].get(key):
            print(f'KNOWN-FINDING: property={prop} {key}: {text} [seen {res["known_seen"][key]} times]')
        else:
            print(f'note: listed finding {key} was not observed in this run')
    if res['violations']:
        rd = os.path.join(HERE, 'replays')
        os.makedirs(rd, exist_ok=True)
        shown = set()
        for i, v in enumerate(res['violations']):
            sig = (v['kind'], v['events'][0]['call'] if v['events'] else '')
            if sig in shown or len(shown) >= 40:
                continue
            shown.add(sig)
            path = os.path.join(rd, f'{prop}-{tier}-{seed}-{len(shown)}.json')
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print(f'VIOLATION property={prop} replay={path}')
            print(f'  {v["kind"]}: {v["what"]}\n    expected {v["expected"][:300]}\n    observed {v["observed"][:300]}')
            for e in v['events'][:3]:
                print(f'    {e["call"]}{e["args"][:300]} {e["kwargs"][:200]} [{e["backend"]}]')
        return 1
    if errors:
        print('HARNESS ERROR\n' + errors[0])
        return 3
    if stuck:
        print(f'INCONCLUSIVE: shards {stuck} hit the wall-clock watchdog')
        return 2
    if res['verdicts'] < floor:
        print(f'INCONCLUSIVE: {res["verdicts"]} verdicts, fewer than {floor}')
        return 2
    need = getattr(module, 'REQUIRED', ())
    missing = [c for c in need if not res['counters'].get(c)]
    if missing and only is None:
        print(f'INCONCLUSIVE: never observed {missing}')
        return 2
    print(f'{prop} held on everything observed')
    return 0


def replay(path):
    v = json.load(open(path))
    print(json.dumps({k: v[k] for k in ('property', 'kind', 'what', 'expected', 'observed')}, indent=1))
    ns = core.load()
    for e in v['events']:
        if e['call'].split('.')[0] not in ns or not e.get('pickle'):
            print('-- not replayable as a single call:', e['call'], e['args'])
            continue
        args, kw = pickle.loads(base64.b64decode(e['pickle']))
        (ns['pysolar'].use_math if e['backend'] == 'math' else ns['pysolar'].use_numpy)()
        m, _, f = e['call'].partition('.')
        try:
            r = getattr(ns[m], f)(*args, **kw)
            if hasattr(r, '__next__'):
                r = list(r)[:50]
        except Exception as x:
            r = x
        print(f'-- {e["call"]}{e["args"]} {e["kwargs"]} [{e["backend"]}]\n   -> {r!r}')
    print(f'rerun of the same shard: run.py {v["property"]} --tier {v["tier"]} --seed {v["seed"]} --shard {v["shard"]}')


def props():
    return sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'mon', 'props')) if f[:1] == 'c' and f.endswith('.py'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--shard', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.list:
        print('\n'.join(props()))
        return 0
    if a.selftest:
        core.load()
        for p in props():
            importlib.import_module('mon.props.' + p.lower())
        print('ok:', len(props()), 'checks import;', 'pysolar from', core.REPO)
        return 0
    if a.replay:
        replay(a.replay)
        return 0
    if not a.prop:
        ap.error('property id expected')
    try:
        return run_check(a.prop.upper(), a.tier if a.tier in ('quick', 'thorough') else 'quick', a.seed, a.shard)
    except Exception:
        traceback.print_exc()
        print('HARNESS ERROR')
        return 3


if __name__ == '__main__':
    sys.exit(main())
