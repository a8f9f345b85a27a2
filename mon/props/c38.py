"""imports in any order, random calls of every public function, failing calls, spans consumed, backend switches and the demonstrations, in an interpreter with
an audit hook (files, sockets, processes, threads, signals, hooks) and with snapshots of everything programs share compared around each call; then the
exit of that interpreter. Anything touched, changed, printed or left behind is a violation."""
import os
import shutil
import signal
import subprocess
import tempfile
from .. import core
from ..calls import Caller, spoilt
from ..child import Child
from .c28 import BAD
QUICK = 2
DRESS = None
FLOOR = 3000
REQUIRED = ('imports_watched', 'calls_watched', 'failed_calls', 'calls_with_warnings', 'backend_switches', 'demonstrations', 'exits', 'audit_events')
HABITS = ('gc_off', 'gc_often', 'decimal', 'frames', 'numpy', 'numpy_raises', 'filters', 'logging', 'random', 'signals', 'socket', 'hooks', 'umask', 'digits', 'switch', 'alarm', 'blocked')
DEMOS = ('solar.solar_test', 'elevation.elevation_test')


def run(ctx):
    g, r = ctx.gen, ctx.rng
    maker = Caller(g, ctx.has)
    names = [n for n in maker.names]
    for i in ctx.rounds(3 * ctx.nshards):
        tmp = tempfile.mkdtemp(prefix='verif-c38-')
        order = list(core.MODULES)
        r.shuffle(order)
        order = order[:r.choice((0, 1, len(order)))] + ['']
        habits = r.sample(HABITS, r.choice((0, 3, 8)))
        log = os.path.join(tmp, 'log')
        home = os.path.join(tmp, 'home')
        os.mkdir(home)
        child = Child('numpy', core.VERIF, env={'HOME': home, 'TMPDIR': home, 'XDG_CACHE_HOME': home, 'XDG_CONFIG_HOME': home}, opts={'log': log, 'order': order, 'habits': habits}, cwd=home, module='outside')
        try:
            for batch in range(ctx.scale and 3):
                calls = [maker.make(n) for n in r.sample(names, len(names))] if batch == 0 else []
                calls += [maker.make() for _ in range(150)]
                calls += [maker.nudge(c) for c in calls[:60]]
                calls += [(n, a, {}) for n, a in BAD if ctx.has(n)]
                calls += [spoilt(c, r) for c in r.sample(calls, 40)]
                calls += [('pysolar.use_' + r.choice(('math', 'numpy')), (), {}) for _ in range(6)]
                calls += [(n, (), {}) for n in DEMOS if ctx.has(n)] if r.random() < .5 or not batch else []
                r.shuffle(calls)
                first, res, seen = child.ask([(*c, c[0] in DEMOS) for c in calls])
                if batch == 0:
                    ctx.counters['imports_watched'] += len(order)
                    ctx.judged(len(order))
                    for name, did in first:
                        ctx.violation('import', f'importing {name}: {did}', [('numpy', calls[0][0], calls[0][1], calls[0][2])], 'nothing outside the library', did)
                for c, (how, did, warned) in zip(calls, res):
                    ctx.counters['calls_watched'] += 1
                    ctx.counters['failed_calls'] += how == 'raised'
                    ctx.counters['calls_with_warnings'] += warned
                    ctx.counters['backend_switches'] += c[0].startswith('pysolar.')
                    ctx.counters['demonstrations'] += c[0] in DEMOS
                    ctx.distinct.add(hash((c[0], core.fingerprint(c[1]))))
                    ctx.fn_events[c[0]] += 1
                    ctx.expect(not did, 'outside', f'{c[0]} acted on the world outside: {"; ".join(did[:3])}', [('numpy', *c)], 'nothing', did)
            ctx.counters['audit_events'] += seen
            had = os.path.getsize(log)
            child.p.stdin.close()
            try:
                rc = child.p.wait(30)
            except subprocess.TimeoutExpired:
                rc = 'still running'
            ctx.counters['exits'] += 1
            ctx.expect(rc == 0 and os.path.getsize(log) == had, 'exit', 'the interpreter does not end quietly', [('numpy', *calls[-1])], 'status 0, no output',
                       (rc, open(log, errors='replace').read()[-500:]))
            ctx.expect(not os.listdir(home), 'files', 'files were left behind', [('numpy', *calls[-1])], [], os.listdir(home))
        except RuntimeError as e:
            ctx.violation('died', f'the interpreter ended: {e}', [('numpy', *c) for c in calls[:3]], 'outcomes', open(log, errors='replace').read()[-800:])
        finally:
            if child.p.poll() is None:
                child.p.send_signal(signal.SIGKILL)
            child.close()
            shutil.rmtree(tmp)
