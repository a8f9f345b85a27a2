"""random calls of every public function in interpreters started in other ways: -O, -OO, -X dev, -W error, -bb, isolated, other hash seeds, locales,
time zones and directories, from a zip archive, modules imported in any order, aggressive garbage collection, changed decimal and print
settings, no standard streams, in a thread, an event loop, an exception handler, under a tracer, near the recursion limit, with the system clock at other dates, on a machine, for a user and with environment variables (those the library is seen to look at) of another kind. Each outcome is compared bit for bit with the
default interpreter's; functions, and the errors raised for naive times, must survive pickling and copying."""
import copy
import datetime
import inspect
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import warnings
import zipfile
from .. import core
from ..calls import Caller
from ..child import Child
QUICK = 2
DRESS = None
FLOOR = 8000
W = ('-W', 'ignore')
CONFIGS = {
    'O': dict(flags=('-O', *W)), 'OO': dict(flags=('-OO', *W)), 'dev': dict(flags=('-X', 'dev', *W)), 'bb': dict(flags=('-bb', *W)),
    'warnings_are_errors': dict(flags=('-W', 'error'), opts={'warnings': 'error'}), 'isolated': dict(flags=('-I', *W)),
    'hash_seed': dict(env={'PYTHONHASHSEED': '4711'}), 'hash_seed_a': dict(hash=True), 'hash_seed_b': dict(hash=True), 'no_environment': dict(env={k: None for k in os.environ if not k.startswith('VERIF')}), 'c_locale': dict(env={'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}),
    'tz_kolkata': dict(env={'TZ': 'Asia/Kolkata'}), 'tz_lord_howe': dict(env={'TZ': 'Australia/Lord_Howe'}), 'tz_posix': dict(env={'TZ': 'ABC+13:37:21DEF'}),
    'directory': dict(cwd='/'), 'nowhere': dict(opts={'pre': ('nowhere', 'no_arguments')}), 'zip': dict(opts={'pre': ('path',)}), 'order_a': dict(order=True), 'order_b': dict(order=True), 'order_c': dict(order=True),
    'gc': dict(opts={'pre': ('gc',)}), 'gc_off': dict(opts={'pre': ('gc_off',)}), 'comma': dict(opts={'pre': ('comma',)}), 'settings': dict(opts={'pre': ('decimal', 'locale', 'printoptions', 'quiet_numpy', 'int_digits')}),
    'no_streams': dict(opts={'pre': ('no_streams',)}), 'deep': dict(opts={'how': 'deep'}), 'thread': dict(opts={'how': 'thread'}),
    'clock_1969': dict(clock=-86400 * 3), 'clock_2004': dict(clock=1078056000), 'clock_2026': dict(clock=1782863990), 'clock_2038': dict(clock=2147483640),
    'clock_2101': dict(clock=4133980800), 'clock_any': dict(clock=None), 'clock_end': dict(clock='end'), 'numpy_errors': dict(opts={'pre': ('numpy_errors',)}),
    'other_machine': dict(opts={'pre': ('other_machine',)}), 'loop': dict(opts={'how': 'loop'}), 'traced': dict(opts={'how': 'traced'}), 'nested': dict(opts={'how': 'nested'}),
}
REQUIRED = tuple('compared_' + n for n in CONFIGS) + ('environment_probed', 'pickled', 'errors_pickled', 'warning_free')
SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
static long long shift(void) {
    static long long d; static int known;
    if (!known) {
        int (*f)(clockid_t, struct timespec *) = dlsym(RTLD_NEXT, "clock_gettime");
        struct timespec t; f(CLOCK_REALTIME, &t);
        char *s = getenv("VERIF_CLOCK");
        d = s ? atoll(s) - (long long)t.tv_sec : 0; known = 1;
    }
    return d;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    int (*f)(clockid_t, struct timespec *) = dlsym(RTLD_NEXT, "clock_gettime");
    int r = f(c, t);
    if (!r && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += shift();
    return r;
}
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int gettimeofday(struct timeval *v, void *z) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }
'''


def shim(folder):
    """a library that moves the clock of a process"""
    src, so = os.path.join(folder, 'clock.c'), os.path.join(folder, 'clock.so')
    open(src, 'w').write(SHIM)
    for cc in ('gcc', 'clang', 'cc'):
        try:
            if subprocess.run([cc, '-shared', '-fPIC', '-O1', '-o', so, src, '-ldl'], capture_output=True).returncode == 0:
                return so
        except OSError:
            pass
    return None


def ask_clock(env):
    o = subprocess.run([sys.executable, '-c', 'import time, datetime; print(time.time()); datetime.datetime.now()'], env={**os.environ, **env}, capture_output=True, text=True)
    return float(o.stdout) if o.returncode == 0 else None


def archive(folder):
    path = os.path.join(folder, 'pysolar.zip')
    top = os.path.join(core.REPO, 'pysolar')
    with zipfile.ZipFile(path, 'w') as z:
        for d, dirs, files in os.walk(top):
            dirs[:] = [x for x in dirs if x != '__pycache__']
            for f in files:
                full = os.path.join(d, f)
                z.write(full, os.path.join('pysolar', os.path.relpath(full, top)))
    return path


def bare(v):
    return v.replace(tzinfo=None, fold=0) if isinstance(v, datetime.datetime) else v


def errors(ctx, call):
    """the error raised for a naive time, against the copies of it that pickle and copy make"""
    name, args, kw = call[0], tuple(bare(a) for a in call[1]), {k: bare(v) for k, v in call[2].items()}
    if not any(isinstance(a, datetime.datetime) for a in (*args, *kw.values())) or any(isinstance(a, datetime.datetime) and a.year >= 9999 for a in (*args, *kw.values())):
        return
    m, n = name.split('.')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            v = getattr(ctx.api[m], n)(*args, **kw)
            if hasattr(v, '__next__'):
                next(v, None)
        return
    except Exception as e:
        err = e
    if not type(err).__module__.startswith('pysolar'):
        return
    look = lambda e: (type(e), str(e), {k: repr(v) for k, v in sorted(vars(e).items())}, repr(e.args), isinstance(e, ValueError))
    want = look(err)
    ways = [(f'pickle protocol {p}', lambda p=p: pickle.loads(pickle.dumps(err, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)] + [('copy', lambda: copy.copy(err)), ('deepcopy', lambda: copy.deepcopy(err))]
    for way, f in ways:
        ctx.counters['errors_pickled'] += 1
        try:
            got = look(f())
        except Exception as e:
            got = e
        if got != want:
            ctx.violation('error_pickle', f'{type(err).__name__} raised by {name} does not survive {way}', [('numpy', name, args, kw)], want, got)
            return


def run(ctx):
    g, r = ctx.gen, ctx.rng
    maker = Caller(g, ctx.has)
    for m in core.MODULES:
        for n, f in vars(ctx.api[m]).items():
            if inspect.isfunction(f) and not n.startswith('_') and ctx.has(f'{m}.{n}') and f.__module__.startswith('pysolar'):
                ctx.counters['pickled'] += 1
                try:
                    same = pickle.loads(pickle.dumps(f)) is f
                except Exception as e:
                    same = e
                ctx.expect(same is True, 'pickle', f'{m}.{n} cannot be pickled', [('numpy', f'{m}.{n}', (), {})], 'the same function', same)
    tmp = tempfile.mkdtemp(prefix='verif-c35-')
    base = Child('numpy', core.VERIF, opts={'warnings': 'record', 'pre': ('spy',)})
    clock = shim(tmp)
    try:
        names = ctx.share(list(CONFIGS))
        for i in ctx.rounds(8 * ctx.nshards):
            batch = [maker.make() for _ in range(120)]
            batch += [maker.nudge(c) for c in batch[:20]]
            quiet = []
            for c in batch:
                o = ctx.call(*c[:1], *c[1], **c[2])
                if o.ok and hasattr(o.value, '__next__'):
                    quiet.append(False)
                else:
                    quiet.append(not o.warned)
            for c in batch:
                errors(ctx, c)
            *want, asked = base.ask(batch + [('?environ',)])
            ctx.counters['environment_probed'] += 1
            for var in asked:       # the variables the library has looked at, with values of their own
                for value in {None, '', '0', '1', 'math', 'numpy', 'yes', r.choice(('true', 'off', 'C', '-1', '3.7'))} - {os.environ.get(var)}:
                    child = Child('numpy', core.VERIF, env={var: value}, opts={'warnings': 'record'})
                    try:
                        got = child.ask(batch)
                    except RuntimeError as e:
                        got = [('ended', str(e))] * len(batch)
                    finally:
                        child.close()
                    ctx.counters['environment_varied'] += 1
                    for c, x, y in zip(batch, got, want):
                        ctx.expect(repr(x) == repr(y), 'outcome:environment', f'{c[0]} gives another outcome with {var}={value}', [('numpy', *c)], y, x)
            for name in names if i < 1 else [r.choice(list(CONFIGS))]:
                conf = dict(CONFIGS[name])
                opts = dict(conf.get('opts') or {})
                if conf.pop('order', False):
                    order = list(core.MODULES)
                    r.shuffle(order)
                    opts['order'] = order[:r.choice((1, len(order)))]
                if conf.pop('hash', False):
                    conf['env'] = {'PYTHONHASHSEED': str(r.randrange(1, 2**32 - 1))}
                if name == 'zip':
                    opts['root'] = archive(tmp)
                if opts.get('warnings') != 'error':
                    opts['warnings'] = 'record'
                conf['opts'] = opts
                if 'clock' in conf:
                    at = conf.pop('clock')
                    if at is None:
                        at = r.randrange(4102444800)
                    elif at == 'end':      # a minute before a month ends
                        at = int(datetime.datetime(r.randint(1971, 2099), r.randint(1, 12), 1, tzinfo=datetime.timezone.utc).timestamp()) - r.choice((30, 3600 * 5, 3600 * 20))
                    conf['env'] = {'LD_PRELOAD': clock, 'VERIF_CLOCK': str(at)}
                    now = ask_clock(conf['env'])
                    if now is None or not at <= now < at + 60:
                        raise RuntimeError(f'the clock could not be moved: {now}')
                child = Child('numpy', core.VERIF, **conf)
                try:
                    got = child.ask(batch)
                except RuntimeError as e:
                    ctx.violation('died', f'interpreter {name} ended: {e}', [('numpy', c[0], c[1], c[2]) for c in batch[:3]], 'outcomes', name)
                    continue
                finally:
                    child.close()
                ctx.counters['interpreters'] += 1
                for c, x, y, q in zip(batch, got, want, quiet):
                    if x[0] == 'noimport':
                        ctx.violation('import', f'pysolar cannot be imported ({name} {opts})', [('numpy', *c)], 'an import', x)
                        break
                    if name in ('warnings_are_errors', 'numpy_errors'):
                        if not q:
                            continue
                        ctx.counters['warning_free'] += 1
                    ctx.counters['compared_' + name] += 1
                    if name == 'warnings_are_errors':
                        y = y[:2] if y[0] == 'ok' else y
                    ctx.expect(repr(x) == repr(y), 'outcome:' + name, f'{c[0]} gives another outcome ({name} {opts})', [('numpy', *c)], y, x)
    finally:
        base.close()
        shutil.rmtree(tmp)
