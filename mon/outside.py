"""an interpreter that watches what pysolar does to the world around it: an audit hook sees every file, socket, process, thread, signal and
hook that is touched while the library runs, and snapshots of the state every program shares are compared around each call."""
import operator
import os
import pickle
import struct
import sys

SAFE = ('import', 'compile', 'exec', 'marshal.', 'code.__new__', 'object.__', 'builtins.id', 'sys._getframe', 'sys._current', 'function.__new__', 'type.__setattr__',
        'os.listdir', 'os.scandir', 'pickle.find_class', 'array.__new__', 'builtins.breakpoint', 'gc.', 'weakref', 'numpy', 'ctypes.addressof')
MODULES = ('math', 'cmath', 'time', 'datetime', '_datetime', 'calendar', 'warnings', 'random', 'functools', 'operator', 'os', 'os.path', 'io', 'locale', 'decimal', 'fractions', 'numbers',
           'itertools', 'collections', 'zoneinfo', 'logging', 'threading', 'numpy', 'builtins', 'types', 'inspect', 'string', 're', 'json', 'copy', 'pickle', 'statistics', 'bisect')


LIVELY = ('__warningregistry__', '_', 'onceregistry', 'filters', '_filters_version', '__pycache__')


def same(a, b):
    return a.keys() == b.keys() and all(map(operator.is_, a.values(), b.values()))


class Watch:
    def __init__(self, roots):
        import atexit
        import concurrent.futures.thread      # these register things of their own when first imported
        import importlib
        import logging.config
        import multiprocessing.util
        import weakref
        weakref.finalize(self, int)
        self.atexit = atexit
        self.mods = {m: importlib.import_module(m) for m in MODULES}
        self.roots = tuple(os.path.realpath(r) + os.sep for r in roots if r)
        self.on, self.seen = False, []
        import collections.abc
        import datetime
        import decimal
        import fractions
        import numbers
        import resource
        import asyncio
        import numpy
        import zoneinfo
        self.zone = zoneinfo.ZoneInfo('Europe/Paris')
        self.limits = sorted({getattr(resource, k) for k in dir(resource) if k.startswith('RLIMIT_')})
        self.kinds = (numbers.Number, numbers.Real, numbers.Integral, collections.abc.Sequence, collections.abc.Iterable, datetime.tzinfo, datetime.date)
        self.numbers = (1, 1.5, '1', decimal.Decimal(1), fractions.Fraction(1), numpy.float64(1), numpy.int32(1), numpy.zeros(2), datetime.datetime(2000, 1, 1), numpy.datetime64('2000-01-01'))
        self.n = 0
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        self.on = False
        try:
            self.n += 1
            if event == 'open':
                path, mode, flags = args
                write = bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)) or any(c in (mode or '') for c in 'wax+')
                if isinstance(path, int):
                    self.seen.append(f'opened file descriptor {path}')
                elif write or not os.path.realpath(os.fsdecode(path)).startswith(self.roots):
                    self.seen.append(f'opened {path!r} for {"writing" if write else "reading"}')
            elif not event.startswith(SAFE):
                self.seen.append(f'{event} {args!r}'[:300])
        finally:
            self.on = True

    def state(self):
        import asyncio
        import contextvars
        import copyreg
        import faulthandler
        import resource
        import tracemalloc
        import zoneinfo
        import decimal
        import gc
        import locale
        import logging
        import random
        import signal
        import socket
        import threading
        import time
        import warnings
        import numpy
        mask = os.umask(0o22)
        os.umask(mask)
        s = {
            'environ': tuple(sorted(os.environ.items())), 'cwd': os.getcwd(), 'umask': mask, 'descriptors': tuple(sorted(os.listdir('/proc/self/fd'))),
            'signal handlers': tuple(repr(signal.getsignal(k)) for k in sorted(signal.valid_signals())), 'timers': tuple((signal.getitimer(k)[0] > 0, signal.getitimer(k)[1]) for k in (0, 1, 2)),
            'blocked signals': tuple(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ()))), 'priority': os.getpriority(os.PRIO_PROCESS, 0), 'processors': tuple(sorted(os.sched_getaffinity(0))),
            'limits': tuple(resource.getrlimit(k) for k in self.limits), 'stack of threads': threading.stack_size(), 'faults and memory traced': (faulthandler.is_enabled(), tracemalloc.is_tracing()),
            'context variables': hash(frozenset((k, id(v)) for k, v in contextvars.copy_context().items())), 'event loops': id(asyncio.events._event_loop_policy), 'picklers': tuple(sorted((k.__qualname__, id(v)) for k, v in copyreg.dispatch_table.items())),
            'kinds of numbers': tuple(isinstance(x, k) for x in self.numbers for k in self.kinds), 'cached zones': id(zoneinfo.ZoneInfo('Europe/Paris')), 'numpy buffers': numpy.getbufsize(),
            'arguments': tuple(sys.argv),
            'locale': locale.setlocale(locale.LC_ALL), 'decimal context': repr(decimal.getcontext()), 'default decimal context': repr(decimal.DefaultContext),
            'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(), 'digits of integers': sys.get_int_max_str_digits(),
            'garbage collector': (gc.get_threshold(), gc.isenabled(), len(gc.callbacks), gc.get_debug(), gc.get_freeze_count()), 'sys.path': tuple(sys.path),
            'import system': (tuple(map(id, sys.meta_path)), tuple(map(id, sys.path_hooks)), sys.dont_write_bytecode, sys.pycache_prefix, id(__import__)),
            'hooks': tuple(map(id, (sys.excepthook, sys.displayhook, sys.unraisablehook, sys.breakpointhook, threading.excepthook, sys.stdin, sys.stdout, sys.stderr))),
            'tracing': (sys.gettrace(), sys.getprofile(), tuple(sys.monitoring.get_tool(k) for k in range(6)) if hasattr(sys, 'monitoring') else ()),
            'threads': tuple(sorted(t.name for t in threading.enumerate())), 'exit functions': self.atexit._ncallbacks(), 'time zone': (time.tzname, time.timezone, time.altzone),
            'warning filters': repr(warnings.filters), 'warning functions': (id(warnings.showwarning), id(warnings.formatwarning), id(warnings.warn)),
            'logging': (logging.root.level, tuple(map(id, logging.root.handlers)), logging.root.disabled, logging.root.manager.disable, id(logging.getLoggerClass()),
                        sorted(n for n, x in logging.root.manager.loggerDict.items() if getattr(x, 'handlers', None) and not n.startswith('pysolar'))),
            'socket timeout': socket.getdefaulttimeout(), 'numpy errors': (repr(numpy.geterr()), numpy.geterrcall()), 'numpy print options': repr(numpy.get_printoptions()),
            'random': hash(random.getstate()), 'numpy random': hash(numpy.random.get_state()[1].tobytes()),
            'float format': float.__getformat__('double'), 'standard streams': tuple((x.encoding, x.errors, x.line_buffering, x.closed) for x in (sys.stdout, sys.stderr)),
            'child processes': open(f'/proc/self/task/{os.getpid()}/children').read() if os.path.exists(f'/proc/self/task/{os.getpid()}/children') else '',
        }
        for m, mod in self.mods.items():
            s['module ' + m] = (sys.modules.get(m), vars(mod).copy())
        s['unloaded modules'] = tuple(m for m, x in self.loaded.items() if sys.modules.get(m) is not x) if hasattr(self, 'loaded') else ()
        return s

    def start(self):
        self.loaded = dict((m, x) for m, x in sys.modules.items() if m.split('.')[0] != 'pysolar')
        self.last = self.state()

    def around(self, f):
        """(f(), what it did to the world)"""
        import warnings
        self.seen = []
        self.on = True
        try:
            r = f()
        finally:
            self.on = False
        now = self.state()
        did = list(self.seen)
        for k, v in now.items():
            if k.startswith('module ') and v[0] is self.last[k][0] and same(v[1], self.last[k][1]):
                continue
            if k.startswith('module ') or v != self.last[k]:
                if k.startswith('module '):
                    a, b = self.last[k][1], v[1]
                    diff = sorted(n for n in set(a) | set(b) if a.get(n, a) is not b.get(n, b) and n not in LIVELY)
                    # a submodule bound in its package when it is first imported is no change
                    diff = [n for n in diff if n in a or sys.modules.get(f'{k[7:]}.{n}') is not b[n]]
                    if diff or self.last[k][0] is not v[0]:
                        did.append(f'changed {k}: {diff[:6]}')
                else:
                    did.append(f'changed {k}: {str(self.last[k])[:150]} -> {str(v)[:150]}')
        self.last = now
        return r, did


def habits(names):
    """a program that has arranged things its own way"""
    import decimal
    import gc
    import logging
    import random
    import signal
    import socket
    import threading
    import warnings
    import numpy
    for n in names:
        if n == 'gc_off':
            gc.disable()
        elif n == 'gc_often':
            gc.set_threshold(50, 3, 3)
        elif n == 'decimal':
            decimal.getcontext().prec = 7
            decimal.getcontext().traps[decimal.Inexact] = True
        elif n == 'frames':
            sys.setrecursionlimit(1700)
        elif n == 'numpy':
            numpy.seterr(divide='ignore', over='warn', invalid='ignore')
            numpy.set_printoptions(precision=3, suppress=True)
        elif n == 'numpy_raises':
            numpy.seterr(all='warn', under='ignore')
        elif n == 'filters':
            warnings.filterwarnings('ignore', category=DeprecationWarning)
            warnings.filterwarnings('always', message='x')
        elif n == 'logging':
            logging.basicConfig(level=logging.ERROR, stream=sys.stderr)
        elif n == 'random':
            random.seed(5)
            numpy.random.seed(5)
        elif n == 'signals':
            signal.signal(signal.SIGUSR1, lambda *a: None)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
        elif n == 'socket':
            socket.setdefaulttimeout(9)
        elif n == 'hooks':
            sys.excepthook = lambda *a: None
            sys.displayhook = lambda *a: None
            threading.excepthook = lambda *a: None
        elif n == 'umask':
            os.umask(0o77)
        elif n == 'digits':
            sys.set_int_max_str_digits(700)
        elif n == 'alarm':
            signal.signal(signal.SIGALRM, signal.SIG_IGN)
            signal.setitimer(signal.ITIMER_REAL, 3600, 1800)
        elif n == 'blocked':
            signal.pthread_sigmask(signal.SIG_BLOCK, {signal.SIGUSR2})
        elif n == 'switch':
            sys.setswitchinterval(.001)


def serve(mode, opts):
    import warnings
    out = os.fdopen(os.dup(1), 'wb')
    inp = os.fdopen(os.dup(0), 'rb')
    log = os.open(opts['log'], os.O_RDWR | os.O_CREAT | os.O_APPEND, 0o600)
    for k in (1, 2):
        os.dup2(log, k)
    null = os.open('/dev/null', os.O_RDONLY)
    os.dup2(null, 0)
    from mon import child, core
    import numpy
    import numpy.random
    import email, zipfile, zoneinfo      # noqa: used by importlib and numpy now and then
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pycache'
    sys.path.insert(0, core.REPO)
    import importlib
    import sysconfig
    importlib.invalidate_caches()
    w = Watch([core.REPO, sys.prefix, sys.base_prefix, sysconfig.get_paths()['stdlib'], os.path.dirname(os.path.dirname(numpy.__file__)), '/usr/share/zoneinfo', '/etc/localtime',
               '/nonexistent-pycache', core.VERIF])
    shown = []
    warnings.showwarning = lambda message, category, *a, **k: shown.append(category.__name__)
    warnings.simplefilter('always')
    habits(opts.get('habits', ()))
    w.start()
    report = []

    def printed():
        for s in (sys.stdout, sys.stderr):
            try:
                s.flush()
            except Exception as e:
                return f'{s} cannot be flushed: {e!r}'
        n = os.fstat(log).st_size
        got, seen[0] = n - seen[0], n
        return got
    seen = [0]
    opts_end = (lambda it: (lambda: sum(1 for _ in it)), lambda it: it.close)

    def quietly(f):
        try:
            return f()
        except Exception:
            return None
    for m in opts['order']:
        name = 'pysolar' + ('.' + m if m else '')
        try:
            _, did = w.around(lambda: importlib.import_module(name))
        except Exception as e:
            did = [f'import of {name} failed: {e!r}']
        if printed():
            did.append('printed')
        report += [(name, x) for x in did]
    ns = core.load()
    w.last = w.state()
    first = report
    while True:
        h = inp.read(8)
        if len(h) < 8:
            break
        calls = pickle.loads(inp.read(struct.unpack('>Q', h)[0]))
        w.last = w.state()      # unpickling may have imported something
        res = []
        for c in calls:
            path, args, kw, may_print = c
            if path.startswith('pysolar.use'):
                def f():
                    getattr(ns['pysolar'], path[8:])()
                    return ('ok', None)
            else:
                def f():
                    # as any program would: nothing is ignored, caught or recorded on its behalf
                    m, _, n = path.partition('.')
                    try:
                        v = getattr(ns[m], n)(*args, **kw)
                        return ('generator', v) if hasattr(v, '__next__') else ('ok', None)
                    except Exception as e:
                        return ('raised', type(e).__name__, str(e)[:200])
            shown.clear()
            r, did = w.around(f)
            if r[0] == 'generator':      # suspended after a row or two, then run to the end, closed or dropped
                it = r[1]
                for step in (lambda: next(it, None), lambda: next(it, None), opts_end[len(res) % 2](it)):
                    x, more = w.around(lambda: quietly(step))
                    did += [d + ' (by a span that is under way)' for d in more]
                r = it = x = step = None
                r = ('ok',)
            p = printed()
            if p and not may_print:
                did.append(f'printed {p} characters')
            res.append((r[0], did, bool(shown)))
        b = pickle.dumps((first, res, w.n))
        first = []
        out.write(struct.pack('>Q', len(b)) + b)
        out.flush()
