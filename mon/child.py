"""a pysolar of its own in another process, with a history of its own choosing.
Modes: 'numpy' (fresh import), 'nonumpy' (numpy cannot be imported), 'fresh' (every call in a fork of a process that
has imported pysolar and never called it; calls then start with the backend). One pickled batch of calls
in on stdin, one pickled list of outcomes out; the calls are executed one by one, in the given order."""
import os
import pickle
import struct
import subprocess
import sys
import warnings


def norm(v):
    """outcome as plain comparable data, with the concrete numeric type kept"""
    t = type(v).__name__
    if hasattr(v, '__next__'):
        v = list(v)
        t = 'generator'
    if isinstance(v, (list, tuple)):
        return (t, tuple(norm(x) for x in v))
    if isinstance(v, dict):
        return (t, tuple(sorted((k, norm(x)) for k, x in v.items())))
    if hasattr(v, 'isoformat'):
        return (t, v.isoformat(), v.fold)
    if isinstance(v, complex):
        return (t, (v.real, v.imag))
    if hasattr(v, 'tolist'):
        if getattr(v, 'ndim', 0):
            return (t, tuple(norm(x) for x in v.tolist()))
        return (t, v.tolist())
    return (t, v)


def told(seen):
    return sorted({(w.category.__name__, str(w.message)) for w in seen if not issubclass(w.category, RuntimeWarning)})


def run_one(ns, path, args, kw, action='ignore'):
    m, _, f = path.partition('.')
    if action == 'record':      # the warnings are part of the outcome, but for those of numpy's arithmetic
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter('always')
            try:
                o = ('ok', norm(getattr(ns[m], f)(*args, **kw)))
            except Exception as e:
                return ('raised', type(e).__name__, str(e)[:200])
        return o + (told(seen),)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter(action)
            return ('ok', norm(getattr(ns[m], f)(*args, **kw)))
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:200])


def numbers(o):
    """the numbers of a normalised outcome, in order; None if it is an error"""
    out = []

    def walk(x):
        if isinstance(x, (tuple, list)):
            if len(x) >= 2 and isinstance(x[0], str) and len(x) > 1 and x[0] in ('datetime',):
                out.append(x[1])
                return
            for y in x:
                walk(y)
        elif isinstance(x, (int, float)):
            out.append(x)
    if o[0] != 'ok':
        return None
    walk(o[1])
    return out


class Child:
    def __init__(self, mode, verif, flags=('-W', 'ignore'), env=None, opts=None, cwd=None, module='child'):
        self.p = subprocess.Popen([sys.executable, *flags, '-c',
                                   f'import sys; sys.path.insert(0, {verif!r}); from mon import {module}; {module}.serve({mode!r}, {opts!r})'],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env={k: v for k, v in {**os.environ, **(env or {})}.items() if v is not None}, cwd=cwd)

    def send(self, calls):
        b = pickle.dumps(calls)
        self.p.stdin.write(struct.pack('>Q', len(b)) + b)
        self.p.stdin.flush()

    def recv(self):
        h = self.p.stdout.read(8)
        if len(h) < 8:
            raise RuntimeError('child process ended')
        return pickle.loads(self.p.stdout.read(struct.unpack('>Q', h)[0]))

    def ask(self, calls):
        self.send(calls)
        return self.recv()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def forked(ns, c, action='ignore'):
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            if c[0] == 'math':
                ns['pysolar'].use_math()
            blob = pickle.dumps(run_one(ns, *c[1:], action=action))
        except BaseException as e:
            blob = pickle.dumps(('raised', type(e).__name__, str(e)[:200]))
        while blob:
            blob = blob[os.write(b, blob):]
        os._exit(0)
    os.close(b)
    with os.fdopen(a, 'rb') as f:
        blob = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(blob)


def deep(f, spare):
    """f() with so many frames left before the recursion limit"""
    n, fr = 0, sys._getframe()
    while fr:
        n, fr = n + 1, fr.f_back
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(n + spare)
    try:
        return f()
    finally:
        sys.setrecursionlimit(old)


def in_thread(f):
    import threading
    out = []
    t = threading.Thread(target=lambda: out.append(f()))
    t.start()
    t.join()
    return out[0]


def in_loop(f):
    import asyncio

    async def main():
        return f()
    return asyncio.run(main())


def traced(f):
    def tracer(*a):
        return tracer
    sys.settrace(tracer)
    sys.setprofile(lambda *a: None)
    try:
        return f()
    finally:
        sys.settrace(None)
        sys.setprofile(None)


def nested(f):
    """inside the handling of another exception"""
    try:
        raise KeyError('outer')
    except KeyError:
        return f()


HOW = {'deep': lambda f: deep(f, 100), 'thread': in_thread, 'loop': in_loop, 'traced': traced, 'nested': nested}


def prepare(opts):
    for what in opts.get('pre', ()):
        if what == 'gc':
            import gc
            gc.set_threshold(1, 1, 1)
        elif what == 'gc_off':
            import gc
            gc.disable()
        elif what == 'comma':      # a locale that writes numbers another way (few are installed)
            import locale
            real = locale.localeconv
            locale.localeconv = lambda: dict(real(), decimal_point=',', thousands_sep='.', grouping=[3, 0])
        elif what == 'decimal':
            import decimal
            decimal.getcontext().prec = 3
        elif what == 'locale':
            import locale
            for name in ('de_DE.UTF-8', 'C.UTF-8', 'C'):
                try:
                    locale.setlocale(locale.LC_ALL, name)
                    break
                except locale.Error:
                    pass
        elif what == 'printoptions':
            import numpy
            numpy.set_printoptions(precision=2, suppress=True)
        elif what == 'quiet_numpy':
            import numpy
            numpy.seterr(all='ignore')
        elif what == 'numpy_errors':
            import numpy
            numpy.seterr(divide='raise', over='raise', invalid='raise')
        elif what == 'no_streams':
            sys.stdout = sys.stderr = None
        elif what == 'path':
            from . import core
            core.REPO = opts['root']
        elif what == 'nowhere':      # the current directory has been removed
            import tempfile
            d = tempfile.mkdtemp(prefix='verif-c35-')
            os.chdir(d)
            os.rmdir(d)
        elif what == 'no_arguments':
            sys.argv = []
        elif what == 'spy':
            spy()
        elif what == 'other_machine':
            import getpass
            import platform
            import shutil
            import socket
            import numpy
            for where, n, v in ((os, 'cpu_count', 1), (os, 'getpid', 77), (os, 'getuid', 1007), (os, 'geteuid', 1007), (os, 'getlogin', 'somebody'), (getpass, 'getuser', 'somebody'),
                                (socket, 'gethostname', 'elsewhere'), (platform, 'system', 'Windows'), (platform, 'machine', 'ARM64'), (platform, 'node', 'elsewhere'),
                                (platform, 'python_implementation', 'PyPy'), (platform, 'python_version', '3.14.1'), (os, 'isatty', True), (shutil, 'get_terminal_size', os.terminal_size((20, 5)))):
                setattr(where, n, lambda *a, v=v, **k: v)
            sys.argv = ['another', 'program', '--math']
        elif what == 'int_digits':
            sys.set_int_max_str_digits(640)


ASKED = set()


def spy():
    """notes the environment variables that pysolar asks for"""
    from . import core
    home = os.path.join(core.REPO, 'pysolar') + os.sep
    real = os._Environ.__getitem__

    def asked(self, key):
        f = sys._getframe(1)
        while f and f.f_globals.get('__name__') in ('os', 'collections.abc', '_collections_abc'):
            f = f.f_back
        if f and f.f_code.co_filename.startswith(home):
            ASKED.add(key if isinstance(key, str) else os.fsdecode(key))
        return real(self, key)
    os._Environ.__getitem__ = asked


def load(opts):
    from . import core
    import importlib
    if opts.get('order'):
        core.sys.dont_write_bytecode = True
        sys.pycache_prefix = '/nonexistent-pycache'
        sys.path.insert(0, core.REPO)
        with warnings.catch_warnings():
            for m in opts['order']:
                importlib.import_module('pysolar.' + m)
    return core.load()


def serve(mode, opts=None):
    opts = opts or {}
    prepare(opts)
    how = HOW.get(opts.get('how'), lambda f: f())
    action = opts.get('warnings', 'ignore')
    sys.dont_write_bytecode = True
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    if mode == 'nonumpy':
        sys.modules['numpy'] = None
    from mon import core
    error = None
    try:
        ns = load(opts)
    except Exception as e:
        error = ('noimport', repr(e))
    while True:
        h = sys.stdin.buffer.read(8)
        if len(h) < 8:
            out.close()
            return
        calls = pickle.loads(sys.stdin.buffer.read(struct.unpack('>Q', h)[0]))
        res = []
        for c in calls:
            if c[0] == '?environ':
                res.append(sorted(ASKED))
                continue
            res.append(error or (forked(ns, c, action) if mode == 'fresh' else how(lambda: run_one(ns, *c, action=action))))
        b = pickle.dumps(res)
        out.write(struct.pack('>Q', len(b)) + b)
        out.flush()
