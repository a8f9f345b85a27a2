"""Runtime monitoring core.

A check drives the real pysolar (imported from the working tree of /repo) with
a workload and watches its public boundary: every call goes through Ctx.call,
which records a call/return event; oracles (reference models, relations over
recorded events, trace specifications) judge the events.  See DESIGN.md.
"""
import ast
import base64
import collections
import datetime
import glob
import hashlib
import importlib
import json
import math
import os
import pickle
import random
import signal
import sys
import threading
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
MODULES = ('solar', 'solartime', 'radiation', 'util', 'elevation', 'simulate', 'rest',
           'numeric', 'constants', 'tzinfo_check')
HANG_CPU_S = 60.0
MAX_VIOLATIONS = 40


class Hang(BaseException):
    """one call burned HANG_CPU_S seconds of CPU (the slowest needs milliseconds)"""


class Stop(Exception):
    """enough violations seen in this shard"""


class Out:
    """outcome of a monitored call"""
    __slots__ = ('value', 'exc', 'event', 'warned')

    def __init__(self, value, exc, event, warned=()):
        self.value, self.exc, self.event, self.warned = value, exc, event, warned

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return f'raised {self.exc!r}' if self.exc is not None else f'returned {self.value!r}'


def purge():
    for k in [k for k in sys.modules if k == 'pysolar' or k.startswith('pysolar.')]:
        del sys.modules[k]


def load(fresh=False):
    """import pysolar and its modules from REPO's working tree, never from a cache"""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pycache'
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    if fresh:
        purge()
    importlib.invalidate_caches()
    pkg = importlib.import_module('pysolar')
    if not os.path.abspath(pkg.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError('pysolar came from ' + pkg.__file__)
    ns = {'pysolar': pkg}
    for m in MODULES:
        ns[m] = importlib.import_module('pysolar.' + m)
    return ns


def mine_constants():
    """numeric literals of the current source (outside big tables): workload seeds"""
    found, cmps = set(), set()
    for f in glob.glob(os.path.join(REPO, 'pysolar', '*.py')):
        try:
            tree = ast.parse(open(f, encoding='utf-8').read())
        except SyntaxError:
            continue

        def num(n):
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                v = num(n.operand)
                return None if v is None else -v
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                return n.value
            return None

        def visit(n, big):
            if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) > 4:
                big = True
            if isinstance(n, ast.List) and len(n.elts) and isinstance(n.elts[0], (ast.List, ast.Tuple)):
                big = True
            v = num(n)
            if v is not None and not big:
                found.add(v)
            if isinstance(n, (ast.Compare, ast.If, ast.IfExp)):
                for s in ast.walk(n if isinstance(n, ast.Compare) else n.test):
                    w = num(s)
                    if w is not None:
                        cmps.add(w)
            for c in ast.iter_child_nodes(n):
                visit(c, big)
        visit(tree, False)
    return sorted(found), sorted(cmps)


class Coverage:
    """lines of pysolar reached, through sys.monitoring (each location fires once)"""

    def __init__(self):
        self.lines = collections.defaultdict(set)
        self.on = False

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        root = os.path.join(os.path.abspath(REPO), 'pysolar') + os.sep
        try:
            mon.use_tool_id(3, 'verif-cov')
        except ValueError:
            return

        def line(code, lineno):
            fn = code.co_filename
            if fn.startswith(root):
                self.lines[fn[len(root):]].add(lineno)
            return mon.DISABLE
        mon.register_callback(3, mon.events.LINE, line)
        mon.set_events(3, mon.events.LINE)
        self.on = True

    def stop(self):
        if self.on:
            sys.monitoring.set_events(3, 0)
            sys.monitoring.register_callback(3, sys.monitoring.events.LINE, None)
            sys.monitoring.free_tool_id(3)
            self.on = False


def fingerprint(obj):
    """stable text of an argument tree"""
    import numpy as np
    if isinstance(obj, np.ndarray):
        return f'arr{obj.dtype}{obj.shape}{obj.tolist()!r}'
    if isinstance(obj, datetime.datetime):
        return f'{obj!r}'
    if isinstance(obj, (list, tuple)):
        return '(' + ','.join(fingerprint(o) for o in obj) + ')'
    if isinstance(obj, dict):
        return '{' + ','.join(f'{k}:{fingerprint(v)}' for k, v in sorted(obj.items())) + '}'
    return repr(obj)


def is_num(v):
    import numpy as np
    return isinstance(v, (int, float, np.floating, np.integer)) or (isinstance(v, np.ndarray) and v.shape == ())


class Stamp(datetime.datetime):
    """a subclass of datetime, as other libraries have them"""


def dressed(v, how, ints):
    """the same value in another type, as users have them"""
    import numpy as np
    if type(v) is float and how == 'all':
        return np.float64(v)
    if type(v) is int and ints and how == 'all' and abs(v) < 2 ** 31:
        return np.int64(v)
    if type(v) is datetime.datetime and v.tzinfo is not None:
        return Stamp(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, v.tzinfo, fold=v.fold)
    return v


def shares(r, argskw):
    import numpy as np
    return any(isinstance(v, np.ndarray) and np.shares_memory(r, v) for v in [*argskw[0], *argskw[1].values()])


def related(v, q, g, undo):
    """a value like this one, or this very container with something in it changed until undo is called"""
    if isinstance(v, datetime.datetime) and v.tzinfo is not None:
        z = q.random()
        day = datetime.timedelta(1)
        try:
            if z < .2:
                return v.replace(fold=1 - v.fold)
            if z < .4:
                return v.replace(tzinfo=q.choice(g.zones or [datetime.timezone.utc]))
            if z < .6:
                return v.astimezone(q.choice(g.zones or [datetime.timezone.utc]))
            if z < .65:
                return v.replace(tzinfo=None)
            if z < .75:
                return v.replace(microsecond=(v.microsecond + 1) % 1000000, second=v.second if q.random() < .5 else (v.second + 7) % 60)
            return v + q.choice((day / 24, day / 2, day, -day, 7 * day, 365 * day, -365 * day, 366 * day, 1461 * day, 31 * day))
        except (OverflowError, ValueError):
            return v
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if is_num(v) and getattr(v, 'shape', ()) == () and not hasattr(v, 'flags'):
        return q.choice((-v, v + 1, v - 1, v + 1e-7, round(float(v), 1) if v == v and abs(v) < 1e300 else v, 0, v * 2, None))
    if isinstance(v, list) and v and isinstance(v[0], (int, float)):
        i = q.randrange(len(v))
        old = list(v)
        v[i:] = [x + 100 for x in v[i:]]
        undo.append(lambda: v.__setitem__(slice(None), old))
    elif isinstance(v, dict) and v:
        old = dict(v)
        v[q.choice(sorted(v))] = .001
        undo.append(lambda: v.update(old))
    elif hasattr(v, 'dtype') and getattr(v, 'size', 0) and v.flags.writeable and v.dtype.kind in 'fi':
        old = v.copy()
        if v.ndim and q.random() < .5:
            v[tuple(q.randrange(n) for n in v.shape)] = 12
        else:
            v[...] = -v
        if q.random() < .3:      # an array like this one, not this one
            w = v.copy()
            v[...] = old
            return w
        undo.append(lambda: v.__setitem__(Ellipsis, old))
    return v


class Ctx:
    def __init__(self, prop, tier, seed, shard, nshards, rule=''):
        from .gen import Gen
        self.prop, self.tier, self.seed, self.shard, self.nshards = prop, tier, seed, shard, nshards
        self.rng = random.Random(f'{prop}:{seed}:{shard}')
        self.scale = 1 if tier == 'quick' else 100
        self.deadline = time.monotonic() + (100 if tier == 'quick' else 700)
        self.dress = 'all'      # one call in 25 gets some arguments as numpy scalars or instances of a datetime subclass
        self.dress_rng = random.Random(f'dress:{prop}:{seed}:{shard}')
        self.decoy_rng = random.Random(f'decoy:{prop}:{seed}:{shard}')      # one call in 20 follows one with related arguments
        self.api = load()
        self.mined = mine_constants()
        self.gen = Gen(self.rng, self.mined)
        self.backend_name = 'numpy'
        self.fn_events = collections.Counter()
        self.counters = collections.Counter()
        self.distinct = set()
        self.verdicts = 0
        self.samples = []
        self.violations = []
        self.known_seen = collections.OrderedDict()
        self.known_keys = load_findings().get(prop, {})
        self.maxima = {}
        self.truncated = False
        self.cov = Coverage()
        self.kept = None
        self._in_call = None
        self._sig = collections.Counter()
        self.keep_args = True

    # --- budget -------------------------------------------------------------
    def rounds(self, n):
        """n*scale workload rounds, divided over the shards, within the deadline"""
        total = max(1, int(n * self.scale / self.nshards))
        for i in range(total):
            if time.monotonic() > self.deadline:
                self.truncated = True
                self.counters['rounds_cut_by_deadline'] += total - i
                return
            yield i

    def share(self, items):
        """this shard's part of a list every shard knows"""
        return [x for i, x in enumerate(items) if i % self.nshards == self.shard]

    # --- the monitored boundary ----------------------------------------------
    def backend(self, name):
        if name != self.backend_name:
            (self.api['pysolar'].use_math if name == 'math' else self.api['pysolar'].use_numpy)()
            self.backend_name = name
        return name

    def resolve(self, path):
        mod, _, name = path.partition('.')
        return getattr(self.api[mod], name)

    def has(self, path):
        mod, _, name = path.partition('.')
        return hasattr(self.api[mod], name)

    def call(self, path, *args, **kw):
        if self.dress and self.dress_rng.random() < .04:
            q, how = self.dress_rng, self.dress
            ints = path.startswith(('solar.', 'util.', 'radiation.'))
            a, k = tuple(dressed(v, how, ints) if q.random() < .6 else v for v in args), {n: dressed(v, how, ints) if q.random() < .6 else v for n, v in kw.items()}
            if any(x is not y for x, y in zip(a, args)) or any(k[n] is not kw[n] for n in kw):
                args, kw = a, k
                self.counters['calls_with_other_types'] += 1
        event = (self.backend_name, path, args, kw)
        self.fn_events[path] += 1
        if len(self.distinct) < 400000:      # counted up to here per shard
            self.distinct.add(hash((path, fingerprint(args), fingerprint(kw), self.backend_name)))
        if len(self.samples) < 3 or (len(self.samples) < 12 and self.rng_sample(path)):
            self.samples.append({'call': path, 'backend': self.backend_name,
                                 'args': fingerprint(args)[:400], 'kwargs': fingerprint(kw)[:300]})
        try:
            f = self.resolve(path)
        except AttributeError as e:
            return Out(None, e, event)
        if self.dress and self.decoy_rng.random() < .05:
            self.decoy(f, args, kw)
        self._in_call = time.process_time()
        caught = ()
        try:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter('always')
                r = f(*args, **kw)
                if self.kept is not None or self.dress and getattr(r, 'ndim', 0):
                    self.keep(r, args, kw, event)
                return Out(r, None, event, caught)
        except Hang as e:
            self.violation('terminates', f'{path} used over {HANG_CPU_S:.0f} s of CPU without returning', [event],
                           'a result', 'no return')
            raise Stop() from e
        except Exception as e:
            return Out(None, e, event, caught)
        finally:
            self._in_call = None

    def keep(self, r, args, kw, event):
        """arrays handed out keep their values while others are handed out"""
        import numpy as np
        if self.kept is not None:
            old, was, ev, n = self.kept
            if old is r or not np.array_equal(old, was, equal_nan=old.dtype.kind == 'f'):
                self.kept = None
                self.violation('result_kept', f'the array returned by {ev[1]} changes when another result is computed', [ev, event], was, old)
            elif n > 3:
                self.kept = None
            else:
                self.kept = old, was, ev, n + 1
        elif isinstance(r, np.ndarray) and r.ndim and 0 < r.size < 5000 and self.decoy_rng.random() < .2 and not shares(r, (args, kw)):
            self.kept = r, r.copy(), event, 0
            self.counters['results_kept'] += 1

    def decoy(self, f, args, kw):
        """a call with related arguments beforehand: what it leaves behind must not show in the call that is judged"""
        q = self.decoy_rng
        a, k = list(args), dict(kw)
        slots = [(a, i) for i in range(len(a))] + [(k, n) for n in k]
        undo = []
        for c, i in q.sample(slots, min(len(slots), q.choice((1, 1, 2)))):
            c[i] = related(c[i], q, self.gen, undo)
        self.counters['decoy_calls'] += 1
        self._in_call = time.process_time()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = f(*a, **k)
                if hasattr(r, '__next__'):
                    for _ in range(q.choice((0, 1, 2))):
                        next(r, None)
                elif isinstance(r, dict) and all(isinstance(v, float) for v in r.values()):      # what callers do to results is theirs
                    r.update((n, 1e9) for n in r)
                elif type(r).__name__ == 'ndarray' and r.dtype.kind == 'f' and r.flags.writeable and not shares(r, (args, kw)):
                    r[...] = 1e9
        except Exception:
            pass
        finally:
            self._in_call = None
            for put in undo:
                put()

    def rng_sample(self, path):
        return not any(s['call'] == path for s in self.samples)

    # --- verdicts -------------------------------------------------------------
    def judged(self, n=1):
        self.verdicts += n

    def note_max(self, name, v):
        if v == v and v > self.maxima.get(name, -math.inf):
            self.maxima[name] = float(v)

    def violation(self, kind, what, events, expected=None, observed=None):
        sig = (kind, events[0][1] if events else '')
        self._sig[sig] += 1
        self.counters['violations_raw'] += 1
        if self._sig[sig] <= 2:
            self.violations.append({
                'property': self.prop, 'kind': kind, 'what': what,
                'expected': repr(expected)[:2000], 'observed': repr(observed)[:2000],
                'seed': self.seed, 'tier': self.tier, 'shard': self.shard,
                'events': [pack_event(e) for e in events[:8]]})
        if self.counters['violations_raw'] >= 200 or len(self.violations) >= MAX_VIOLATIONS:
            raise Stop()

    def known(self, key, what, events, expected=None, observed=None):
        """a deviation explained exactly by the mechanism of a listed finding"""
        if key not in self.known_keys:
            self.violation(key, what + ' (mechanism not listed in KNOWN_FINDINGS.txt)', events, expected, observed)
            return
        self.known_seen[key] = self.known_seen.get(key, 0) + 1

    def near(self, out, expected, tol, kind, alt=None, rel=0.0, what=None):
        """out (Out or number) equals expected within tol; alt maps finding keys to
        the value their mechanism produces"""
        self.verdicts += 1
        if isinstance(out, Out):
            ev = [out.event]
            if out.exc is not None:
                self.violation(kind + ':raised', f'{out.event[1]} raised {out.exc!r}', ev, expected, repr(out.exc))
                return False
            v = out.value
        else:
            v, ev = out, []
        try:
            v = float(v)
        except (TypeError, ValueError):
            self.violation(kind + ':type', f'{ev[0][1] if ev else kind} returned {out!r}, not a number', ev, expected, out)
            return False
        lim = tol + rel * abs(expected)
        d = abs(v - expected)
        if d <= lim or v == expected:
            self.note_max('max_err:' + kind, d)
            return True
        for key, w in (alt or {}).items():
            if abs(v - w) <= tol + rel * abs(w):
                self.known(key, what or kind, ev, expected, v)
                return True
        self.violation(kind, what or f'{ev[0][1] if ev else kind}: off by {d:.3g} (allowed {lim:.3g})', ev, expected, v)
        return False

    def near_deg(self, out, expected, tol, kind, alt=None, weight=1.0, span=True):
        """as near(), on the circle of degrees; span: the value must lie in [0, 360]"""
        self.verdicts += 1
        ev = [out.event]
        if out.exc is not None:
            self.violation(kind + ':raised', f'{out.event[1]} raised {out.exc!r}', ev, expected, repr(out.exc))
            return False
        try:
            v = float(out.value)
        except (TypeError, ValueError):
            self.violation(kind + ':type', f'{ev[0][1]} returned {out!r}, not a number', ev, expected, out)
            return False
        if span and not 0 <= v <= 360:
            self.violation(kind + ':range', f'{ev[0][1]} outside 0..360', ev, expected, v)
            return False
        d = abs((v - expected + 180) % 360 - 180) * weight if v == v else math.nan
        if d <= tol:
            self.note_max('max_err:' + kind, d)
            return True
        for key, w in (alt or {}).items():
            if abs((v - w + 180) % 360 - 180) * weight <= tol:
                self.known(key, kind, ev, expected, v)
                return True
        self.violation(kind, f'{ev[0][1]}: off by {d:.3g} (allowed {tol:.3g})', ev, expected, v)
        return False

    def expect(self, cond, kind, what, events, expected=None, observed=None):
        self.verdicts += 1
        if not cond:
            self.violation(kind, what, events, expected, observed)
        return bool(cond)

    # --- result ---------------------------------------------------------------
    def result(self):
        return {k: getattr(self, k) for k in
                ('fn_events', 'counters', 'distinct', 'verdicts', 'samples', 'violations', 'known_seen', 'maxima',
                 'truncated')} | {'cov': {k: sorted(v) for k, v in self.cov.lines.items()}}


def pack_event(e):
    backend, path, args, kw = e
    try:
        blob = base64.b64encode(pickle.dumps((args, kw))).decode()
    except Exception:
        blob = None
    return {'backend': backend, 'call': path, 'args': fingerprint(args)[:4000], 'kwargs': fingerprint(kw)[:2000],
            'pickle': blob}


def load_findings():
    """KNOWN_FINDINGS.txt: 'finding: property=<id> key=<key> <text>' lines suppress exactly
    the mechanism <key>; 'fixed: ...' lines suppress nothing"""
    out = collections.defaultdict(dict)
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS, encoding='utf-8'):
            if line.startswith('finding: '):
                p = line.split(None, 3)
                out[p[1].split('=', 1)[1]][p[2].split('=', 1)[1]] = p[3].strip()
    return out


def run_shard(module, prop, tier, seed, shard, nshards):
    ctx = Ctx(prop, tier, seed, shard, nshards)
    ctx.dress = getattr(module, 'DRESS', 'all')
    if tier == 'quick':
        ctx.scale = getattr(module, 'QUICK', 8)      # modules that are slow say less

    def tick(signum, frame):
        if ctx._in_call is not None and time.process_time() - ctx._in_call > HANG_CPU_S \
                and threading.current_thread() is threading.main_thread():
            ctx._in_call = None
            raise Hang()
    signal.signal(signal.SIGVTALRM, tick)
    signal.setitimer(signal.ITIMER_VIRTUAL, 5, 5)
    ctx.cov.start()
    try:
        module.run(ctx)
    except Stop:
        ctx.counters['stopped_early'] += 1
    finally:
        ctx.cov.stop()
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return ctx.result()


def executable_lines():
    """line numbers of function bodies per pysolar file"""
    res = {}
    for f in glob.glob(os.path.join(REPO, 'pysolar', '*.py')):
        lines = set()

        def walk(code, top):
            if not top:
                lines.update(l for _, _, l in code.co_lines() if l and l != code.co_firstlineno)
            for c in code.co_consts:
                if hasattr(c, 'co_lines'):
                    walk(c, False)
        try:
            walk(compile(open(f, encoding='utf-8').read(), f, 'exec'), True)
        except SyntaxError:
            continue
        res[os.path.basename(f)] = lines
    return res


def merge(parts):
    tot = {'fn_events': collections.Counter(), 'counters': collections.Counter(), 'distinct': set(), 'verdicts': 0,
           'samples': [], 'violations': [], 'known_seen': collections.Counter(), 'maxima': {}, 'truncated': False,
           'cov': collections.defaultdict(set)}
    for p in parts:
        tot['fn_events'].update(p['fn_events'])
        tot['counters'].update(p['counters'])
        tot['distinct'] |= p['distinct']
        tot['verdicts'] += p['verdicts']
        tot['samples'] += p['samples'][:4]
        tot['violations'] += p['violations']
        tot['known_seen'].update(p['known_seen'])
        tot['truncated'] |= p['truncated']
        for k, v in p['maxima'].items():
            tot['maxima'][k] = max(v, tot['maxima'].get(k, v))
        for k, v in p['cov'].items():
            tot['cov'][k] |= set(v)
    return tot
