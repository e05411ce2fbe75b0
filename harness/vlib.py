"""Shared machinery: run TLC, encode reals, validate recorded logs, report.

The driver code only executes the library and records what it did; every
verdict is TLC's, evaluated by the modules in /verif/spec.
"""
import json
import math
import os
import random
import re
import shutil
import signal as _signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
REPO = os.environ.get('SPA_REPO', '/repo')
TLA = '/opt/veriftools/tla/tla2tools.jar:' \
      '/opt/veriftools/tla/CommunityModules-deps.jar'
SCALE = 10 ** 12
B = 10000


class Broken(Exception):
    """Machinery failure (never a verdict)."""


# ------------------------------------------------------------------ encoding
def fx(x):
    """A real as sign and base-10^4 digits of round(x * 10^12); NaN is [2]."""
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        return [2]
    # exact product: a double is an integer ratio
    n, d = x.as_integer_ratio()
    n *= SCALE
    v = (2 * n + d) // (2 * d)
    if v == 0:
        return [0]
    out = [1 if v > 0 else -1]
    v = abs(v)
    while v:
        v, r = divmod(v, B)
        out.append(r)
    return out


def fxa(a):
    """Nested (array) version of fx."""
    import numpy as np
    a = np.asarray(a)
    if np.iscomplexobj(a):
        raise TypeError('complex: use cx')
    if a.ndim == 0:
        return fx(a)
    return [fxa(v) for v in a] if a.ndim > 1 else [fx(v) for v in a.tolist()]


def cxa(a):
    """Complex array as nested [re, im] pairs."""
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        a = complex(a)
        return [fx(a.real), fx(a.imag)]
    return [cxa(v) for v in a]


def ints(a):
    """Nested plain ints; refuses anything that is not integral."""
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        v = a.item()
        if isinstance(v, bool):
            return int(v)
        if v != v or abs(v) >= 2 ** 31 or int(v) != v:
            return 'not-an-int:%r' % (v,)
        return int(v)
    return [ints(v) for v in a]


def shape(a):
    import numpy as np
    return [int(v) for v in np.shape(a)]


# ------------------------------------------------------------------ library
def import_spa():
    """Import spaudiopy from REPO's working tree, quietly."""
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    mpl = os.path.join(tempfile.gettempdir(), 'vmpl-%d' % os.getuid())
    os.makedirs(mpl, exist_ok=True)
    os.environ['MPLCONFIGDIR'] = mpl
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        import spaudiopy as spa
    here = os.path.realpath(os.path.dirname(os.path.dirname(spa.__file__)))
    if here != os.path.realpath(REPO):
        raise Broken('imported %s instead of %s' % (here, REPO))
    return spa


class CallTimeout(BaseException):
    pass


def call(fn, *a, limit=60, **k):
    """(result, '') or (None, exception class name); stdout is swallowed."""
    import io
    import contextlib

    def onalarm(*_):
        raise CallTimeout()
    old = _signal.signal(_signal.SIGALRM, onalarm)
    _signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                warnings.catch_warnings():
            warnings.simplefilter('ignore')
            import numpy as np
            with np.errstate(all='ignore'):
                return fn(*a, **k), ''
    except CallTimeout:
        return None, 'CallTimeout'
    except Exception as e:        # the verdict on it is TLC's
        if os.environ.get('VDEBUG'):
            traceback.print_exc()
        return None, type(e).__name__
    finally:
        _signal.alarm(0)
        _signal.signal(_signal.SIGALRM, old)


# ---------------------------------------------------------------------- TLC
def ensure_build():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'java', 'Fx.java')
    cls = os.path.join(BUILD, 'Fx.class')
    if not os.path.exists(cls) or \
            os.path.getmtime(cls) < os.path.getmtime(src):
        tmp = tempfile.mkdtemp(dir=BUILD)
        p = subprocess.run(['javac', '-cp', TLA, '-d', tmp, src],
                           capture_output=True, text=True)
        if p.returncode:
            raise Broken('javac: ' + p.stderr)
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(BUILD, f))
        os.rmdir(tmp)


class Tlc:
    """Result of one TLC run."""

    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, '
                       r'(\d+) distinct states found', out)
        self.generated, self.distinct = map(int, m[-1]) if m else (0, 0)
        self.ok = 'Model checking completed. No error has been found' in out
        self.violated = re.findall(
            r'(?:Invariant|Action property|Temporal properties?|property) '
            r'?(\S*) ?(?:is|was|were) violated', out)

    def prints(self, tag):
        """JSON payloads of PrintT("TAG json") lines."""
        r = []
        for m in re.finditer(r'^"%s (.*)"$' % tag, self.out, re.M):
            r.append(json.loads(json.loads('"%s"' % m.group(1))))
        return r


def tlc(module, cfg, env=None, workers=1, timeout=600, mem='3g', extra=(),
        xss='48m'):
    """Run TLC on spec/<module>.tla; cfg is the configuration text."""
    ensure_build()
    work = tempfile.mkdtemp(prefix='tlc.', dir=BUILD)
    try:
        cf = os.path.join(work, module + '.cfg')
        with open(cf, 'w') as f:
            f.write(cfg)
        cmd = ['java', '-Xss' + xss, '-Xmx' + mem]
        cmd += ['-XX:+UseSerialGC'] if workers == 1 else \
            ['-XX:+UseParallelGC', '-XX:ParallelGCThreads=4']
        if os.environ.get('VERIF_TIER') != 'thorough':
            cmd += ['-XX:TieredStopAtLevel=1']
        cmd += ['-Djava.io.tmpdir=' + work,
                '-cp', BUILD + ':' + TLA, 'tlc2.TLC', '-workers', str(workers),
                '-metadir', os.path.join(work, 'm'), '-noGenerateSpecTE',
                '-config', cf, *extra, os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ, **(env or {}))
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e,
                               timeout=timeout, cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise Broken('TLC timeout on %s' % module)
        return Tlc(p.stdout + p.stderr, p.returncode)
    finally:
        shutil.rmtree(work, ignore_errors=True)


TRACE_CFG = '''INIT TraceInit
NEXT TraceNext
CHECK_DEADLOCK FALSE
'''


def _validate_chunk(module, traces, timeout):
    """[(trace index, event number, clauses)], states, generated."""
    fails = []
    alive = list(range(len(traces)))
    states = gen = 0
    for _ in range(12):
        fd, path = tempfile.mkstemp(suffix='.json', dir=BUILD)
        with os.fdopen(fd, 'w') as f:
            json.dump([traces[i] for i in alive], f)
        try:
            r = tlc(module, TRACE_CFG, {'TRACE': path}, timeout=timeout)
        finally:
            os.unlink(path)
        want = sum(len(traces[i]) + 1 for i in alive)
        if r.ok and r.distinct == want:
            for t, l, bad in r.prints('FAIL'):
                fails.append((alive[t - 1], l, sorted(bad)))
            return fails, states + r.distinct, gen + r.generated
        # TLC could not evaluate some event: no behaviour explains it.
        m = re.findall(r'/\\ t = (\d+)', r.out)
        n = re.findall(r'/\\ l = (\d+)', r.out)
        soft = 'TLC threw an unexpected exception' in r.out or \
            'Error: ' in r.out
        if m and n and soft and 'OutOfMemory' not in r.out:
            t, l = int(m[-1]), int(n[-1])
            if os.environ.get('VDEBUG'):
                print(r.out[-3000:])
            fails.append((alive[t - 1], l, ['UnexplainedEvent']))
            alive = [a for k, a in enumerate(alive) if k != t - 1]
            states += r.distinct
            gen += r.generated
            if not alive:
                return fails, states, gen
            continue
        raise Broken('TLC on %s: %d of %d states\n%s'
                     % (module, r.distinct, want, r.out[-3000:]))
    return fails, states, gen


# ----------------------------------------------------------------- a check
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.fails = []            # (event dict, clauses, trace, l)
        self.samples = []
        self.kinds = {}
        self.modules = []
        self.notes = []
        self._spa = None
        self._tmp = None

    @property
    def spa(self):
        if self._spa is None:
            self._spa = import_spa()
        return self._spa

    @property
    def np(self):
        import numpy
        return numpy

    def nprng(self, salt=0):
        import numpy
        return numpy.random.RandomState(self.rng.randrange(2 ** 31) ^ salt)

    def n(self, quick, thorough=None):
        return quick if not self.thorough else \
            (thorough if thorough is not None else 8 * quick)

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='v' + self.pid)
        return self._tmp

    def spa_in(self, name):
        """Another copy of the library, with a data directory of its own."""
        import contextlib
        import importlib.util
        import io
        root = os.path.join(self.tmp, name)
        shutil.copytree(os.path.join(REPO, 'spaudiopy'),
                        os.path.join(root, 'spaudiopy'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        data = os.path.join(REPO, 'data')
        for d in ('Grids', 'HRIRs'):
            os.makedirs(os.path.join(root, 'data', d))
        for f in os.listdir(os.path.join(data, 'Grids')):
            if not f.startswith('maxDet'):
                os.symlink(os.path.join(data, 'Grids', f),
                           os.path.join(root, 'data', 'Grids', f))
        pkg = os.path.join(root, 'spaudiopy')
        spec = importlib.util.spec_from_file_location(
            'spa_' + name, os.path.join(pkg, '__init__.py'),
            submodule_search_locations=[pkg])
        mod = importlib.util.module_from_spec(spec)
        sys.modules['spa_' + name] = mod
        with contextlib.redirect_stdout(io.StringIO()):
            spec.loader.exec_module(mod)
        return mod, os.path.join(root, 'data')

    # model checking of the design
    def mc(self, module, cfg, expect=None, **k):
        """Exhaustive TLC run.  expect=None: must pass; otherwise the name of
        the invariant/property a deliberately wrong variant must violate."""
        k.setdefault('workers', 4)
        k.setdefault('timeout', 300)
        r = tlc(module, cfg, **k)
        if expect is None:
            if not r.ok:
                raise Broken('%s: design check failed\n%s'
                             % (module, r.out[-3000:]))
            self.states += r.distinct
            self.transitions += r.generated
        else:
            if r.ok or expect not in r.out:
                raise Broken('%s: wrong design not refuted (%s)\n%s'
                             % (module, expect, r.out[-2000:]))
        self.modules.append(module)
        return r

    def gen(self, module, cfg, tag='PROG', **k):
        """Programs printed by TLC while it enumerates spec behaviours."""
        k.setdefault('workers', 1)
        r = tlc(module, cfg, **k)
        if not r.ok and '-simulate' not in (k.get('extra') or ()):
            raise Broken('%s: generation failed\n%s' % (module,
                                                        r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        p = r.prints(tag)
        if not p:
            raise Broken('%s generated no program' % module)
        self.modules.append(module)
        return p

    # trace validation
    def validate(self, module, traces, jobs=None, timeout=800):
        traces = [t for t in traces if t]
        if not traces:
            raise Broken('no traces')
        sizes = [len(json.dumps(t)) for t in traces]
        total = sum(sizes)
        if jobs is None:
            jobs = max(1, min(8, len(traces), total // 60000 + 1))
        order = sorted(range(len(traces)), key=lambda i: -sizes[i])
        bins = [[] for _ in range(jobs)]
        load = [0] * jobs
        for i in order:
            j = load.index(min(load))
            bins[j].append(i)
            load[j] += sizes[i] + 2000
        bins = [sorted(b) for b in bins if b]
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda b: _validate_chunk(
                module, [traces[i] for i in b], timeout), bins))
        for b, (fails, st, gn) in zip(bins, res):
            self.states += st
            self.transitions += gn
            for k, l, bad in fails:
                t = traces[b[k]]
                self.fails.append((module, t[l - 1] if l <= len(t) else {},
                                   bad, t, l))
        self.traces += len(traces)
        for t in traces:
            self.events += len(t)
            for e in t:
                self.kinds[e.get('ev')] = self.kinds.get(e.get('ev'), 0) + 1
        self.modules.append(module)
        if len(self.samples) < 6:
            t = traces[self.rng.randrange(len(traces))]
            self.samples.append({'module': module, 'trace': [
                brief(e) for e in t[:3]], 'length': len(t)})

    # end
    def finish(self):
        known = load_known(self.pid)
        shown, new = set(), []
        for module, e, bad, t, l in self.fails:
            k = [kf for kf in known if kf['key'] == e.get('key') and
                 set(bad) <= set(kf['clauses'])]
            if k and e.get('key'):
                shown.add(k[0]['text'])
            else:
                new.append((module, e, bad, t, l))
        for s in sorted(shown):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, s))
        rc = 0
        for i, (module, e, bad, t, l) in enumerate(new[:5]):
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (self.pid, i + 1))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'module': module,
                           'seed': self.seed, 'tier': self.tier,
                           'violated_clauses': bad, 'event_number': l,
                           'event': decode(e), 'trace': t[:l]}, f)
            print('  %s event %d of %s: %s  %s' % (
                module, l, e.get('ev'), ','.join(bad),
                json.dumps(brief(e))[:400]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            rc = 1
        if len(new) > 5:
            print('  ... and %d more' % (len(new) - 5))
        self.evidence(len(new))
        print('%s %s: %d traces, %d events, %d states, %.1f s' % (
            self.pid, 'FAILED' if rc else 'ok', self.traces, self.events,
            self.states, time.time() - self.t0))
        self.cleanup()
        return rc

    def cleanup(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def evidence(self, violations):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': 'model_checking',
              'coverage': {
                  'states': self.states, 'transitions': self.transitions,
                  'traces_validated_against_impl': self.traces,
                  'events_validated': self.events,
                  'events_by_action': self.kinds,
                  'modules': sorted(set(self.modules)),
                  'samples': self.samples or ['none'],
                  'notes': self.notes},
              'assumptions': ASSUMPTIONS,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': violations}
        tmp = os.path.join(d, self.pid + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, self.pid + '.json'))


ASSUMPTIONS = [
    'numpy, scipy, soundfile, h5py and resampy behave as documented',
    'reals are compared after rounding to 12 decimals; double round-off '
    'below the stated tolerances is not a violation',
    'what the drivers do not execute is not decided']


def unfx(v):
    s = v[0]
    if s == 2:
        return float('nan')
    n = 0
    for d in reversed(v[1:]):
        n = n * B + d
    return s * n / SCALE


def _isfx(v):
    return isinstance(v, list) and v and all(
        isinstance(x, int) and not isinstance(x, bool) for x in v) and (
        v in ([0], [2]) or (len(v) > 1 and v[0] in (1, -1) and
                            all(0 <= x < B for x in v[1:]) and v[-1] != 0))


def decode(v, k=''):
    """Best-effort readable form of an event (replays only)."""
    if isinstance(v, dict):
        return {a: decode(b, a) for a, b in v.items()}
    if isinstance(v, list):
        if _isfx(v) and len(v) >= 4:
            return unfx(v)
        return [decode(x) for x in v]
    return v


def brief(e):
    out = {}
    for k, v in e.items():
        s = json.dumps(decode(v))
        out[k] = decode(v) if len(s) < 160 else s[:120] + '...'
    return out


KNOWN = os.path.join(VERIF, 'known_findings.txt')


def load_known(pid):
    """Lines 'known: property=<id> key=<key> clauses=<a,b> <text>'."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) clauses=(\S+) (.*)',
                         line.strip())
            if m and m.group(1) == pid:
                out.append({'key': m.group(2),
                            'clauses': m.group(3).split(','),
                            'text': m.group(4)})
    return out
