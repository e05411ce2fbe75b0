"""C26: calls depend on their arguments only."""
import hashlib
import io
import multiprocessing
import os
import random
import sys
import warnings

import numpy as np

from registry import REG

MC = '''INIT Init
NEXT Next
CONSTANTS
  Memo = "%s"
  Rand = "%s"
  Glob = "%s"
  MaxLen = %d
  Gen = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
'''
ALL = 'Repeatable ResultsKept GlobalKept'
SPA = None
REF = {}


def walk(o, seen=None, deep=0):
    """Leaves of a value: arrays, numbers, strings."""
    seen = set() if seen is None else seen
    if isinstance(o, np.ndarray) and o.dtype != object:
        yield o
    elif o is None or isinstance(o, (bool, int, float, complex, str, bytes,
                                     np.generic)):
        yield o
    elif id(o) in seen or deep > 6:
        return
    elif isinstance(o, dict):
        seen.add(id(o))
        for k in sorted(o, key=str):
            yield str(k)
            yield from walk(o[k], seen, deep + 1)
    elif isinstance(o, (list, tuple)) or isinstance(o, np.ndarray):
        seen.add(id(o))
        for v in o:
            yield from walk(v, seen, deep + 1)
    elif type(o).__name__ == 'LoudspeakerSetup':
        seen.add(id(o))
        for k in ('points', 'simplices', 'valid_simplices', 'x', 'y', 'z',
                  'd', 'listener_position'):
            yield from walk(getattr(o, k, None), seen, deep + 1)
    elif hasattr(o, '__dict__') and not callable(o):
        seen.add(id(o))
        yield from walk(vars(o), seen, deep + 1)
    elif hasattr(o, 'simplices') and hasattr(o, 'points'):
        yield o.points
        yield o.simplices


def digest(o):
    h = hashlib.sha1()
    for v in walk(o):
        if isinstance(v, np.ndarray):
            h.update(repr((v.dtype.str, v.shape)).encode())
            h.update(np.ascontiguousarray(v).tobytes())
        else:
            h.update(repr(v).encode())
    return h.hexdigest()[:12]


def leaves(o):
    return [np.array(v) for v in walk(o)]


def close(a, b, tol=1e-9):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False
        if x.dtype.kind in 'fc' or tol > 1e-6 and x.dtype.kind in 'iu':
            if y.dtype.kind not in ('fc' if tol < 1e-6 else 'fciu'):
                return False
            s = np.max(np.abs(x[np.isfinite(x)]), initial=0)
            if not np.allclose(x, y, rtol=tol, atol=tol / 10 * s,
                               equal_nan=True):
                return False
        elif not np.array_equal(x, y):
            return False
    return True


def scribble(o, seen=None):
    """Overwrite everything in reach of a result."""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray) and o.dtype != object:
        if o.flags.writeable and o.size:
            o[...] = False if o.dtype.kind == 'b' else 3 \
                if o.dtype.kind in 'iu' else -7.25 \
                if o.dtype.kind in 'fc' else o
    elif isinstance(o, list):
        for v in o:
            scribble(v, seen)
        o.append(0.)
    elif isinstance(o, tuple):
        for v in o:
            scribble(v, seen)
    elif isinstance(o, dict):
        for v in o.values():
            scribble(v, seen)
    elif hasattr(o, '__dict__') and not callable(o):
        for k in vars(o):
            if not (k.startswith('_') and isinstance(vars(o)[k], list)):
                scribble(vars(o)[k], seen)


def glob():
    s = np.random.get_state()
    import matplotlib
    return digest([s[1], s[2], sorted(np.geterr().items()),
                   sorted(str(v) for v in np.get_printoptions().items()),
                   os.getcwd(), len(warnings.filters),
                   sorted((k, str(v)) for k, v in
                          matplotlib.rcParams.items()),
                   sorted(os.environ.items()), np.array([1 / 3]).__str__()])


def quiet():
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    os.environ['OMP_NUM_THREADS'] = '1'
    sys.stdout = io.StringIO()


FORMS = ('plain', 'strided', 'readonly', 'columns', 'list', 'integers',
         'tuple', 'backwards', 'swapped', 'single')
KINDS = {'integers': 'whole', 'single': 'rounded'}
TOLS = {'integers': 1e-4, 'single': 1e-3}
SKIP = {('utils.angle_between', 'single')}      # of equal vectors: ill posed
NDARRAYS = ('sph.rotate_sh', 'utils.area_triangle')   # not array_like


def recast(o, form):
    """The same argument, held otherwise."""
    if isinstance(o, np.ndarray) and o.dtype.kind in 'fciu':
        if form in ('whole', 'integers') and o.dtype.kind == 'f':
            o = np.rint(3 * o)
            return o.astype(int) if form == 'integers' else o
        if form == 'strided':
            b = np.full([2 * n for n in o.shape], 77, o.dtype)
            b = b[tuple(slice(None, None, 2) for _ in o.shape)]
            b[...] = o
            return b
        if form == 'backwards':
            b = np.ascontiguousarray(o[(slice(None, None, -1),) * o.ndim])
            return b[(slice(None, None, -1),) * o.ndim]
        if form == 'swapped':
            return o.astype(o.dtype.newbyteorder('S'))
        if form in ('single', 'rounded') and o.dtype.kind in 'fc':
            w = o.astype('f4' if o.dtype.kind == 'f' else 'c8')
            return w if form == 'single' else w.astype(o.dtype)
        if form == 'columns':
            return np.asfortranarray(o)
        if form == 'readonly':
            o = o.copy()
            o.setflags(write=False)
            return o
        if form == 'list':
            return o.tolist() if o.ndim == 1 else o
        if form == 'tuple':
            return tuple(o.tolist()) if o.ndim == 1 else o
    return o


def one(name, v, form='plain'):
    fn, a, k = REG[name](SPA, v)
    a = tuple(recast(o, form) for o in a)
    k = {q: recast(o, form) for q, o in k.items()}
    before = digest([a, k]), glob()
    try:
        out, exc = fn(*a, **k), ''
    except Exception as e:
        out, exc = None, type(e).__name__
    return out, exc, digest([a, k]) == before[0], (before[1], glob())


def reference(job):
    """A call in a process of its own (maxtasksperchild=1)."""
    quiet()
    out, exc, _, _ = one(*job)
    return exc, leaves(out)


def session(job):
    prog, slots, seed, *forms = job
    quiet()
    live, log = [], []
    rg = random.Random(seed)
    for op, x in prog:
        if op == 'call':
            name, v = slots[x - 1]
            form = forms[0][len(live)] if forms else rg.choice(FORMS)
            if form in ('list', 'tuple') and name in NDARRAYS or \
                    (name, form) in SKIP:
                form = 'plain'
            refexc, ref = REF[(name, v, KINDS.get(form, 'plain'))]
            out, exc, kept, gl = one(name, v, form)
            live.append(out)
            log.append(dict(ev='call', call=name, v=v, form=form, exc=exc, refexc=refexc,
                            cls=0 if close(
                                ref, leaves(out), TOLS.get(form, 1e-9)) else 1,
                            args=kept, glob=list(gl),
                            live=[digest(r) for r in live]))
        elif op == 'scribble':
            scribble(live[x - 1])
            log.append(dict(ev='scribble', r=x,
                            live=[digest(r) for r in live]))
        else:
            seed += 1
            np.random.seed(seed)
            log.append(dict(ev='reseed', live=[digest(r) for r in live]))
    return log


def C26(c):
    """Repeatable calls, untouched arguments, results and global state."""
    global SPA
    c.mc('PureHistory', MC % ('none', 'free', 'kept', 6, 'FALSE', ALL))
    c.mc('PureHistory', MC % ('copy', 'free', 'kept', 5, 'FALSE', ALL))
    for k, bad in enumerate((('Repeatable', 'shared', 'free', 'kept'),
                             ('ResultsKept', 'shared', 'free', 'kept'),
                             ('Repeatable', 'coarse', 'free', 'kept'),
                             ('Repeatable', 'none', 'draws', 'kept'),
                             ('GlobalKept', 'none', 'free', 'moved'))):
        if c.thorough or k == c.seed % 5:
            c.mc('PureHistory', MC % (*bad[1:], 4, 'FALSE', bad[0]),
                 expect=bad[0])
    progs = c.gen('PureHistory', MC % ('none', 'free', 'kept', 5, 'TRUE',
                                       'PrintProg'))
    progs += c.gen('PureHistory', MC % ('none', 'free', 'kept', 4, 'TRUE',
                                        'PrintProg'))
    c.notes.append('%d programs enumerated by TLC' % len(progs))
    SPA = c.spa
    ctx = multiprocessing.get_context('fork')
    names = sorted(REG)
    keys = [(n, v) for n in names for v in range(3)]
    keys = [(*k, w) for k in keys for w in ('plain', 'whole', 'rounded')]
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        for k, r in zip(keys, pool.imap(reference, keys, chunksize=1)):
            REF[k] = r
    jobs = []
    rg = c.rng
    per = c.n(9, 60)
    for n in names:
        for j in range(per):
            p = rg.choice(progs)
            a, b = rg.sample(range(3), 2)
            jobs.append((p, ((n, a), (n, b), (rg.choice(names),
                                              rg.randrange(3))),
                         rg.randrange(2 ** 20)))
        # every way to hold the arguments, one after the other
        jobs.append(([('call', 1)] * len(FORMS), ((n, rg.randrange(3)),), 0,
                     rg.sample(FORMS, len(FORMS))))
    # long sessions over everything
    for j in range(c.n(6, 40)):
        slots = tuple((n, rg.randrange(3)) for n in
                      rg.sample(names, min(14, len(names))))
        p = []
        m = 0
        for i in range(40):
            u = rg.random()
            if u < .65 or not m:
                p.append(('call', rg.randrange(len(slots)) + 1))
                m += 1
            elif u < .9:
                p.append(('scribble', rg.randrange(m) + 1))
            else:
                p.append(('reseed', 0))
        jobs.append((p, slots, j))
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        traces = list(pool.imap(session, jobs, chunksize=1))
    c.validate('TracePure', traces)
