"""Signal objects and audio files: C25, C26 (signal part), C28."""
import os

import numpy as np

from vlib import call, fx, fxa


class SigSession:
    def __init__(self, c, spa=None):
        self.c, self.spa = c, spa or c.spa
        self.obj, self.log = [], []

    def kind(self, o):
        s = self.spa.sig
        return {s.MonoSignal: 'mono', s.MultiSignal: 'multi',
                s.AmbiBSignal: 'ambib'}.get(type(o), type(o).__name__)

    @staticmethod
    def chans(o, kind):
        if kind == 'mono':
            return [o.signal]
        return [ch.signal for ch in o.channels]

    def ev(self, ev, exc, **e):
        now, names, ln, cnt = [], [], [], []
        for o in self.obj:
            k = self.kind(o)
            ch = self.chans(o, k)
            fs = o.fs
            now.append(dict(kind=k, fs=int(fs) if fs == int(fs) else -1,
                            ch=[fxa(np.atleast_1d(x)) for x in ch]))
            names.append([fxa(np.atleast_1d(x)) for x in
                          (o.W, o.X, o.Y, o.Z)] if k == 'ambib' else [])
            ln.append(len(o))
            if k == 'mono':
                cnt.append(1 if np.array_equal(o[1:3], o.signal[1:3])
                           and np.array_equal(o[-1:], o.signal[-1:])
                           and (not len(o) or o[-1] == o.signal[-1])
                           else -1)
            else:
                even = len(set(len(x) for x in ch)) == 1
                g = np.asarray(o.get_signals()) if even else ch
                ok = o.channel_count == o.num_channels and all(
                    np.array_equal(a, b) for a, b in zip(g, ch)) and \
                    all(x.fs == o.fs for x in o.channels) and \
                    len(g) == len(ch) and \
                    o[len(ch) - 1] is o.channels[-1] and \
                    (not even or np.array_equal(o.signals, g))
                cnt.append(int(o.num_channels) if ok else -1)
        self.log.append(dict(ev=ev, exc=exc, now=now, names=names, len=ln,
                             count=cnt, **e))

    def put(self, o, to):
        if to == len(self.obj) + 1:
            self.obj.append(o)
        else:
            self.obj[to - 1] = o

    def new(self, kind, ch, fs, to=None):
        to = to or len(self.obj) + 1
        s = self.spa.sig
        ch = [np.array(x, float) for x in ch][:1 if kind == 'mono' else 9]
        inp = [fxa(x) for x in ch]
        if kind == 'mono':
            o, exc = call(s.MonoSignal, ch[0], fs)
        else:
            o, exc = call({'multi': s.MultiSignal,
                           'ambib': s.AmbiBSignal}[kind], ch, fs=fs)
        if not exc:
            self.put(o, to)
        self.ev('new', exc, kind=kind, fs=fs, ch=inp, to=to)

    def badnew(self, how):
        s = self.spa.sig
        x = [np.ones(3)] * 5
        _, exc = [lambda: call(s.MultiSignal, x),
                  lambda: call(s.AmbiBSignal, x[:3], fs=8000),
                  lambda: call(s.AmbiBSignal, x, fs=8000),
                  lambda: call(s.AmbiBSignal, x[:4]),
                  lambda: call(s.AmbiBSignal.sh_to_b, np.ones((4, 3)))][how]()
        self.ev('badnew', exc)

    def play(self, h, device, gain=None, wait=None):
        del device[:]
        kw = {k: v for k, v in (('gain', gain), ('wait', wait))
              if v is not None}
        _, exc = call(self.obj[h - 1].play, **kw)
        heard = [d for d in device if d[0] == 'play']
        self.ev('play', exc, h=h, gain=fx(1 if gain is None else gain),
                wait=wait is not False, calls=[d[0] for d in device],
                rate=int(heard[0][2]) if heard else 0,
                heard=fxa(np.atleast_2d(np.asarray(heard[0][1]).T))
                if heard else [])

    def copy(self, h, to):
        o, exc = call(self.obj[h - 1].copy)
        if not exc:
            self.put(o, to)
        self.ev('copy', exc, h=h, to=to)

    def trim(self, h, a, b, dur=False, dest=None):
        """Samples a (inclusive) to b (exclusive), at half-sample times."""
        o = self.obj[h - 1]
        n = len(o)
        t0, t1 = (a + .5) / o.fs, (b + .5) / o.fs
        if a == 0:
            t0 = 0.
        if dest:
            r, exc = call(self.spa.sig.trim_audio, o, t0, t1)
            if not exc:
                self.put(r, dest)
            self.ev('trimcopy', exc, h=h, to=dest, a=a, b=b)
            return
        if dur:
            _, exc = call(o.trim, t0, 0., dur=(b + .5) / o.fs - t0)
        else:
            _, exc = call(o.trim, t0, t1)
        self.ev('trim', exc, h=h, a=a, b=b, refuse=a >= n)

    def notrim(self, h, a):
        """Nothing asked for, nothing left."""
        o = self.obj[h - 1]
        n = len(o)
        _, exc = call(o.trim, (a + .5) / o.fs, (a + 1.5) / o.fs, dur=0)
        self.ev('trim', exc, h=h, a=a, b=a, refuse=a >= n)

    def latetrim(self, h, extra, copy):
        """Starting where the signal ends, or later."""
        o = self.obj[h - 1]
        t = (len(o) + extra) / o.fs
        _, exc = call(self.spa.sig.trim_audio, o, t, t + 4 / o.fs) if copy \
            else call(o.trim, t, t + 4 / o.fs)
        self.ev('trim', exc, h=h, a=len(o), b=len(o) + 4, refuse=True)

    def conv(self, h, irs, mode):
        o = self.obj[h - 1]
        irs = [np.array(x, float) for x in irs]
        kw = {} if mode is None else dict(mode=mode)
        r, exc = call(o.conv, irs[0] if self.kind(o) == 'mono' else irs, **kw)
        self.ev('conv', exc, h=h, irs=[fxa(x) for x in irs],
                mode=mode or "full", same=r is o)

    def apply(self, h, v):
        o = self.obj[h - 1]
        _, exc = call(o.apply, lambda x, k=1: k * x[::-1].copy(),
                      np.array(v, float), k=3)
        self.ev('apply', exc, h=h, result=fxa(3 * np.array(v)[::-1]))

    def assign(self, h, c, v):
        o = self.obj[h - 1]
        v = np.array(v, float)
        w = [v, v.tolist(), v[:, None], tuple(v)][(len(self.log) // 2) % 4] \
            if len(v) > 1 else v

        def do():
            if self.kind(o) == 'mono':
                o.signal = w
            elif self.kind(o) == 'ambib' and len(self.log) % 3:
                setattr(o, 'WXYZ'[c - 1], w)
            else:
                o.channels[c - 1].signal = w
        _, exc = call(do)
        self.ev('assign', exc, h=h, c=c, value=fxa(v))

    def poke(self, h, c, i, v):
        o = self.obj[h - 1]

        def do():
            x = o.signal if self.kind(o) == 'mono' else \
                o.channels[c - 1].signal
            x[i - 1] = v
        _, exc = call(do)
        self.ev('poke', exc, h=h, c=c, i=i, value=fx(v))

    def resample(self, h, fs2):
        _, exc = call(self.obj[h - 1].resample, fs2)
        self.ev('resample', exc, h=h, fs2=fs2)

    def shtob(self, h, to):
        o, exc = call(self.spa.sig.AmbiBSignal.sh_to_b, self.obj[h - 1])
        if not exc:
            self.put(o, to)
        self.ev('shtob', exc, h=h, to=to)

    def path(self, k):
        return os.path.join(self.c.tmp, 'f%d.wav' % k)

    def save(self, h, k, sub, fsarg=None, method=False):
        o = self.obj[h - 1]
        if method and fsarg is None:
            _, exc = call(o.save, self.path(k), subtype=sub)
        else:
            kw = {} if fsarg is None else dict(fs=fsarg)
            _, exc = call(self.spa.io.save_audio, o, self.path(k),
                          subtype=sub, **kw)
        self.ev('save', exc, h=h, file=k, sub=sub,
                fsarg=[] if fsarg is None else [fsarg])

    def savearray(self, k, ch, fs, sub):
        a = np.array(ch, float).T if len(ch) > 1 else np.array(ch[0], float)
        a0 = a.copy()
        kw = {} if fs is None else dict(fs=fs)
        _, exc = call(self.spa.io.save_audio, a, self.path(k), subtype=sub,
                      **kw)
        self.ev('savearray', exc, file=k, ch=[fxa(x) for x in ch], sub=sub,
                fsarg=[] if fs is None else [fs],
                same=bool(np.array_equal(a, a0)))

    def savewrong(self, k):
        """Something that is not audio."""
        for what in ([1., 2.], 'text', None, self.spa):
            _, exc = call(self.spa.io.save_audio, what, self.path(k), fs=8000)
            self.ev('savewrong', exc, wrote=os.path.exists(self.path(k)))

    def load(self, ks, fsarg=None, to=None):
        to = to or len(self.obj) + 1
        names = [self.path(k) for k in ks]
        kw = {} if fsarg is None else dict(fs=fsarg)
        o, exc = call(self.spa.io.load_audio,
                      names if len(names) > 1 else names[0], **kw)
        if not exc:
            self.put(o, to)
        self.ev('load', exc, files=ks, fsarg=[] if fsarg is None else
                [fsarg if fsarg == int(fsarg) else 0], to=to)

    def fromfile(self, kind, k, fsarg=None, to=None):
        to = to or len(self.obj) + 1
        s = self.spa.sig
        cls = {'mono': s.MonoSignal, 'multi': s.MultiSignal,
               'ambib': s.AmbiBSignal}[kind]
        o, exc = call(cls.from_file, self.path(k), fs=fsarg)
        if not exc:
            self.put(o, to)
        self.ev('fromfile', exc, kind=kind, files=[k],
                fsarg=[] if fsarg is None else [fsarg], to=to)


def vals(rs, n):
    return rs.randint(-24, 25, n) / 32.


def channels(rs, kind, n):
    return [vals(rs, n) for _ in range({'mono': 1, 'multi': 1 + rs.randint(
        0, 4), 'ambib': 4}[kind])]


HIST = '''INIT Init
NEXT Next
INVARIANTS %s
CHECK_DEADLOCK FALSE
CONSTANTS Copy = "%s" Names = "%s" MaxLen = %d Gen = %s
'''
RATES = [8000, 16000, 44100, 48000, 32768, 22050]


def do_op(s, op, h, rs, last=False):
    """One abstract operation of SignalHistory on the real objects."""
    if h > len(s.obj):
        return
    o = s.obj[h - 1]
    k, n = s.kind(o), len(o)
    nch = 1 if k == 'mono' else o.num_channels
    lens = [len(x) for x in s.chans(o, k)]
    equal = len(set(lens)) == 1
    if op == 'trim' or op == 'trimcopy':
        if n < 2 or not equal or op == 'trimcopy' and k == 'mono':
            op = 'copy' if op == 'trimcopy' else 'poke'
        else:
            a = rs.randint(0, n - 1)
            b = [rs.randint(a + 1, n + 1), n, n + 5][rs.randint(3)]
            if op == 'trimcopy':
                s.trim(h, a, b, dest=2)
            else:
                s.trim(h, a, b, dur=rs.rand() < .4)
            return
    if op == 'copy':
        s.copy(h, 2)
    elif op == 'conv':
        m = rs.randint(1, 5)
        mode = [None, 'full', 'same', 'same'][rs.randint(4)]
        if m > n:
            mode = None
        s.conv(h, [vals(rs, m) for _ in range(nch)], mode)
    elif op == 'apply':
        s.apply(h, vals(rs, n))
    elif op == 'assign':
        s.assign(h, int(rs.randint(1, nch + 1)),
                 vals(rs, n if rs.rand() < .7 else n + 2))
    elif op == 'poke':
        s.poke(h, int(rs.randint(1, nch + 1)), int(rs.randint(1, min(lens)
                                                              + 1)),
               float(rs.randint(1, 9)))
    elif op == 'resample':
        fs2 = RATES[rs.randint(4)]
        fs = int(o.fs)
        from math import ceil
        if not equal or n < 12 or (n * fs2) // fs < 2 or n > 200:
            fs2 = fs
        s.resample(h, fs2)
    elif op == 'save':
        if equal:
            s.save(h, h, ['FLOAT', 'DOUBLE'][rs.randint(2)],
                   method=rs.rand() < .5)
    elif op == 'load':
        f = [e['file'] for e in s.log if e['ev'] == 'save' and not e['exc']]
        if f:
            s.load([f[-1]], to=2)
        else:
            s.new(['mono', 'multi', 'ambib'][rs.randint(3)],
                  [vals(rs, 5) for _ in range(4)], 16000, to=2)


def listening_library(c):
    """A copy of the library whose sound device records what it is given."""
    import sys
    import types
    calls = []
    fake = types.ModuleType('sounddevice')

    def play(data, samplerate=None, mapping=None, blocking=False, **kw):
        calls.append(('play', np.array(data), samplerate))
        if blocking:
            calls.append(('wait',))
    fake.play = play
    fake.wait = lambda *a: calls.append(('wait',))
    fake.stop = lambda *a: calls.append(('stop',))
    real = sys.modules.get('sounddevice')
    sys.modules['sounddevice'] = fake
    try:
        lib, _ = c.spa_in('listen')
    finally:
        if real is None:
            del sys.modules['sounddevice']
        else:
            sys.modules['sounddevice'] = real
    return lib, calls


def C25(c):
    """Histories of signal objects."""
    rs = c.nprng(25)
    c.mc('SignalHistory', HIST % ('Independent NamesFollow', 'deep', 'view',
                                  4, 'FALSE'))
    c.mc('SignalHistory', HIST % ('Independent', 'shallow', 'view', 3,
                                  'FALSE'), expect='Independent')
    c.mc('SignalHistory', HIST % ('NamesFollow', 'deep', 'kept', 3,
                                  'FALSE'), expect='NamesFollow')
    progs = c.gen('SignalHistory', HIST % ('PrintProg', 'deep', 'view', 3,
                                           'TRUE'))
    c.notes.append('%d programs enumerated by TLC' % len(progs))
    cap = c.n(500, len(progs))
    if len(progs) > cap:
        progs = c.rng.sample(progs, cap)
    traces = []
    for i, p in enumerate(progs):
        s = SigSession(c)
        kind = ['mono', 'multi', 'ambib'][i % 3]
        s.new(kind, channels(rs, kind, [6, 14, 9][i % 3]), RATES[i % 6])
        for op, h in p:
            do_op(s, op, h, rs)
        traces.append(s.log)
    ops = ['trim', 'conv', 'apply', 'assign', 'resample', 'poke', 'copy',
           'trimcopy', 'trim', 'conv', 'poke']
    for i in range(c.n(20, 200)):
        s = SigSession(c)
        kind = ['mono', 'multi', 'ambib'][i % 3]
        s.new(kind, channels(rs, kind, 30 if i % 9 != 5 else 180), RATES[i % 6])
        s.copy(1, 2)
        for _ in range(8):
            do_op(s, ops[rs.randint(len(ops))], int(rs.randint(1, 3)), rs)
        traces.append(s.log)
    # playback, onto a device that only listens
    lib, device = listening_library(c)
    for i in range(c.n(6, 40)):
        s = SigSession(c, lib)
        kind = ['mono', 'multi', 'ambib'][i % 3]
        s.new(kind, channels(rs, kind, [6, 1, 30][i // 3 % 3]),
              RATES[i % 6])
        s.play(1, device)
        s.play(1, device, gain=float(rs.uniform(-2, 2)), wait=i % 2 == 0)
        s.poke(1, 1, 1, .5)
        s.copy(1, 2)
        s.play(2, device, wait=False)
        s.conv(2, [vals(rs, 2) for _ in range(4)], None)
        s.play(2, device, gain=[0, -1, .5][i % 3])
        s.poke(1, 1, 1, 5.)        # louder than full scale
        s.play(1, device)
        s.play(1, device, gain=-3., wait=False)
        traces.append(s.log)
    s = SigSession(c)
    for how in range(5):
        s.badnew(how)
    traces.append(s.log)
    # B-format from SH signals, refused trims
    for i in range(c.n(6, 40)):
        s = SigSession(c)
        s.new('multi', [vals(rs, 7) for _ in range(4)], 48000)
        s.shtob(1, 2)
        s.poke(1, 2, 3, 5.)
        s.conv(2, [vals(rs, 3) for _ in range(4)], None)
        s.trim(2, 1, 6)
        s.copy(2, 3)
        s.assign(2, 1, vals(rs, 5))
        s.trim(1, 9, 12)
        s.trim(1, 7, 12) if i % 2 else s.trim(1, 6, 12)
        s.new('mono', [vals(rs, 8)], [32768, 16384][i % 2])
        s.new('multi', [vals(rs, 8) for _ in range(2)], [16384, 32768][i % 2])
        for h in (4, 5):
            s.latetrim(h, 0, False)
            s.latetrim(h, [0, 3][i % 2], True)
        s.notrim(4, 2)
        s.notrim(5, 3)
        traces.append(s.log)
    c.validate('TraceSignals', traces, jobs=8)


def C28(c):
    """Audio files."""
    rs = c.nprng(28)
    traces = []
    for i in range(c.n(90, 700)):
        s = SigSession(c)
        sub = ['FLOAT', 'PCM_16', 'PCM_24', 'DOUBLE',
               'PCM_32'][i % (4 + i // 20 % 2)]
        kind = ['mono', 'multi', 'ambib'][i % 3]
        fs = [44100, 48000, 8000, 96000, 22050][i % 5]
        n = [1, 2, 9, 30, 3][i % 5] if i % 3 == 0 else [2, 9, 30, 5, 3][i % 5]
        if i % 16 == 7:
            n = 900
        amp = [1, 1, 1.9, .01][i % 4]
        s.new(kind, [amp * rs.uniform(-1, 1, n) for _ in channels(
            rs, kind, 1)], fs)
        s.save(1, 1, sub, method=i % 2 == 0)
        s.load([1])
        s.fromfile(kind, 1)
        s.fromfile(['mono', 'multi', 'ambib'][(i + 1) % 3], 1)
        s.load([1], fsarg=fs)
        s.load([1], fsarg=fs + [1, .5][i % 2])
        s.fromfile(kind, 1, fsarg=[fs, fs - 100][i % 2])
        if i % 3 == 1:
            s.save(1, 2, sub, fsarg=[fs, 32000][i // 3 % 2])
        s.savearray(3, [amp * rs.uniform(-1, 1, n) for _ in range(
            1 + i % 4 if i % 13 != 6 else [16, 70][i % 2])], None if i % 7 == 0 else fs if i % 2 else 11025, sub)
        if i % 16 == 3:
            s.savewrong(4)
        if i % 7:
            s.load([3, 1] if i % 2 else [3])
            s.load([1, 3])
        if i % 7 and i % 5 == 2:        # several, one of another rate
            s.savearray(5, [amp * rs.uniform(-1, 1, n)], fs, sub)
            s.load([5, 1, 5, 5]) if i % 2 else s.load([1, 3, 5, 5, 1])
            s.load([[3, 1, 5], [1, 3, 5], [1, 5, 3], [5, 3, 5, 1, 5]][i // 5 % 4])
        # overwrite and read again
        s.poke(1, 1, 1, .25)
        s.save(1, 1, sub)
        s.load([1])
        traces.append(s.log)
    c.validate('TraceSignals', traces, jobs=8)
