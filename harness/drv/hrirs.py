"""HRIR sets and binaural rendering: C10, C11, C12, C31."""
import os

import numpy as np

from vlib import call, cxa, fx, fxa, ints


def directions(rs, g):
    z = rs.uniform(-1, 1, g)
    return rs.uniform(-np.pi, np.pi, g), np.arccos(z)


class HrirSession:
    def __init__(self, c):
        self.c, self.spa = c, c.spa
        self.obj, self.log = [], []

    @staticmethod
    def enc(h):
        return dict(l=fxa(h.left), r=fxa(h.right), azi=fxa(h.azi),
                    zen=fxa(h.zen), fs=int(h.fs))

    def ev(self, ev, exc, **e):
        self.log.append(dict(
            ev=ev, exc=exc, now=[self.enc(h) for h in self.obj],
            size=[[int(h.num_grid_points), int(h.num_samples), len(h)]
                  for h in self.obj], **e))

    def put(self, o, to):
        if to == len(self.obj) + 1:
            self.obj.append(o)
        else:
            self.obj[to - 1] = o

    def new(self, rs, g, n, fs=48000, to=None, azi=None, zen=None,
            aslist=False, mixed=0):
        to = to or len(self.obj) + 1
        if azi is None:
            azi, zen = directions(rs, g)
        l, r = rs.randn(g, n), rs.randn(g, n)
        s = dict(l=fxa(l), r=fxa(r), azi=fxa(azi), zen=fxa(zen), fs=fs)
        if mixed:           # whole numbers on the left
            l = np.round(3 * l)
            s['l'] = fxa(l)
            l = l.astype([np.int64, np.int16][mixed - 1])
        if aslist:
            l, r, azi, zen = l.tolist(), r.tolist(), list(azi), list(zen)
        o, exc = call(self.spa.sig.HRIRs, l, r, azi, zen, fs)
        if not exc:
            self.put(o, to)
        self.ev('new', exc, set=s, to=to)

    def badnew(self, rs, g, n, how):
        l, r = rs.randn(g, n), rs.randn(g, n)
        azi, zen = directions(rs, g)
        if how == 0:
            l = l[1:]
        elif how == 1:
            r = r[:-1]
        elif how == 2:
            azi = azi[1:]
        elif how == 3:
            zen = zen[1:]
        elif how == 4:
            azi, zen = azi[1:], zen[1:]
        else:
            l = l[0]
        _, exc = call(self.spa.sig.HRIRs, l, r, azi, zen, 48000)
        self.ev('badnew', exc)

    def update(self, rs, h, n, gl=None, gr=None):
        g = self.obj[h - 1].num_grid_points
        l, r = rs.randn(gl or g, n), rs.randn(gr or g, n)
        e = dict(l=fxa(l), r=fxa(r))
        _, exc = call(self.obj[h - 1].update_hrirs, l, r)
        self.ev('update', exc, h=h, **e)

    def eq(self, rs, h, m, mode, aslist=False):
        taps = rs.randn(m)
        kw = {} if mode is None else dict(mode=mode)
        _, exc = call(self.obj[h - 1].apply_ctf_eq,
                      taps.tolist() if aslist else taps, **kw)
        self.ev('eq', exc, h=h, taps=fxa(taps), mode=mode or 'full')

    def eqctf(self, h, mode):
        """The equalizer that is made from the set itself."""
        o = self.obj[h - 1]
        taps, exc = call(self.spa.process.hrirs_ctf, o.copy())
        kw = {} if mode is None else dict(mode=mode)
        _, exc2 = call(o.apply_ctf_eq, **kw)
        self.ev('eq', exc or exc2, h=h, taps=[] if exc else fxa(taps),
                mode=mode or 'full')

    def copy(self, h, to):
        o, exc = call(self.obj[h - 1].copy)
        if not exc:
            self.put(o, to)
        self.ev('copy', exc, h=h, to=to)

    def poke(self, rs, h):
        o = self.obj[h - 1]
        g, i = rs.randint(o.left.shape[0]), rs.randint(o.left.shape[1])
        o.left[g, i] = 7
        self.ev('poke', '', h=h, g=int(g + 1), i=int(i + 1), value=fx(7))

    def turn(self, rs, h, inplace):
        """The user replaces the directions of a set."""
        o = self.obj[h - 1]
        azi, zen = directions(rs, len(o.azi))
        if inplace:
            o.azi[:], o.zen[:] = azi, zen
        else:
            o.azi, o.zen = azi.copy(), zen.copy()
        self.ev('turn', '', h=h, azi=fxa(azi), zen=fxa(zen))

    def nearest(self, rs, h, k, scalar=False, special=None):
        o = self.obj[h - 1]
        azi, zen = directions(rs, k)
        azi = azi + 2 * np.pi * rs.randint(-1, 2, k)
        if special is not None:
            azi, zen = special
            k = len(azi)
        hl, hr = [], []

        def one(a, z):
            i = o.nearest_idx(a, z)
            return int(np.asarray(i))

        def go():
            idx = [one(azi[0], zen[0])] if scalar and k == 1 else \
                np.atleast_1d(o.nearest_idx(azi, zen)).tolist()
            for j in range(k):
                left, right = o.nearest_hrirs(azi[j], zen[j])
                l2, r2 = o[idx[j]]
                if np.array_equal(left, l2) and np.array_equal(right, r2):
                    hl.append(fxa(left))
                    hr.append(fxa(right))
                else:       # a tie may differ: let the spec see the response
                    hl.append(fxa(l2))
                    hr.append(fxa(r2))
                    j2 = one(azi[j], zen[j])
                    if not np.array_equal(o[j2][0], left) or \
                            not np.array_equal(o[j2][1], right):
                        hl[-1] = fxa(left * np.nan)
            return idx
        idx, exc = call(go)
        self.ev('nearest', exc, h=h, azi=fxa(azi), zen=fxa(zen),
                idx=[int(i) + 1 for i in idx or []], hl=hl, hr=hr)

    def binaural(self, setup, h, sigs, ori, fs=None, omit=False):
        o = self.obj[h - 1]
        fs = fs or o.fs
        s_in = np.array(sigs)
        pts, a = np.array(setup.points), float(setup.a)
        kw = {} if ori is None else dict(orientation=ori)
        if not omit:
            kw['hrirs'] = o
        out, exc = call(setup.binauralize, s_in, fs, **kw)
        self.ev('binaural', exc, h=h, fs=int(fs), pts=fxa(pts), a=fx(a),
                sigs=fxa(np.atleast_2d(sigs)), ori=fxa(ori or (0, 0)),
                out=[] if exc else [fxa(x) for x in out],
                same=bool(np.array_equal(s_in, sigs) and
                          np.array_equal(pts, setup.points)))


HIST = '''INIT Init
NEXT Next
INVARIANTS %s
CHECK_DEADLOCK FALSE
CONSTANTS Copy = "%s" Count = "%s" Ears = "%s" Check = "%s" Grid = "%s" MaxLen = %d
Gen = %s
'''
ALL = 'SizesTrue EarsTogether AsExpected AnswersLive'


def C11(c):
    """HRIR sets stay consistent; nearest direction."""
    rs = c.nprng(11)
    c.mc('HrirHistory', HIST % (ALL, 'deep', 'follow', 'both', 'first',
                                'live', 5, 'FALSE'))
    for k, bad in enumerate((
            ('AsExpected', 'shallow', 'follow', 'both', 'first', 'live'),
            ('SizesTrue', 'deep', 'kept', 'both', 'first', 'live'),
            ('EarsTogether', 'deep', 'follow', 'left', 'first', 'live'),
            ('AsExpected', 'deep', 'follow', 'both', 'late', 'live'),
            ('AnswersLive', 'deep', 'follow', 'both', 'first', 'kept'))):
        if c.thorough or k == c.seed % 5:
            c.mc('HrirHistory', HIST % (*bad, 3, 'FALSE'), expect=bad[0])
    progs = c.gen('HrirHistory', HIST % ('PrintProg', 'deep', 'follow',
                                         'both', 'first', 'live', 3,
                                         'TRUE'))
    cap = c.n(350, len(progs))
    c.notes.append('%d programs enumerated by TLC' % len(progs))
    if len(progs) > cap:
        # always: queries of one set around a change of its grid
        must = [p for p in progs if [q[0] for q in p if q[1] == p[0][1]] ==
                ['nearest', 'turn', 'nearest']]
        progs = must * 8 + c.rng.sample(progs, cap)
    traces = []
    for i, p in enumerate(progs):
        s = HrirSession(c)
        g = [3, 1, 6][i % 3]
        s.new(rs, g, [4, 3, 6][i % 3], aslist=i % 4 == 0,
              mixed=i % 2 + 1 if i % 7 == 3 else 0)
        for op, h in p:
            o = s.obj[h - 1]
            if op == 'update':
                s.update(rs, h, rs.randint(2, 7))
            elif op == 'badupdate':
                s.update(rs, h, 4, *((g + 1, None), (None, g + 1),
                                     (g + 1, g + 1))[rs.randint(3)])
            elif op == 'eqfull':
                s.eq(rs, h, rs.randint(1, 5),
                     [None, 'full'][rs.randint(2)], rs.rand() < .3)
            elif op == 'eqsame':
                s.eq(rs, h, rs.randint(1, 4 + len(o)), 'same')
            elif op == 'poke':
                s.poke(rs, h)
            elif op == 'turn':
                s.turn(rs, h, rs.rand() < .5)
            elif op == 'copy':
                s.copy(1, 2)
            else:
                s.nearest(rs, h, [1, 2][rs.randint(2)], rs.rand() < .5)
        traces.append(s.log)
    # nearest directions on dense and awkward grids
    for i in range(c.n(16, 120)):
        s = HrirSession(c)
        if i % 4 == 0:
            azi, zen = directions(rs, 40)
        elif i % 4 == 1:          # the same grid in [0, 2 pi), with poles
            azi = np.r_[np.arange(12) * np.pi / 6, 0, 0]
            zen = np.r_[np.full(12, np.pi / 2), 0, np.pi]
        elif i % 4 == 2:
            azi, zen, _ = self_gauss(c)
        else:                     # clustered around one direction
            azi = 3.1 + .05 * rs.randn(20)
            zen = np.abs(.1 + .05 * rs.randn(20))
        s.new(rs, len(azi), 2, azi=azi, zen=zen)
        s.nearest(rs, 1, 12)
        s.nearest(rs, 1, 1, scalar=True)
        j = rs.permutation(len(azi))[:6]
        s.nearest(rs, 1, 0, special=(azi[j] + .003, zen[j]))
        s.nearest(rs, 1, 0, special=(np.array([0., 3.14159, -3.14159, 1.]),
                                     np.array([0., 3.14, 3.14, 1e-4])))
        traces.append(s.log)
    for i in range(c.n(3, 12)):   # directions that differ by very little
        s = HrirSession(c)
        eps = [1e-4, 3e-5][i % 2]
        azi, zen = (np.array(v).ravel() for v in np.meshgrid(
            rs.uniform(-3, 3) + eps * np.arange(5),
            rs.uniform(.8, 2.3) + eps * np.arange(5)))
        j = rs.permutation(25)
        azi, zen = azi[j], zen[j]
        s.new(rs, 25, 2, azi=azi, zen=zen)
        s.nearest(rs, 1, 0, special=(azi, zen))
        s.nearest(rs, 1, 4)
        traces.append(s.log)
    # equalized by what its own directions have in common
    for i in range(c.n(4, 30)):
        s = HrirSession(c)
        azi, zen, _ = c.spa.grids.gauss(5 + i % 2)
        s.new(rs, len(azi), [16, 24, 20][i % 3], fs=[44100, 48000][i % 2],
              azi=azi, zen=zen)
        s.copy(1, 2)
        s.eqctf(1, [None, 'same', 'full'][i % 3])
        if i % 2:
            s.eq(rs, 2, 3, None)
            s.eqctf(2, 'same')
        s.nearest(rs, 1, 2)
        traces.append(s.log)
    for i in range(6):
        s = HrirSession(c)
        s.new(rs, 3, 4)
        s.badnew(rs, 3, 4, i)
        traces.append(s.log)
    c.validate('TraceHrirs', traces, jobs=8)


def self_gauss(c):
    return c.spa.grids.gauss(4)


def default_lib(c, rs, name):
    """A library that has default HRIR sets, and what they hold."""
    from scipy.io import savemat
    lib, data = c.spa_in(name)
    deep = os.path.join(data, 'HRIRs', 'FABIAN', 'SphericalHarmonics')
    os.makedirs(deep)
    sh = rs.randn(2, 4, 5) + 1j * rs.randn(2, 4, 5)
    savemat(os.path.join(deep, 'FABIAN_DIR_measured_HATO_0.mat'), dict(
        SamplingRate=44100., SH=np.array([[(sh[0], sh[1], 0., 0., 0.,
                                            np.arange(5.)[:, None])]],
                                         dtype=[(k, object) for k in (
                'coeffLeft', 'coeffRight', 'x', 'y', 'z', 'f')])))
    _, exc = call(lib.io.get_default_hrirs, *directions(rs, 9), jobs_count=1)
    return lib, exc


def C10(c):
    """What loudspeakers sound like through an HRIR set."""
    from setup import doc_layout, octa, cube, dome, random_layout
    rs = c.nprng(10)
    traces = []
    lays = [doc_layout(), octa(1.5), cube(), dome(5, 3), None, None]
    for i in range(c.n(60, 600)):
        p = lays[i % 6]
        if p is None:
            p = random_layout(rs, 5 + i % 4, 1, 3)
        if i % 7 in (2, 6):       # within reach, far away
            p = p * [.07, 9.][i % 2]
        kw = {}
        if i % 5 == 2:
            kw = dict(listener_position=np.array([.1, -.2, .05]) *
                      min(1, np.abs(p).max()))
        setup, exc = call(c.spa.decoder.LoudspeakerSetup, p[:, 0], p[:, 1],
                          p[:, 2], **kw)
        if exc:
            traces.append([dict(ev='driver', exc=exc)])
            continue
        setup.a = [1, 1, 0, 2, 1.5][i % 5]
        L = setup.npoints
        s = HrirSession(c)
        if i % 7 == 3:
            azi, zen, _ = c.spa.grids.gauss(3)
            azi = azi + .013
        else:
            azi, zen = directions(rs, [12, 30, 3][i % 3])
        long = i % 23 == 11
        s.new(rs, len(azi), [3, 5, 1][i % 3] if not long else 100,
              fs=[48000, 44100][i % 2], azi=azi, zen=zen)
        for j in range(3):
            S = [4, 1, 7][(i + j) % 3] if not long else 150
            x = rs.uniform(-1, 1, (L, S)) * [1, 1, 1e-3, 20][(i + j) % 4]
            x[rs.rand(L) < .3] = 0.
            if j == 1:        # quiet channels: around, but not at, -100 dB
                x[rs.randint(L)] *= 0
                x[rs.randint(L), 0] = 4e-5
                x[rs.randint(L)] = 4e-6 * rs.uniform(-1, 1, S)
            ori = None if j == 0 and i % 2 else (
                float(rs.uniform(-4, 7)), [0., 0., .4, -.3][rs.randint(4)])
            if i % 6 == 4:
                x = x.astype(np.float32)
            if j == 2 and i % 3 == 0:
                s.turn(rs, 1, i % 2)
            s.binaural(setup, 1, x, ori)
            if j == 2:
                s.binaural(setup, 1, x[:-1] if i % 2 else np.r_[x, x[:1]],
                           None)
                s.binaural(setup, 1, x, None, fs=[96000, 16000][i % 2])
        # gains to signals
        for shp in ((1, L), (5, L), (3, L - 1)):
            g = rs.uniform(-1, 1, shp)
            x = rs.uniform(-1, 1, shp[0])
            for use in (None, x):
                out, exc = call(setup.loudspeaker_signals, g, use)
                s.log.append(dict(
                    ev='lssignals', exc=exc, n=L, gains=fxa(g),
                    sig=[] if use is None else fxa(use),
                    out=[] if exc else fxa(out)))
        g, x = rs.uniform(-1, 1, L), rs.uniform(-1, 1)
        for use in (None, x, [x], np.array([[x]])):   # one row, one sample
            out, exc = call(setup.loudspeaker_signals, g.tolist()
                            if i % 2 else g, use)
            s.log.append(dict(
                ev='lssignals', exc=exc, n=L, gains=[fxa(g)],
                sig=[] if use is None else [fx(x)],
                out=[] if exc else fxa(out)))
        # a signal as a column, as a list
        g, x = rs.uniform(-1, 1, (4, L)), rs.uniform(-1, 1, 4)
        for use in (x[:, None], x.tolist(), x[None]):
            out, exc = call(setup.loudspeaker_signals, g, use)
            s.log.append(dict(
                ev='lssignals', exc=exc, n=L, gains=fxa(g), sig=fxa(x),
                out=[] if exc else fxa(out)))
        # silence, and silence but for one sample
        for use in (0 * x, np.array([0, 0, 0, .3]), [0, 1, 0, 0]):
            out, exc = call(setup.loudspeaker_signals, g, use)
            s.log.append(dict(
                ev='lssignals', exc=exc, n=L, gains=fxa(g), sig=fxa(use),
                out=[] if exc else fxa(out)))
        # more or fewer samples than gains
        for k in (3, 5, 9):
            _, exc = call(setup.loudspeaker_signals, g,
                          rs.uniform(-1, 1, k))
            s.log.append(dict(ev='badlssignals', exc=exc, k=k, n=4))
        # one signal per loudspeaker, one sample long
        y = rs.uniform(-1, 1, (L, 1))
        s.binaural(setup, 1, y, None)
        traces.append(s.log)
    # the set that is used when none is given
    lib, exc = default_lib(c, rs, 'bin')
    for fs in (44100, 48000, 96000):
        s = HrirSession(c)
        p = random_layout(rs, 5, 1, 3)
        setup, exc2 = call(lib.decoder.LoudspeakerSetup, *p.T)
        h, exc3 = call(lib.io.load_hrirs, fs)
        if exc + exc2 + exc3:
            traces.append([dict(ev='driver', exc=exc + exc2 + exc3)])
            continue
        s.obj.append(h)
        s.ev('new', '', set=s.enc(h), to=1)
        for ori in (None, (.7, 0.)):
            s.binaural(setup, 1, rs.randn(5, 3), ori, fs=fs, omit=True)
        traces.append(s.log)
    c.validate('TraceHrirs', traces, jobs=8)


def full_magls(rs, spa, i):
    N = [1, 2, 1, 3, 0][i % 5]
    G = [8, 20, 14, 30, 6][i % 5]
    cont = ['avg', 'angle', 'delay'][i % 3]
    fs = [48000, 44100, 96000][i // 2 % 3]
    n = [1024, 1024, 1030, 1024, 1101][i // 3 % 5]
    nb = n // 2 + 1
    kc = [rs.randint(8, nb - 8), 6, nb - 3, rs.randint(12, 60)][i % 4]
    k0 = max(0, kc - rs.randint(6, 8))
    m = min(kc + 5, nb) - k0
    f_trans = (kc + rs.uniform(-.4, .4)) * fs / n
    azi, zen = directions(rs, G)
    Y = spa.sph.sh_matrix(N, azi, zen, 'real')
    while np.linalg.cond(Y) > 20:
        azi, zen = directions(rs, G)
        Y = spa.sph.sh_matrix(N, azi, zen, 'real')
    # a common part that carries the phase, and something of its own
    own = rs.randn(2, m, G) + 1j * rs.randn(2, m, G)
    tau = rs.uniform(0, [30, 400][i % 4 < 2], (2, 1, 1))
    lag = np.exp(-2j * np.pi * np.arange(k0, k0 + m)[:, None] * (
        tau + rs.uniform(0, 60, (2, 1, G)) * (i % 2)) / n)
    spec = 200 * (2 * lag * rs.uniform(.5, 1.5, (2, 1, G)) + .4 * own)
    full = np.zeros((2, G, nb), complex)
    full[..., k0:k0 + m] = spec.transpose(0, 2, 1)
    full[..., 0] = full[..., 0].real
    if n % 2 == 0:
        full[..., -1] = full[..., -1].real
    ir = np.fft.irfft(full, n)
    h = spa.sig.HRIRs(ir[0], ir[1], azi, zen, fs)
    delay = [(0, 0), (3, 7.5), (-2, 12), (0, -3.5)][i // 6 % 4]
    kw = dict(hf_cont=cont, f_trans=f_trans)
    if delay != (0, 0):
        kw['hf_delay'] = delay
    out, exc = call(spa.decoder.magls_bin, h, N, **kw)
    at = np.r_[0, 1, 2, 3, 4, n - np.arange(1, 34, 4), n - 32, n - 33,
               rs.randint(5, n - 32, 12)]
    got = full[..., k0:k0 + m].transpose(0, 2, 1)
    return dict(ev='maglsfull', exc=exc, N=N, azi=fxa(azi), zen=fxa(zen),
                taps=n, fs=fs, ftrans=fx(f_trans), k0=int(k0), cont=cont,
                delay=fxa(delay), spec=cxa(got), at=ints(at),
                shape=[] if exc else list(out.shape),
                out=[] if exc else fxa(out[..., at]),
                same=bool(np.array_equal(h.left, ir[0]) and
                          np.array_equal(h.right, ir[1])))


def C12(c):
    """Decoding ambisonic signals to binaural."""
    rs = c.nprng(12)
    spa = c.spa
    traces = []
    for i in range(c.n(40, 400)):
        N = [0, 1, 2, 3][i % 4]
        S, T = [1, 2, 9, 40][rs.randint(4)], [1, 2, 5, 12][rs.randint(4)]
        if i % 13 == 8:
            N, S, T = [(5, 60, 30), (4, 20, 64), (7, 9, 5)][i // 13 % 3]
        C = (N + 1) ** 2
        x, h = rs.randn(C, S), rs.randn(2, C, T)
        if i % 3 == 0:
            x, h = np.round(x * 4), np.round(h * 4)
        x0, h0 = x.copy(), h.copy()
        out, exc = call(spa.decoder.sh2bin, x, h)
        log = [dict(ev='sh2bin', exc=exc, x=fxa(x0), ir=fxa(h0),
                    out=[] if exc else fxa(out),
                    same=bool(np.array_equal(x, x0) and
                              np.array_equal(h, h0)))]
        if i % 5 == 2:      # complex signals: both parts, separately
            z = x + 1j * rs.randn(C, S)
            out, exc = call(spa.decoder.sh2bin, z, h)
            log += [dict(ev='sh2bin', exc=exc, x=fxa(f(z)), ir=fxa(h),
                         out=[] if exc else fxa(f(np.asarray(out))),
                         same=True) for f in (np.real, np.imag)]
        if i % 5 == 3:      # and complex filters
            z = h + 1j * rs.randn(2, C, T)
            out, exc = call(spa.decoder.sh2bin, x, z)
            log += [dict(ev='sh2bin', exc=exc, x=fxa(x), ir=fxa(f(z)),
                         out=[] if exc else fxa(f(np.asarray(out))),
                         same=True) for f in (np.real, np.imag)]
        _, exc = call(spa.decoder.sh2bin, np.r_[x, x[:1]], h)
        log.append(dict(ev='badsh2bin', exc=exc))
        traces.append(log)
    # MagLS on order-limited pure delays: exact whatever the continuation
    for i in range(c.n(18, 90)):
        N = 1 + i % 3 if i % 8 != 5 else 4 + i // 8 % 2
        cont = ['avg', 'angle', 'delay'][i // 3 % 3]
        fs = [48000, 44100][i % 2]
        taps, d = [128, 256, 160][i % 3], rs.randint(10, 60, 2)
        if i % 9 == 4:      # longer than the shortest transform
            taps = [1101, 1200, 1025][i // 9 % 3]
            N = 1
            d += rs.randint(900)
        azi, zen, _ = spa.grids.gauss(6 + i % 2)
        Y = spa.sph.sh_matrix(N, azi, zen, 'real')
        coef = rs.uniform(-.3, .3, (2, (N + 1) ** 2)) * min(1, (2.5 / N) ** 2)
        coef[:, 0] = rs.choice([2.5, 3., 4.], 2)
        ir = np.zeros((2, len(azi), taps))
        # gains stay positive, so that the phase is the delay's
        g = coef @ Y.T
        assert (g > 0).all()
        ir[0][:, d[0]], ir[1][:, d[1]] = g
        h = spa.sig.HRIRs(ir[0], ir[1], azi, zen, fs)
        kw = dict(hf_cont=cont) if cont != 'avg' or i % 2 else {}
        if cont == 'delay':
            kw['hf_delay'] = (int(d[0]), int(d[1]))
        if i % 4 == 1:
            kw['f_trans'] = 1500. + 100 * i
        l0, r0 = h.left.copy(), h.right.copy()
        out, exc = call(spa.decoder.magls_bin, h, N, **kw)
        traces.append([dict(
            ev='magls', exc=exc, N=N, taps=taps, delay=ints(d), coef=fxa(coef),
            out=[] if exc else fxa(out),
            same=bool(np.array_equal(h.left, l0) and
                      np.array_equal(h.right, r0)))])
    # MagLS on responses of a few bins around the transition
    for i in range(c.n(24, 240)):
        traces.append([full_magls(rs, spa, i)])
    h = spa.sig.HRIRs(*rs.randn(2, 16, 64), *directions(rs, 16), 48000)
    for cont in ('mean', 'none', ''):
        _, exc = call(spa.decoder.magls_bin, h, 1, hf_cont=cont)
        traces.append([dict(ev='badmagls', exc=exc)])
    # MagLS symmetries on arbitrary responses
    for i in range(c.n(8, 60)):
        N = 1 + i % 2
        azi, zen = directions(rs, 30)
        fs, taps = 48000, 64
        l, r = rs.randn(2, 30, taps) * np.exp(-np.arange(taps) / 8)
        cont = ['avg', 'delay', 'angle'][i % 3]
        dl = (3, 5)
        f = spa.decoder.magls_bin
        o1, exc = call(f, spa.sig.HRIRs(l, r, azi, zen, fs), N,
                       hf_cont=cont, hf_delay=dl, f_trans=2000)
        log = []
        for swap, gain in ((True, 1.), (False, 2.)):
            a, b = (r, l) if swap else (gain * l, gain * r)
            o2, exc2 = call(f, spa.sig.HRIRs(a, b, azi, zen, fs), N,
                            hf_cont=cont, f_trans=2000,
                            hf_delay=dl[::-1] if swap else dl)
            log.append(dict(ev='maglspair', exc=exc or exc2, swap=swap,
                            gain=fx(gain), out1=[] if exc else fxa(o1),
                            out2=[] if exc2 else fxa(o2)))
        traces.append(log)
    c.validate('TraceHrirs', traces, jobs=8)


def C31(c):
    """Loading HRIR sets, SOFA files and SDM data."""
    import h5py
    from scipy.io import savemat
    rs = c.nprng(31)
    spa = c.spa
    traces = []
    for i in range(c.n(40, 300)):
        s = HrirSession(c)
        g, n = [2, 5, 12, 30][i % 4], [1, 3, 8, 2][i // 2 % 4]
        if i % 10 == 9:
            g = 1
        fs = [44100, 48000, 32000, 22050, 11025][i % 5]
        azi, zen = directions(rs, g)
        l, r = rs.randn(g, n), rs.randn(g, n)
        # SOFA: degrees, azimuth and elevation
        az = np.rad2deg(azi) % 360
        el = 90 - np.rad2deg(zen)
        if i % 3 == 0 and g > 1:
            az[0], el[0] = 0., -90.
            az[1], el[1] = 270., 90.
        f = os.path.join(c.tmp, 'h%d.sofa' % i)
        with h5py.File(f, 'w') as h:
            h['Data.IR'] = np.stack((l, r), 1)
            h['Data.SamplingRate'] = np.array([float(fs)])
            h['SourcePosition'] = np.stack((az, el, np.full(g, 1.2)), 1)
            h['ListenerPosition'] = np.zeros((1, 3))
        o, exc = call(spa.io.load_sofa_hrirs, f)
        if not exc:
            s.put(o, 1)
        s.ev('sofa', exc, to=1, az=fxa(az), el=fxa(el), l=fxa(l), r=fxa(r),
             fs=fs)
        # mat files
        f = os.path.join(c.tmp, 'h%d.mat' % i)
        whole = i % 6 == 1         # stored as whole numbers
        if whole:
            l, r, azi, zen = [np.round(9 * v).astype(np.int16)
                              for v in (l, r, azi, zen)]
        d = dict(hrir_l=l, hrir_r=r, azi=azi, zen=zen)
        d['fs' if i % 2 else 'SamplingRate'] = fs
        savemat(f, d)
        ask = fs if i % 4 else 96000
        to = len(s.obj) + 1
        o, exc = call(spa.io.load_hrirs, ask, f)
        if not exc:
            s.put(o, to)
        s.ev('mathrirs', exc, to=to, fsask=ask, kinds=[] if exc else sorted(
                set(v.dtype.kind for v in (o.left, o.right, o.azi, o.zen))),
             set=dict(l=fxa(l), r=fxa(r), azi=fxa(azi), zen=fxa(zen), fs=fs))
        # SDM data
        m = [1, 2, 7, 20][i % 4]
        p, a, z = rs.randn(m), rs.uniform(-3, 3, m), rs.uniform(0, 3, m)
        a[rs.rand(m) < .3] = np.nan
        z[rs.rand(m) < .3] = np.nan
        if whole:
            p, a, z = [np.round(np.nan_to_num(v)).astype(np.int32)
                       for v in (p, a, z)]
        f = os.path.join(c.tmp, 's%d.mat' % i)
        old = i % 2
        savemat(f, {'p' if old else 'h_ref': p,
                    'sdm_phi' if old else 'sdm_azi': a,
                    'sdm_theta' if old else 'sdm_zen': z, 'fs': fs})
        init = i % 3 != 2
        res, exc = call(spa.io.load_sdm, f, **({} if init else
                                               dict(init_nan=False)))
        s.log.append(dict(ev='sdm', exc=exc, init=init, p=fxa(p), azi=fxa(a),
                          zen=fxa(z), fs=fs,
                          fsgot=int(res[3]) if res else 0,
                          kinds=[v.dtype.kind for v in res[:3]] if res else [],
                          out=[fxa(v) for v in res[:3]] if res else []))
        traces.append(s.log)
    # order-limited sets come back as their SH coefficients
    for i in range(c.n(10, 60)):
        N = [0, 1, 2, 3, 1, 4, 2][i % 7]
        Q = [25, 12, 30][i % 3] if N < 3 else 45
        kind = ['real', 'complex', None][i % 3]
        azi, zen = directions(rs, Q)
        limited = i % 4 != 3
        if i % 5 == 3 and N:        # from in front only
            a = [0, .12, .45, .7, 1.][N]
            azi, zen = rs.uniform(-a, a, Q), 1.5 + rs.uniform(-a, a, Q)
        irs = spa.sph.sh_matrix(N + (not limited), azi, zen, 'real')
        if np.linalg.cond(irs) > [50, 5000][i % 5 == 3]:
            continue
        irs = irs @ rs.randn(2, irs.shape[1], [4, 1, 7][i % 3])
        fs = [48000, 44100][i % 2]
        f = os.path.join(c.tmp, 'n%d.sofa' % i)
        with h5py.File(f, 'w') as h:
            h['Data.IR'] = irs.transpose(1, 0, 2)
            h['Data.SamplingRate'] = np.array([float(fs)])
            h['SourcePosition'] = np.stack(
                (np.rad2deg(azi) % 360, 90 - np.rad2deg(zen),
                 np.full(Q, 1.)), 1)
        res, exc = call(spa.io.sofa_to_sh, f, N,
                        **({} if kind is None else dict(sh_type=kind)))
        traces.append([dict(ev='sofash', exc=exc, irs=fxa(irs), fs=fs, N=N,
                            kind=kind or 'real', azi=fxa(azi), zen=fxa(zen),
                            limited=limited, fsgot=int(res[1]) if res else 0,
                            out=[cxa(m) for m in res[0]] if res else [])])
    # the default sets, generated from SH coefficients
    from scipy.io import savemat
    lib, data = c.spa_in('dflt')
    deep = os.path.join(data, 'HRIRs', 'FABIAN', 'SphericalHarmonics')
    os.makedirs(deep)
    for i in range(c.n(3, 12)):
        N, nf = [1, 2, 0][i % 3], [9, 5, 13][i % 3]
        sh = rs.randn(2, (N + 1) ** 2, nf) + 1j * rs.randn(2, (N + 1) ** 2, nf)
        f = np.linspace(0, 22050, nf)[:, None]
        savemat(os.path.join(deep, 'FABIAN_DIR_measured_HATO_0.mat'), dict(
            SamplingRate=44100., SH=np.array([[(sh[0], sh[1], 0., 0., 0., f)]],
                                             dtype=[(k, object) for k in (
                    'coeffLeft', 'coeffRight', 'x', 'y', 'z', 'f')])))
        s = HrirSession(c)
        azi, zen = directions(rs, [5, 1, 3][i % 3])
        whole = i == 0
        if whole:      # loading what is not there makes it, on its own grid
            _, exc = call(lib.io.load_hrirs, 48000, jobs_count=1)
            azi, zen, _ = c.spa.grids.gauss(35)
        else:
            _, exc = call(lib.io.get_default_hrirs, azi, zen, jobs_count=1)
        pick = rs.permutation(len(azi))[:6]
        first = None
        for fs in (44100, 48000, 96000):
            to = len(s.obj) + 1
            h, exc2 = call(lib.io.load_hrirs, fs)
            want = dict(l=[], r=[])
            if not exc2:
                if whole:
                    size = h.left.shape[0]
                    h = lib.sig.HRIRs(h.left[pick], h.right[pick],
                                      h.azi[pick], h.zen[pick], h.fs)
                s.put(h, to)
                if first is None:
                    first = h
                want = {k: fxa([c.spa.process.resample_signal(
                    v, 44100, fs) if fs != 44100 else v for v in d])
                    for k, d in (('l', first.left), ('r', first.right))}
            s.ev('default', exc or exc2, to=to, n=len(azi), got=len(azi)
                 if not whole or exc2 else int(size),
                 azi=fxa(azi[pick] if whole else azi), fs=fs,
                 zen=fxa(zen[pick] if whole else zen), sh=[
                     cxa(m) for m in sh] if fs == 44100 else [], **want)
        for fs in (22050, 32000, 192000):
            _, exc = call(lib.io.load_hrirs, fs)
            s.log.append(dict(ev='nodefault', exc=exc))
        traces.append(s.log)
    for fs in (8000, 44100, 48000, 96000):
        h, exc = call(spa.io.load_hrirs, fs, 'dummy')
        azi, zen, _ = spa.grids.gauss(15)
        if exc:
            traces.append([dict(ev='dummy', exc=exc)])
            continue
        # every direction and its mirror image
        pair = [int(np.argmin(np.abs(np.exp(1j * azi) - np.exp(-1j * a)) +
                              np.abs(zen - z))) for a, z in zip(azi, zen)]
        traces.append([dict(
            ev='dummy', exc='', fs=fs, fsgot=int(h.fs), g=len(azi),
            azi=fxa(h.azi), zen=fxa(h.zen), gazi=fxa(azi), gzen=fxa(zen),
            size=[list(h.left.shape), list(h.right.shape)],
            pair=[k + 1 for k in pair],
            sums=[fxa(h.left.sum(1)), fxa(h.right.sum(1))])])
    c.validate('TraceHrirs', traces, jobs=8)
