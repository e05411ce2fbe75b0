"""Spectral, level and time tools, interaural measures, rigid sphere:
C35 - C40."""
import contextlib
import io

import numpy as np

from vlib import call, cxa, fx, fxa
from hrirs import directions
from sph import same


def C35(c):
    """Fractional octave bands and smoothing."""
    rs = c.nprng(35)
    pr = c.spa.process
    traces = []
    for i in range(c.n(36, 300)):
        n = [1, 3, 2, 1, 6][i % 5]
        fs = int(rs.choice([8000, 44100, 48000, 16000, 1000]))
        nout = int(rs.choice([33, 65, 129, 257])) if n < 3 else 129
        flow = float(fs * rs.uniform(.002, .08))
        fhigh = None if i % 3 == 0 else float(fs * rs.uniform(.1, .7))
        mode = ['energy', 'amplitude', 'energy', 'pressure'][i % 4]
        over = [.5, .5, .25, .4, .0][i // 3 % 5]
        slope = [3, 3, 1, 0, 4, 5, 7][i // 2 % 7]
        if i % 12 == 7:
            flow, fhigh, fs, nout = 62.5, 16000., [44100, 8000][i % 2], 257
        if i % 12 == 1:                # half a Hz at the top
            fs, fhigh = [11025, 22051][i // 12 % 2], None
        elif i % 12 == 10:             # the last edge just below the top
            fhigh = None
            flow = (fs / 2 - .5) / 2. ** (1 / (2 * n)) / 2. ** (
                [7, 3][n > 1] if n < 3 else [10, 20][n > 3])
        elif i % 12 == 11:             # narrow bands, fine lines
            n, fs, nout, over = 12, 16000, 1025, .5
            flow, fhigh = 2000., 6000.
        refuse = False
        kw = dict(mode=mode, overlap=over, slope_l=slope)
        if i % 9 == 5:
            kw = {}
            mode, over, slope = 'energy', .5, 3
        if i % 18 == 4:
            refuse, kw['mode'] = True, 'loudness'
        if i % 18 == 13:
            refuse, kw['overlap'] = True, .7
        out, exc = call(pr.frac_octave_filterbank, n, nout, fs, flow, fhigh,
                        **kw)
        traces.append([dict(ev='bank', exc=exc, refuse=refuse, n=n, fs=fs,
                            nout=nout, flow=fx(flow), fhigh=[] if fhigh is None
                            else fx(fhigh), mode='energy' if mode == 'energy'
                            else 'amplitude', overlap=fx(over), slope=slope,
                            g=[] if exc else fxa(out[0]),
                            ff=[] if exc else fxa(out[1]))])
    for i in range(c.n(24, 200)):
        k = int(rs.choice([1, 5, 17, 40, 64])) if i % 12 not in (
            5, 7) else [400, 257][i % 12 // 7]
        n = [1, 3, 6, 2][i % 4] if i % 12 != 5 else 1 + i // 12 % 2
        w = bool(i // 2 % 2)
        a = rs.randn(k)
        if i % 6 == 1:
            a = np.full(k, float(rs.randn()))
        elif i % 6 == 3:
            a = a + 1j * rs.randn(k)
        elif i % 6 == 5:
            a = rs.randint(-9, 10, k)
        arg = a.tolist() if i % 5 == 2 else a[None] if i % 5 == 3 else a
        a0 = a.copy()
        kw = {} if w and i % 3 else dict(WEIGHTED=w)
        out, exc = call(pr.frac_octave_smoothing, arg, n, **kw)
        e = dict(ev='smooth', exc=exc, n=n, weighted=w, a=[fxa(a0.real)],
                 same=same((a, a0)))
        if not exc:
            e['out'] = [fxa(np.real(out))]
            if np.iscomplexobj(a):
                e['a'].append(fxa(a0.imag))
                e['out'].append(fxa(np.imag(out)))
        traces.append([e])
    c.validate('TraceProc', traces)


def C36(c):
    """Resampling."""
    rs = c.nprng(36)
    pr = c.spa.process
    traces = []
    pairs = [(48000, 44100), (44100, 48000), (16000, 48000), (48000, 16000),
             (44100, 96000), (8000, 11025), (48000, 48000)]
    for i in range(c.n(28, 200)):
        f1, f2 = pairs[i % 7]
        g = int(np.gcd(f1, f2))
        unit = f1 // g
        C = [1, 2, 3][i % 3]
        n = unit * max(1, -(-700 // unit))
        n2 = n * f2 // f1
        amp, ph = rs.uniform(.2, 1, C), rs.uniform(-3, 3, C)
        fr = rs.uniform(.01, .35, C) * min(f1, f2)
        t = np.arange(n) / f1
        x = amp[:, None] * np.cos(2 * np.pi * fr[:, None] * t + ph[:, None])
        arg, want, tr, kw = x.copy(), [C, n2], False, {}
        if C == 1:
            arg, want = x[0].copy(), [n2]
        elif i % 2:
            arg, want, tr, kw = x.T.copy(), [n2, C], True, dict(axis=0)
        elif i % 4 == 0:
            kw = dict(axis=-1)
        k0 = arg.copy()
        out, exc = call(pr.resample_signal, arg, f1, f2, **kw)
        at = sorted(rs.choice(np.arange(int(.2 * n2), int(.8 * n2)), 8,
                              replace=False))
        e = dict(ev='resample', exc=exc, fs2=f2, amp=fxa(amp), phase=fxa(ph),
                 freq=fxa(fr), at=[int(k) for k in at], want=want,
                 shape=[] if exc else list(out.shape), tol=fx(2e-3), out=[],
                 same=same((arg, k0)))
        if not exc and e['shape'] == want:
            o = np.atleast_2d(out.T if tr else out)
            e['out'] = fxa(o[:, at])
        traces.append([e])
    # response sets
    for i in range(c.n(10, 60)):
        f1, f2 = pairs[i % 7]
        G, m = rs.randint(2, 6), [32, 64, 40, 37][i % 4]
        l, r = rs.randn(2, G, m)
        k0 = l.copy(), r.copy()
        kw = [{}, dict(jobs_count=1), dict(jobs_count=2),
              dict(jobs_count=None)][i % 4]
        out, exc = call(pr.resample_hrirs, l, r, f1, f2, **kw)
        each = [call(pr.resample_signal, v, f1, f2)[0]
                for v in list(l) + list(r)]
        traces.append([dict(ev='alone', exc=exc, out=[] if exc else
                            fxa(np.r_[out[0], out[1]]), each=fxa(each),
                            fsout=bool(not exc and out[2] == f2 and
                                       same((l, k0[0]), (r, k0[1]))))])
    # tone responses, both ears
    for i in range(c.n(6, 40)):
        f1, f2 = pairs[i % 6]
        unit = f1 // int(np.gcd(f1, f2))
        n = unit * max(1, -(-500 // unit))
        n2 = n * f2 // f1
        amp, ph = rs.uniform(.2, 1, 4), rs.uniform(-3, 3, 4)
        fr = rs.uniform(.01, .35, 4) * min(f1, f2)
        x = amp[:, None] * np.cos(2 * np.pi * fr[:, None] * np.arange(n) / f1 +
                                  ph[:, None])
        kw = dict(jobs_count=2) if i % 3 == 2 else {}
        out, exc = call(pr.resample_hrirs, x[:2], x[2:], f1, f2, **kw)
        at = sorted(rs.choice(np.arange(int(.2 * n2), int(.8 * n2)), 8,
                              replace=False))
        traces.append([dict(ev='resample', exc=exc, fs2=f2, amp=fxa(amp),
                            phase=fxa(ph), freq=fxa(fr), same=True,
                            at=[int(k) for k in at], want=[4, n2],
                            shape=[] if exc else
                            list(np.r_[out[0], out[1]].shape), tol=fx(2e-3),
                            out=[] if exc else
                            fxa(np.r_[out[0], out[1]][:, at]))])
    # spectra
    for i in range(c.n(14, 80)):
        f1, f2 = pairs[i % 6]
        unit = f1 // int(np.gcd(f1, f2))
        n = 2 * unit * max(1, -(-200 // (2 * unit)))
        if (n * f2 // f1) % 2:
            n *= 2
        n2 = n * f2 // f1
        w = rs.uniform(2.5, 5) / min(f1, f2)
        t0 = n / f1 * rs.uniform(.4, .6)

        def pulse(f, k):
            return np.exp(-.5 * ((np.arange(k) / f - t0) / w) ** 2)
        x = np.fft.rfft(pulse(f1, n))
        arg, want, kw = x, [n2 // 2 + 1], {}
        if i % 3 == 1:
            arg, want = np.stack([x, 2 * x]), [2, n2 // 2 + 1]
        elif i % 3 == 2:
            arg, want = np.stack([x, 2 * x], -1), [n2 // 2 + 1, 2]
            kw = dict(axis=0)
        k0 = arg.copy()
        out, exc = call(pr.resample_spectrum, arg, f1, f2, **kw)
        top = int(n2 // 2 * min(1, f1 / f2) * .8)
        q = sorted(rs.choice(top, min(top, 6), replace=False))
        e = dict(ev='respec', exc=exc, pulse=fxa(pulse(f2, n2)), want=want,
                 shape=[] if exc else list(out.shape), out=[],
                 lines=[int(k) for k in q], tol=fx(5e-3),
                 same=same((arg, k0)))
        if not exc and e['shape'] == want:
            o = out if i % 3 == 0 else out[1] / 2 if i % 3 == 1 else \
                out[:, 1] / 2
            e['out'] = cxa(o[q])
        traces.append([e])
    c.validate('TraceProc', traces)


def C37(c):
    """Levels."""
    rs = c.nprng(37)
    pr, u = c.spa.process, c.spa.utils
    traces = []
    for i in range(c.n(60, 500)):
        log = []
        k = rs.randint(1, 8)
        x = rs.randn(k) * 10 ** rs.uniform(-3, 3)
        x[rs.rand(k) < .15] = 0
        if i % 6 == 2:
            x = np.rint(x).astype(int)
        z = x * np.exp(1j * 2) if i % 6 == 4 else x
        arg = z.tolist() if i % 3 == 0 else z
        if k == 1 and i % 2:
            arg = z.tolist()[0]
        power = bool(i // 2 % 2)
        kw = dict(power=power) if power or i % 4 else {}
        z0 = z.copy()
        out, exc = call(u.db, arg, **kw)
        log.append(dict(ev='db', exc=exc, x=fxa(x), power=power,
                        out=[] if exc else fxa(np.atleast_1d(out)),
                        minus=[] if exc else
                        [bool(v == -np.inf) for v in np.atleast_1d(out)],
                        same=same((z, z0))))
        d = rs.uniform(-100, 60, k)
        if i % 6 == 2:
            d = np.rint(d).astype(int)
        arg = d.tolist() if i % 3 == 0 else d
        if k == 1 and i % 2:
            arg = d.tolist()[0]
        d0 = d.copy()
        deep = rs.uniform(-300, -120, k)        # there and back
        out, exc = call(lambda v: u.db(u.from_db(v, **kw), **kw),
                        deep.tolist() if i % 3 == 0 else deep)
        log.append(dict(ev='dbback', exc=exc, x=fxa(deep),
                        out=[] if exc else fxa(np.maximum(out, -1e6))))
        out, exc = call(u.from_db, arg, **kw)
        log.append(dict(ev='fromdb', exc=exc, x=fxa(d), power=power,
                        out=[] if exc else fxa(np.atleast_1d(out)),
                        same=same((d, d0))))
        # rms along an axis
        m, n = rs.randint(1, 5), rs.randint(1, 30)
        v = rs.randn(m, n) * 10 ** rs.uniform(-2, 2)
        if i % 4 == 1:
            v = v + 1j * rs.randn(m, n)
        arg, kw2 = v, {}
        if m == 1 and i % 2:
            arg = v[0]
        elif i % 4 == 3:
            arg, kw2 = v.T.copy(), dict(axis=0)
        elif i % 4 == 0:
            kw2 = dict(axis=1)
        if i % 5 == 4:
            arg = arg.tolist()
        a0 = np.array(arg)
        out, exc = call(u.rms, arg, **kw2)
        log.append(dict(ev='rms', exc=exc, re=fxa(v.real), im=fxa(v.imag),
                        out=[] if exc else fxa(np.atleast_1d(np.real(out))),
                        same=same((arg, a0))))
        b, n = rs.randint(1, 6), rs.randint(1, 40)
        x = rs.randn(b, n)
        if i % 3 == 1:
            x = np.abs(x + 1j)
        w = rs.uniform(10, 1000, b)
        fs = int(rs.choice([8000, 48000]))
        power = bool(i % 2)
        k0 = x.copy(), w.copy()
        kw, y = dict(power=True) if power else {}, x
        if i % 6 in (2, 3):            # bands along the other dimension
            kw['axis'], y = 0, x.T
        elif i % 6 > 3:
            kw.update(axis=[1, -1][i % 2], power=power)
        if i % 8 in (2, 5):            # complex spectra: only magnitudes count
            y = y * np.exp(1j * rs.uniform(-3, 3, y.shape))
        out, exc = call(pr.subband_levels, y, w, fs, **kw)
        log.append(dict(ev='levels', exc=exc, x=fxa(x), width=fxa(w), fs=fs,
                        power=power, out=[] if exc else fxa(out),
                        same=same((x, k0[0]), (w, k0[1]))))
        n = rs.randint(1, 40)
        p = rs.randn(n) * np.exp(-np.arange(n) * rs.uniform(0, .3))
        p[0] = [p[0], 0., 3.][i % 3]
        if i % 5 == 1:         # a long way down
            n = 6
            p = 1000. * 10 ** (-np.sort(rs.uniform(0, 5.5, n)))
        if np.any(p):
            p0 = p.copy()
            p = p * [1, 2. ** -24, 1, 2. ** 9][i % 4]    # undone in the log
            p0 = p.copy()
            out, exc = call(pr.energy_decay, p.tolist() if i % 4 == 2 else p)
            p, p0 = [v / [1, 2. ** -24, 1, 2. ** 9][i % 4] for v in (p, p0)]
            log.append(dict(ev='decay', exc=exc, p=fxa(p),
                            out=[] if exc else fxa(np.maximum(out, -1e6)),
                            same=same((p, p0))))
        n, m, ch = rs.randint(2, 30), rs.randint(2, 30), rs.randint(1, 4)
        x = rs.randn(n, ch) * 10 ** rs.uniform(-2, 1)
        y = rs.randn(m, ch) * 10 ** rs.uniform(-2, .2) * \
            rs.uniform(.1, 1, ch)
        k0 = x.copy(), y.copy()
        ar = (x, y)
        if ch == 1 and i % 2:
            ar = (x[:, 0], y[:, 0])
        if i % 5 == 3:
            ar = tuple(v.tolist() for v in ar)
        if i % 4 == 2 and i % 5 != 3:      # whatever the input level was
            ar = (ar[0] * [2. ** -22, 2. ** 15][i // 4 % 2], ar[1])
        out, exc = call(pr.match_loudness, *ar)
        log.append(dict(ev='loud', exc=exc, x=fxa(x), target=fxa(y),
                        out=[] if exc else
                        fxa(np.reshape(out, (len(out), -1))),
                        same=same((x, k0[0]), (y, k0[1]))))
        k = rs.randint(1, 9)
        g = rs.randn(k) * 10 ** rs.uniform(-1, 1.3)
        if i % 4 == 1:
            g = np.rint(g).astype(int)
        thr = float([1, 2.5, rs.uniform(.1, 5)][i % 3])
        arg = g.tolist() if i % 3 == 2 else g
        if k == 1 and i % 2:
            arg = float(g[0])
        if k % 2 == 0 and i % 4 == 2:
            arg = g.reshape(2, -1)
        g0 = g.copy()
        out, exc = call(pr.gain_clipping, arg, thr)
        log.append(dict(ev='clipgain', exc=exc, g=fxa(g), thr=fx(thr),
                        out=[] if exc else fxa(np.ravel(out)),
                        shaped=bool(not exc and np.shape(out) ==
                                    np.shape(arg)), same=same((g, g0))))
        traces.append(log)
    c.validate('TraceProc', traces)


def C38(c):
    """Filters in time, arrays and channels."""
    rs = c.nprng(38)
    pr, u = c.spa.process, c.spa.utils
    traces = []
    for i in range(c.n(40, 300)):
        N = [1, 3, 2, 5, 0, 7, 4, 10, 14, 19, 17][i % 11]
        d = [N / 2 + rs.uniform(-1, 1), float(rs.randint(0, N + 1)),
             N / 2 + rs.uniform(-1, 1), rs.uniform(0, N)][i % 4]
        h, exc = call(pr.lagrange_delay, N, d)
        log = [dict(ev='lagrange', exc=exc, N=N, d=fx(d),
                    h=[] if exc else fxa(h))]
        N = i if i % 20 != 13 else [600, 513][i // 20 % 2]
        w, exc = call(pr.half_sided_Hann, N)
        log.append(dict(ev='halfhann', exc=exc, N=N,
                        out=[] if exc else fxa(w)))
        # stack
        m, n = rs.randint(1, 5), rs.randint(1, 5)
        kind = i % 6
        a, b = rs.randn(m, n), rs.randn(m, n)
        refuse, down = False, True
        if kind == 0:                       # two vectors become two rows
            n += 1
            a, b = rs.randn(n), rs.randn(n)
            want = a[None], b[None]
        elif kind == 1:                     # columns side by side
            m += 1
            a, b = rs.randn(m, 1), rs.randn(m, 1)
            want, down = (a, b), False
        elif kind == 2:                     # rows below each other
            n = m + rs.randint(1, 4)
            a, b = rs.randn(m, n), rs.randn(rs.choice([m, 1]), n)
            if len(b) != m:
                b = rs.randn(m, n)
            want = a, b
        elif kind == 3:
            n = max(1, m - 1)
            m = n + rs.randint(1, 4)
            a, b = rs.randn(m, n), rs.randn(m, n)
            want, down = (a, b), False
        elif kind == 4:
            a, b = rs.randn(m, n), rs.randn(m + 1, n + 1)
            want, refuse = (a, b), True
        else:
            a, b = rs.randn(m, m), rs.randn(m, m)
            want, refuse = (a, b), True
        k0 = a.copy(), b.copy()
        out, exc = call(u.stack, a, b)
        o = []
        if not exc:
            rows = len(want[0]) + len(want[1]) if down else len(want[0])
            o = fxa(np.reshape(out, (rows, -1)))
        log.append(dict(ev='stack', exc=exc, refuse=refuse, down=down,
                        a=fxa(want[0]), b=fxa(want[1]), out=o,
                        same=same((a, k0[0]), (b, k0[1]))))
        # one dimension
        shp = [(), (1,), (4,), (1, 5), (6, 1), (2, 3), (1, 1, 1), (1, 3, 1),
               (2, 1, 2), (2, 2)][i % 10]
        a = rs.randint(-9, 10, shp)
        arg = a.tolist() if i % 3 else a
        out, exc = call(u.asarray_1d, arg)
        log.append(dict(ev='as1d', exc=exc, shape=list(shp),
                        flat=[int(v) for v in np.ravel(a)],
                        out=[] if exc else [int(v) for v in np.ravel(out)],
                        outshape=[] if exc else list(np.shape(out))))
        m, n = [3, 1, 360, 2, 361, 5][i % 6], rs.randint(1, 5)
        a, b = rs.randint(-99, 100, (2, m, n)).astype(float)
        sizes = []
        if i % 12 == 3:
            b = b[:1]
            sizes = [1]
        if i % 12 == 5:
            b = np.c_[b, b]
            sizes = [2]
        ssr = i % 12 in (2, 4, 6, 8)
        za, zb = a, b
        if i % 4 == 1:                      # spectra
            za, zb = [v * (1 + 2j) for v in (a, b)]
        k0 = za.copy(), zb.copy()
        out, exc = call(u.interleave_channels, za, zb,
                        **(dict(style='SSR') if ssr else {}))
        for part in [np.real, np.imag][:1 + (i % 4 == 1)]:
            log.append(dict(ev='interleave', exc=exc, sizes=sizes, ssr=ssr,
                            l=fxa(part(za)), r=fxa(part(zb)),
                            out=[] if exc else fxa(part(out)),
                            same=same((za, k0[0]), (zb, k0[1]))))
        sh = [(3, 4), (1,), (7,), (2, 3, 2), ()][i % 5]
        a = rs.randn(*sh)
        b = a + rs.randn(*sh) * [0, 1e-9, 1e-3][i % 3]
        kw = dict(msg='what') if i % 4 < 2 else {}
        lim = [1e-6, 1e-12, 1e-1][i // 3 % 3]
        if lim != 1e-6:
            kw['test_lim'] = lim
        if i % 7 > 4:
            kw['axis'] = [0, -1][i % 2]
        if i % 6 == 5:
            kw['VERBOSE'] = False
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            try:
                out, exc = u.test_diff(np.array(a).tolist() if i % 2 else a, b,
                                       **kw), ''
            except Exception as x:
                out, exc = None, type(x).__name__
        dif = np.sum(np.abs(a - b))
        txt = buf.getvalue()
        log.append(dict(ev='diff', exc=exc, a=fxa(np.ravel(a)),
                        b=fxa(np.ravel(b)),
                        out=[] if exc else fx(out),
                        spoke=not txt if i % 6 == 5 else
                        ('Close' in txt) == bool(dif <= lim)
                        and ('what' in txt) == ('msg' in kw)))
        traces.append(log)
    for i in range(c.n(14, 80)):
        fs = [1000, 8000, 44100][i % 3]
        non, noff = int(rs.randint(12, 40)), int(rs.randint(0, 30))
        noff = 0 if i % 7 == 3 else noff
        reps = int(rs.randint(1, 4))
        nf = int([0, 1, 2, 5, non // 2, non * 3 // 4, non][rs.randint(7)])
        pink, norm = bool(i % 2), bool(i // 2 % 2)
        ar = ((non + .3) / fs, (noff + .3) / fs if noff else 0, fs)
        seed = rs.randint(2 ** 31)

        def run(**k):
            np.random.seed(seed)
            v, x = call(pr.pulsed_noise, *ar, **dict(kw, **k))
            return v, x
        kw = dict(reps=reps, t_fade=(nf + .3) / fs, pink_noise=pink,
                  normalize=norm)
        if nf == 0 and i % 2:
            kw['t_fade'] = 0
        out, exc = run()
        e = dict(ev='pulse', exc=exc, non=non, noff=noff, reps=reps, nfade=nf,
                 pink=pink, normalize=norm)
        if not exc:
            again = run()[0]
            plain = run(normalize=False)[0]
            raw = run(normalize=False, t_fade=0)[0]
            white = run(normalize=False, t_fade=0, pink_noise=False)[0]
            ok = all(v is not None and np.shape(v) == np.shape(out)
                     for v in (again, plain, raw, white))
            e.update(out=fxa(out), repro=bool(ok and same((again, out))),
                     raw=fxa(raw) if ok else [], white=fxa(white) if ok else
                     [], gain=fx(np.max(np.abs(plain)) if norm and ok
                                 else 1))
        traces.append([e])
    c.validate('TraceProc', traces)


def hset(c, l, r, azi, zen, fs):
    return c.spa.sig.HRIRs(l.copy(), r.copy(), azi.copy(), zen.copy(), fs)


def C39(c):
    """Interaural differences, common transfer function."""
    rs = c.nprng(39)
    pr = c.spa.process
    traces = []
    for i in range(c.n(24, 200)):
        G, m = rs.randint(2, 8), [128, 256, 200][i % 3]
        fs = [44100, 48000, 96000][i % 3]
        azi, zen = directions(rs, G)
        env = np.exp(-np.arange(m) / 20.)
        l = rs.randn(G, m) * env
        gain = rs.choice([-1, 1], G) * 10 ** rs.uniform(-1, 1, G)
        todb = bool(i % 2)
        kw = {} if todb and i % 4 == 1 else dict(TODB=todb)
        if i % 5 == 2 or fs > 5e4 and i % 2:
            kw['f_cut'] = (500., 8e3)
        h = hset(c, l, l * gain[:, None], azi, zen, fs)
        level = np.zeros(G)
        if not todb:                # against silence: the level itself
            q, _ = call(pr.ilds_from_hrirs, hset(c, l, 0 * l, azi, zen, fs),
                        **kw)
            level = np.zeros(G) if q is None else q
        out, exc = call(pr.ilds_from_hrirs, h, **kw)
        log = [dict(ev='ildgain', exc=exc, gain=fxa(gain), todb=todb,
                    level=fxa(level), out=[] if exc else fxa(out),
                    same=same((h.left, l), (h.right, l * gain[:, None])))]

        # strong and equal outside the band
        ga = np.sign(gain) * np.clip(np.abs(gain), .4, 4)
        lo, hi = kw.get('f_cut', (1e3, 20e3))
        t = (np.arange(2048) - 1024) / fs
        inside = np.exp(-(t / .002)**2) * np.cos(2 * np.pi * lo * 2.5 * t)
        out_f = hi * 2.5 if hi < 1e4 and (fs > 5e4 or rs.rand() < .5) \
            else lo / 9
        outside = 3 * np.exp(-(t / .006)**2) * np.cos(2 * np.pi * out_f * t)
        out, exc = call(pr.ilds_from_hrirs, hset(
            c, inside + outside + np.zeros((G, 1)),
            ga[:, None] * inside + outside, azi, zen, fs),
            **dict(kw, TODB=True))
        log.append(dict(ev='ildband', exc=exc, gain=fxa(ga),
                        out=[] if exc else fxa(out)))

        # everything within the band counts
        for f_in in (lo * 1.6, min(hi * .75, fs * .4)):
            tone = 1.5 * np.exp(-(t / .004)**2) * np.cos(2 * np.pi * f_in * t)
            mid = np.exp(-(t / .004)**2) * np.cos(
                2 * np.pi * np.sqrt(lo * hi) * t)
            x, y = mid + tone + np.zeros((G, 1)), mid + np.zeros((G, 1))
            out, exc = call(pr.ilds_from_hrirs, hset(c, x, y, azi, zen, fs),
                            **dict(kw, TODB=True))
            log.append(dict(ev='ildinband', exc=exc, tone=fx(1.5), n=int(G),
                            out=[] if exc else fxa(out)))

        def sym(f, r, factor, k, **kw):
            p = rs.permutation(G)
            o = [call(f, hset(c, a, b, azi, zen, fs), **kw) for a, b in
                 ((l, r), (r, l), (k * l, k * r), (l[p], r[p]))]
            log.append(dict(ev='earswap', exc=''.join(x for _, x in o),
                            factor=fx(factor), perm=[int(v) + 1 for v in p],
                            **({} if any(x for _, x in o) else dict(
                                out=fxa(o[0][0] * sc), swapped=fxa(
                                    o[1][0] * sc), scaled=fxa(o[2][0] * sc),
                                permuted=fxa(o[3][0] * sc)))))
        sc = 1.
        r = rs.randn(G, m) * np.exp(-np.arange(m) / 15.)
        k = float(rs.uniform(.2, 4)) if i % 3 else 1e-4
        sym(pr.ilds_from_hrirs, r, 1. if todb else k, k, **kw)
        # both parts lag, each its own way: only the band counts
        t = (np.arange(1024) - 512) / fs
        two = [np.exp(-(t / w)**2) * np.cos(2 * np.pi * t * f)
               for f, w in ((500., .0025), (6e3, .0004))]
        lags = rs.randint(-14, 15, (2, G))
        up = [1, 4, 2][i % 3]
        for b, band in enumerate([(100, 1.5e3), (4e3, 9e3)]):
            x = np.array([two[0] + two[1] for g in range(G)])
            y = np.array([np.roll(two[0], g) + np.roll(two[1], k)
                          for g, k in lags.T])
            out, exc = call(pr.itds_from_hrirs, hset(c, x, y, azi, zen, fs),
                            upsample=up, **(dict(f_cut=band) if b or i % 2
                                            else {}))
            log.append(dict(ev='itdlag', exc=exc, fs=fs, up=up, same=True,
                            lag=[int(v) for v in lags[b]],
                            out=[] if exc else fxa(out)))
        # lags
        m = [512, 511][i % 2]
        lag = rs.randint(-28, 29, G)
        lag[0] = 0 if i % 3 == 0 else lag[0]
        up = [4, 4, 2, 8, 1, 1, 3, 3][i % 8]
        l, r = np.zeros((2, G, m))
        w = rs.uniform(4, 9)
        base = np.exp(-.5 * ((np.arange(m) - 200) / w) ** 2)
        for g in range(G):
            a = 150 + rs.randint(60) - 200
            l[g] = np.roll(base, a)
            r[g] = np.roll(base, a + lag[g]) * rs.uniform(.2, 1) * \
                rs.choice([-1, 1])
        quiet = [1, 1e-4, 1, 50][i // 2 % 4]
        l, r = quiet * l, quiet * r
        h = hset(c, l, r, azi, zen, fs)
        kw = dict(upsample=up) if up != 4 or i % 2 else {}
        if i % 5 == 3:
            kw['f_cut'] = (200, 2e3)
        out, exc = call(pr.itds_from_hrirs, h, **kw)
        log.append(dict(ev='itdlag', exc=exc, fs=fs, up=up,
                        lag=[int(v) for v in lag],
                        out=[] if exc else fxa(out),
                        same=same((h.left, l), (h.right, r))))
        # a louder pair above the band, the other way round
        t = (np.arange(m) - 256) / fs
        high = 1.5 * np.exp(-(t / .0006)**2) * np.cos(2 * np.pi * t * 11e3)
        high *= quiet
        hl = l + np.array([np.roll(high, g) for g in lag])
        out, exc = call(pr.itds_from_hrirs, hset(c, hl, r + high, azi, zen,
                                                 fs), **kw)
        log.append(dict(ev='itdlag', exc=exc, fs=fs, up=up, same=True,
                        lag=[int(v) for v in lag],
                        out=[] if exc else fxa(out)))
        sc = 1000.
        # a lopsided pair, so that no two peaks tie
        r = r + .5 * np.roll(r, 17, axis=1)
        sym(pr.itds_from_hrirs, r, 1., k, **kw)
        traces.append(log)
    # common transfer function
    for i in range(c.n(16, 120)):
        log = []
        G, m = 40, [128, 256, 32][i % 4 if i % 4 < 2 else i // 4 % 3]
        fs = [44100, 48000][i // 2 % 2]
        azi, zen, gw = c.spa.grids.gauss(4)
        G = len(azi)
        minph = i % 3 != 2
        kw = dict(MIN_PHASE=minph) if not minph or i % 2 else {}
        wkw = dict(grid_weights=gw) if i % 4 < 2 else {}
        l, r = np.zeros((2, G, m))
        at = rs.randint(0, m // 2, (2, G))
        gn = rs.uniform(.2, 1.5, (2, G))
        l[np.arange(G), at[0]] = gn[0]
        r[np.arange(G), at[1]] = gn[1]

        def ctf(l, r, azi=azi, zen=zen, **k):
            h = hset(c, l, r, azi, zen, fs)
            o, x = call(pr.hrirs_ctf, h, **dict(kw, **k))
            return o, x, same((h.left, l), (h.right, r))
        out, exc, keep = ctf(l, r, **wkw)
        pk = 1 if minph or exc else int(np.argmax(np.abs(out))) + 1
        log.append(dict(ev='ctf', kind='flat', exc=exc, taps=m, peak=pk,
                        out=[] if exc else fxa(out), same=keep,
                        tol=fx(1e-6 if minph else .05)))
        # a common colour
        col = [np.array([1, .8]), np.array([1, -.7]),
               np.array([1, 0, .5]), np.array([.6, .5, .4])][i // 2 % 4]
        lim = [(125., 10e3), (250., 5e3), (125., 21e3)][i // 2 % 3]
        if m == 32:                # too short for more than a gentle slope
            lim = (125., 10e3)
            col = np.array([1, [.5, -.3][i % 2]])
        lkw = dict(freq_lims=lim) if lim[1] != 10e3 else {}
        if lim[1] > 2e4:
            col = np.array([1, -.4])
        cl, cr = [np.apply_along_axis(lambda v: np.convolve(v, col)[:m], 1, v)
                  for v in (l, r)]
        out, exc, keep = ctf(cl, cr, **wkw, **lkw)
        nfft = 512
        f = np.arange(nfft // 2) * fs / nfft
        top = .7 if lim[1] < 2e4 else .92
        ok = np.where((f > 400) & (f < top * lim[1]))[0]
        q = sorted(rs.choice(ok, 7, replace=False))
        ref = int(np.argmin(abs(f - 1000)))
        log.append(dict(ev='ctf', kind='invert', exc=exc, taps=m, same=keep,
                        out=[] if exc else fxa(out), common=fxa(col),
                        nfft=nfft, lines=[int(v) for v in q], ref=ref,
                        tol=fx(1.25)))
        # what must not matter
        nl, nr = [rs.randn(G, m) * np.exp(-np.arange(m) / 12.) for _ in '12']
        base, exc, _ = ctf(nl, nr, **wkw)
        k = float(rs.uniform(.1, 5)) if i % 2 else 1e-5
        p = rs.permutation(G)
        pw = dict(grid_weights=gw[p]) if wkw else {}
        for o in (ctf(nr, nl, **wkw), ctf(k * nl, k * nr, **wkw),
                  ctf(nl[p], -nr[p], azi=azi[p], zen=zen[p], **pw),
                  ctf(nl, nr, grid_weights=gw * (k if wkw else 1.)),
                  ctf(nl, nr, freq_lims=(125, 10e3), **wkw)):
            log.append(dict(ev='ctf', kind='like', exc=exc + o[1], taps=m,
                            other=[] if exc else fxa(base), same=o[2],
                            out=[] if o[1] else fxa(o[0])))
        traces.append(log)
    c.validate('TraceProc', traces)


def C40(c):
    """The rigid sphere."""
    rs = c.nprng(40)
    sp = c.spa.sph
    traces = []
    for i in range(c.n(40, 300)):
        log = []
        k = rs.randint(1, 6)
        n = i % 9
        z = rs.uniform(.1, [3, 12, 25, 40][i % 4], k)
        if n == 8:
            z += 1
        if i % 11 == 7:
            n = [10, 13, 17][i // 11 % 3]
            z = rs.uniform(n, 2 * n, k)
        der = bool(i // 2 % 2)
        arg = z.tolist() if i % 4 == 3 else float(z[0]) if k == 1 else z
        kw = dict(derivative=der) if der or i % 4 else {}
        out, exc = call(sp.spherical_hn2, n, arg, **kw)
        log.append(dict(ev='hn2', exc=exc, n=n, z=fxa(z), der=der,
                        out=[] if exc else cxa(np.atleast_1d(out))))
        ty = ['rigid', 'open', 'rigid', 'open', 'soft'][i % 5]
        kw = {} if ty == 'rigid' and i % 2 else dict(sphere_type=ty)
        z0 = z.copy()
        out, exc = call(sp.mode_strength, n, z if k > 1 else float(z[0]), **kw)
        log.append(dict(ev='mode', exc=exc, n=n, z=fxa(z), type=ty,
                        out=[] if exc else
                        cxa(np.atleast_1d(out) / (4 * np.pi * 1j ** n)),
                        same=same((z, z0))))
        N = [0, 1, 3, 5, 9][i % 5]
        if i % 11 == 7:
            N = [12, 8, 20][i // 11 % 3]
        w, wl = None, []
        if i % 3:
            w = rs.uniform(0, 1.5, N + 1)
            wl = fxa(w)
            if i % 6 == 4:
                w = w.tolist()
        if i % 8 == 6:
            z = np.arange(1, k + 1)
        arg = z.tolist() if i % 4 == 1 else z
        k0 = z.copy()
        out, exc = call(sp.pressure_on_sphere, N, arg,
                        **({} if w is None else dict(weights=w)))
        log.append(dict(ev='sphere', exc=exc, N=N, z=fxa(z), w=wl,
                        out=[] if exc else fxa(out), same=same((z, k0))))
        f = np.sort(rs.uniform(30, [3000, 8000, 18000, 23900.][i % 4], k))
        if i % 4 == 2:
            f[0] = 0.
            if k == 1:
                f[0] = 500.
        if i % 5 == 3:
            f = f[::-1].copy()
        if i % 6 == 5:
            f = np.rint(f).astype(int)
        r, kw = .0875, {}
        if i % 3 == 0:
            r = float(rs.uniform(.04, [.12, .17][i // 3 % 2]))
            kw['r_0'] = r
        if w is not None:
            w = np.array(w) + .05
            w[0] = 1.
            kw['w_taper'] = w
            wl = fxa(w)
        arg = f.tolist() if i % 7 == 4 else f
        k0 = f.copy()
        out, exc = call(sp.binaural_coloration_compensation, N, arg, **kw)
        log.append(dict(ev='compensate', exc=exc, N=N, f=fxa(f), r=fx(r),
                        w=wl, out=[] if exc else fxa(out),
                        same=same((f, k0))))
        traces.append(log)
    c.validate('TraceProc', traces)
