"""Parametric tools: C20, C32, C33, C34."""
import numpy as np

from vlib import call, fx, fxa
from hrirs import directions
from setup import random_layout
from sph import awkward, same


# ------------------------------------------------------------------------ C20
def covariance(rs, L, k, kind, cplx=False):
    """Hermitian, k strong eigenvalues over a floor."""
    q, _ = np.linalg.qr(rs.randn(L, L) + (1j * rs.randn(L, L) if cplx else 0))
    floor = rs.uniform(.5, 1) if kind != 1 else 0.
    w = np.full(L, floor) if kind != 2 else \
        np.sort(rs.uniform(.05, 2, L))
    if kind == 3:
        w = np.sort(rs.uniform(.9, 1, L))
    if k:
        w[L - k:] = np.sort(rs.uniform(10, 60, k)) * \
            (1 if kind != 2 else rs.uniform(1, 3))
    S = (q * w) @ q.conj().T
    return (S + S.conj().T) / 2


def posdef(rs, L, kind, cplx=False):
    if kind == 0:
        return np.diag(rs.uniform(.3, 3, L)) + (0j if cplx else 0)
    q, _ = np.linalg.qr(rs.randn(L, L) + (1j * rs.randn(L, L) if cplx else 0))
    w = 10 ** rs.uniform([-1.5, -7.5][kind == 3], .5, L)
    S = (q * w) @ q.conj().T
    return (S + S.conj().T) / 2


def fold(A):
    """Complex matrix as a real one twice its size."""
    A = np.asarray(A)
    if not np.iscomplexobj(A):
        return fxa(A)
    return fxa(np.block([[A.real, -A.imag], [A.imag, A.real]]))


def foldrows(W, cplx):
    """Rows of weights, conjugated: [re, -im]."""
    W = np.asarray(W)
    return fxa(np.c_[W.real, -W.imag] if cplx else W)


def foldvecs(V):
    """Columns v as (re, im) and (-im, re)."""
    if not np.iscomplexobj(V):
        return fxa(V)
    u = np.r_[V.real, V.imag], np.r_[-V.imag, V.real]
    return fxa(np.stack(u, 2).reshape(2 * len(V), -1))


def C20(c):
    """Covariance analysis and adaptive beamformers."""
    rs = c.nprng(20)
    pa = c.spa.parsa
    traces = []
    for i in range(c.n(60, 500)):
        log = []
        L = [4, 9, 4, 16, 9, 1][i % 6]
        if i % 29 == 3:
            L = [25, 36][i // 29 % 2]
        N = int(np.sqrt(L)) - 1
        k = rs.randint(0, L + 1) if L > 1 else i // 6 % 2
        cplx = i % 5 == 2 and L < 25       # Hermitian
        fo = dict(fold=1 + cplx)
        S = covariance(rs, L, k, i // 6 % 4, cplx) * (1 if i % 7 else 20.)
        w, V = np.linalg.eigh(S)

        def spectrum():
            return dict(fo, V=foldvecs(V), w=fxa(np.repeat(w, 1 + cplx)))
        spec = spectrum()
        if L > 1:
            a = [None, 1.5, 1.2, 3.][i % 4]
            ar, kw, S0, Sl = (S,), {}, S.copy(), fold(S)
            if a is not None:
                kw['a'] = a
                if i // 4 % 3 == 1 and np.var(w) > .1:   # close to the limit
                    f = np.sqrt(a * [1.1, .9][i // 12 % 2] / np.var(w))
                    S, w = S * f, w * f
                    S0, Sl, spec = S.copy(), fold(S), spectrum()
                    ar = (S,)
            if i % 3 == 1:                 # eigenvalues given
                ar, Sl = ([],), []
                kw['w'] = w.tolist() if i % 2 else w.copy()
            out, exc = call(pa.estimate_num_sources, *ar, **kw)
            log.append(dict(ev='numsrc', exc=exc, S=Sl,
                            a=[] if a is None else fx(a),
                            out=-1 if exc else int(out),
                            same=same((S, S0), (kw.get('w', w), w)), **spec))
        # spectra by hand: one step about the default limit, noise of any size
        n = [4, 9, 16, 25, 36, 2][i % 6]
        up_n = rs.randint(1, n)
        floor = [1., 20., 1e-5, 3e-8, 1e-7][i // 2 % 5]
        v = floor * (1 + .01 * np.sort(rs.rand(n)))
        up = (1 + 2 / n) * [1.03, .97, 4.][i % 3]
        if floor < 1:
            up = [30., (1 + 2 / n) * 1.03][i % 2]
            v[:(n - up_n) // 2 + 1] /= 3
            v[n - up_n:] = 12.
        v[n - up_n:] *= up
        if n - up_n > 1 and i % 4 == 0:      # a jump that is no jump
            v[(n - up_n) // 2:] *= 1 + 1.8 / n
        v = np.round(v, 12)
        out, exc = call(pa.estimate_num_sources, None, w=v.copy())
        log.append(dict(fo, ev='numsrc', exc=exc, S=[], a=[],
                        out=-1 if exc else int(out), same=True, V=[],
                        w=fxa(np.repeat(v, 1 + cplx))))
        cut = rs.randint(0, L) if i % 3 else None
        S0 = S.copy()
        if L > 1 or cut is not None:
            out, exc = call(pa.separate_cov, S,
                            **({} if cut is None else dict(num_cut=int(cut))))
            log.append(dict(ev='separate', exc=exc, S=fold(S),
                            cut=-1 if cut is None else int(cut),
                            pp=[] if exc else fold(out[0] + 0 * S),
                            nn=[] if exc else fold(out[1] + 0 * S),
                            same=same((S, S0)), **spec))
        if L > 1 and i % 4 == 1 and cut:   # an estimate, not a covariance
            Sk, wk = S, w
            S = S - (w[L - cut - 1] + .3) * np.eye(L)
            w = w - (w[L - cut - 1] + .3)
            out, exc = call(pa.separate_cov, S.copy(), num_cut=int(cut))
            log.append(dict(ev='separate', exc=exc, S=fold(S), cut=int(cut),
                            pp=[] if exc else fold(out[0] + 0 * S),
                            nn=[] if exc else fold(out[1] + 0 * S),
                            same=True, **spectrum()))
            S, w = Sk, wk
        J = max(1, 7 - N) if i % 15 else 20
        azi, zen = awkward(rs, J)
        if 0 < k < L and w[L - k] - w[L - k - 1] > 1e-2 or k == 0:
            args = [azi, zen]
            if J == 1:
                args = [float(azi[0]), float(zen[0])]
            elif i % 3 == 0:
                args = [azi.tolist(), zen.tolist()]
            out, exc = call(pa.sh_music, S, int(k), *args)
            log.append(dict(ev='music', exc=exc, S=fold(S), n=int(k),
                            azi=fxa(azi), zen=fxa(zen),
                            out=[] if exc else fxa(np.where(
                                np.imag(out) == 0, np.real(out), np.nan)),
                            same=same((S, S0), (args[0], azi[0] if J == 1 else
                                                azi)), **spec))
        P = posdef(rs, L, i // 6 % 4, cplx)
        far = 2. ** [0, 0, 17, 0, -17][i % 5]   # any unit of the covariance
        P0, k0 = P.copy(), (azi.copy(), zen.copy())
        other = rs.randn(6, L * (1 + cplx))
        args = (azi, zen) if i % 3 else (azi.tolist(), zen.tolist())
        out, exc = call(pa.sh_mvdr, far * P, *args)
        log.append(dict(fo, ev='mvdr', exc=exc, S=fold(P), azi=fxa(azi),
                        zen=fxa(zen), out=[] if exc else foldrows(out, cplx),
                        other=fxa(other),
                        same=same((P, P0), (args[0], k0[0]),
                                  (args[1], k0[1]))))
        # constraints well apart
        m = rs.randint(1, max(2, min(L, 5) + 1)) if L > 1 else 1
        for _ in range(60):
            azi, zen = awkward(rs, m)
            if i % 4 == 2 and m > 1:       # two of them close
                azi[1], zen[1] = azi[0] + .03, abs(zen[0] - .02)
            Y = c.spa.sph.sh_matrix(N, azi, zen)
            # what the equations lose in double precision, below 1e-9
            loss = np.linalg.cond(Y @ np.linalg.inv(P) @ Y.T) * \
                np.linalg.cond(P)
            if np.linalg.cond(Y) < [15, 15, 300, 15][i % 4] and (
                    loss < 1e6 or np.linalg.cond(Y) < 15 and i % 4 != 2):
                break
        else:
            continue
        g = rs.uniform(-1, 1.5, m)
        if i % 4 == 0:
            g = np.rint(g)
        ga, aa, za = g.copy(), azi.copy(), zen.copy()
        bad = i % 10
        if bad == 4:
            ga = np.r_[ga, 1.]
        if bad == 5:
            aa = np.r_[aa, 1.]
        if bad == 6:
            za = np.r_[za, 1.]
        k0 = ga.copy(), aa.copy(), za.copy()
        args = [x.tolist() for x in (aa, za, ga)] if i % 3 == 0 else \
            [aa, za, ga]
        out, exc = call(pa.sh_lcmv, far * P, *args)
        mu = []
        if not exc and bad not in (4, 5, 6):
            mu = np.linalg.lstsq(Y.T, P @ np.ravel(out).conj(), rcond=None)[0]
            mu = fxa(np.r_[mu.real, mu.imag] if cplx else mu)
        log.append(dict(fo, ev='lcmv', exc=exc, S=fold(P), azi=fxa(aa),
                        zen=fxa(za), c=fxa(ga), mu=mu,
                        out=[] if exc else foldrows(
                            np.atleast_2d(out), cplx)[0],
                        same=same((P, P0), (args[0], k0[1]), (args[1], k0[2]),
                                  (args[2], k0[0]))))
        traces.append(log)
    c.validate('TraceParsa', traces)


# ------------------------------------------------------------------------ C32
def bformat(c, x, fs):
    return c.spa.sig.AmbiBSignal([v.copy() for v in x], fs=fs)


def C32(c):
    """Pseudo intensity."""
    rs = c.nprng(32)
    pa, spa = c.spa.parsa, c.spa
    traces = []
    for i in range(c.n(36, 240)):
        n = rs.randint(30, 70)
        win = [3, 5, 9, 15, 33, 4, 7][i % 7]
        n = max(n, win + rs.randint(2, 9))
        if i % 18 == 11:
            n, win = 700, [win, 121][i // 18 % 2]
        sm = [5, 0, 1, 3, 7, 5, 4][i // 2 % 7]
        x = rs.randn(4, n) * 10 ** rs.uniform(-.5, 1)
        if i % 5 == 0:
            x[:, rs.randint(n):] = 0
        sc = 2. ** [0, -13, 0, 9][i % 4]  # exact, undone in the log
        b = bformat(c, x * sc, [48000, 44100, 8000][i % 3])
        kw = dict(win_len=win, smoothing_order=sm)
        if i % 7 == 4 and i // 2 % 7 == 0:
            kw = {}
        if i % 6 == 1 and win % 2:
            kw['jobs_count'] = 2
        out, exc = call(pa.pseudo_intensity, b, **kw)
        got = [fxa(out[0]), fxa(out[1]), fxa(out[2] / sc ** 2)] if not exc else [[]] * 3
        traces.append([dict(ev='intensity', exc=exc, W=fxa(x[0]), X=fxa(x[1]),
                            Y=fxa(x[2]), Z=fxa(x[3]), win=win, smooth=sm,
                            azi=got[0], zen=got[1], r=got[2],
                            same=same((b.get_signals(), x * sc)))])
    for i in range(c.n(16, 120)):
        # one plane wave (or two in different bands)
        azi, zen = awkward(rs, 1)
        fs = [48000, 16000][i % 2]
        n = 220
        s = rs.randn(1, n)
        kw, tol = {}, 1e-8
        if i % 2:
            kw.update(win_len=int(2 * rs.randint(3, 20) + 1),
                      smoothing_order=int(2 * rs.randint(0, 4) + 1))
        nm = spa.sph.src_to_sh(s, azi, zen, 1)
        lo = 60
        if i % 4 == 2:
            n = 2400
            t = np.arange(n) / fs
            up = i // 4 % 3 == 2           # a band close to half the rate
            s = np.sin(2 * np.pi * t * [700, 1150, 19500.][i // 4 % 3] +
                       rs.rand())[None]
            s2 = 3 * np.sin(2 * np.pi * t * (1000 if up else 9000) +
                            rs.rand())[None]
            a2, z2 = directions(rs, 1)
            nm = spa.sph.src_to_sh(s, azi, zen, 1) + \
                spa.sph.src_to_sh(s2, a2, z2, 1)
            kw.update(f_bp=[(600, 1300), [600., 1300.]][i // 8 % 2], win_len=[65, 5][i // 8 % 2],
                      smoothing_order=[5, 0][i // 8 % 2])
            if up:
                kw['f_bp'] = [(19000, 20500.), [17000., 21500]][i // 12 % 2]
            lo, tol = 1000, 2e-3
        b = spa.sig.AmbiBSignal.sh_to_b(spa.sig.MultiSignal(list(nm), fs=fs))
        if i % 8 == 3:
            kw['jobs_count'] = 3
        out, exc = call(pa.pseudo_intensity, b, **kw)
        at = sorted(rs.choice(np.arange(lo, n - lo), 8, replace=False))
        v = c.spa.utils.sph2cart(azi[0], zen[0])
        v = np.array([np.cos(azi[0]) * np.sin(zen[0]),
                      np.sin(azi[0]) * np.sin(zen[0]), np.cos(zen[0])])
        traces.append([dict(ev='doa', exc=exc, at=[int(k) for k in at],
                            azi=[] if exc else fxa(out[0][at]),
                            zen=[] if exc else fxa(out[1][at]),
                            v=fxa(v), tol=fx(tol))])
    c.validate('TraceParsa', traces)


# ------------------------------------------------------------------------ C33
def recorder(c, p, log):
    class Recorded(c.spa.decoder.LoudspeakerSetup):
        def binauralize(self, ls_signals, fs, orientation=(0, 0), hrirs=None):
            log.append((np.array(ls_signals), fs))
            return self.ears
    s = call(Recorded, *p.T)[0]
    s.ears = np.arange(5.), np.arange(5.) + 10
    return s


def C33(c):
    """SDM rendering."""
    rs = c.nprng(33)
    pa = c.spa.parsa
    traces = []
    for i in range(c.n(40, 300)):
        log = []
        n = rs.randint(1, 25) if i % 19 != 11 else 250
        p = rs.randn(n) * [1, 10 ** rs.uniform(-4, 1, n)][i % 5 == 2]
        p[rs.rand(n) < .3] = 0
        phi, theta = awkward(rs, n)
        if i % 6 == 4:                    # over the pole
            theta = theta + rs.choice([0, .5, 2 * np.pi, -3.], n)
        ar = (p, phi, theta) if i % 3 else \
            (p.tolist(), phi.tolist(), theta.tolist())
        if i % 7 == 2:
            p = np.rint(p * 3).astype(int)
            ar = (p, phi, theta)
        k0 = p.copy(), phi.copy(), theta.copy()
        out, exc = call(pa.render_stereo_sdm, *ar)
        log.append(dict(ev='stereosdm', exc=exc, p=fxa(p), phi=fxa(phi),
                        l=[] if exc else fxa(out[0]),
                        r=[] if exc else fxa(out[1]),
                        same=same(*zip(ar, k0))))
        g, m = rs.randint(3, 30), rs.randint(1, 12)
        if n == 250:
            g, m = 12, 64
        ga, gz = directions(rs, g)
        hl, hr = rs.randn(2, g, m)
        h = c.spa.sig.HRIRs(hl.copy(), hr.copy(), ga, gz,
                            [44100, 48000, 96000][i % 3])
        if i % 4 == 1:                    # exactly on the grid
            j = rs.randint(0, g, n)
            phi[:], theta[:] = ga[j] + 2 * np.pi * rs.randint(-1, 2, n), gz[j]
            k0 = p.copy(), phi.copy(), theta.copy()
            ar = (p, phi, theta)
        kw = dict(jobs_count=[2, 3, None][i // 8 % 3]) if i % 8 == 5 else {}
        out, exc = call(pa.render_bsdm, *ar, h, **kw)
        log.append(dict(ev='bsdm', exc=exc, p=fxa(p), phi=fxa(phi),
                        theta=fxa(theta), gazi=fxa(ga), gzen=fxa(gz),
                        hl=fxa(hl), hr=fxa(hr), l=[] if exc else fxa(out[0]),
                        r=[] if exc else fxa(out[1]),
                        same=same(*zip(ar, k0), (h.left, hl), (h.right, hr))))
        # loudspeakers
        pts = random_layout(rs, rs.randint(4, 9), .8, 2)
        L, fs = len(pts), int(rs.choice([44100, 48000, 4000]))
        calls, eqs = [], []
        s = recorder(c, pts, calls)
        gains = rs.uniform(0, 1, (n, L)) * (rs.rand(n, L) < .5)
        ok = i % 6 != 3
        if not ok:
            gains = np.r_[gains, gains[:1]] if i % 4 < 2 or n == 1 \
                else gains[:-1]
        mode = ['custom', 'none', 'custom', 'default'][i % 4] if i < 24 else \
            ['custom', 'none'][i % 2]
        kw, ref = {}, None
        if mode == 'default':
            fs = 4000
            if i % 8 == 7:
                kw = dict(soft_clip=False)
        if mode == 'custom':
            x = float(rs.rand())

            def eq(ls_sigs, sdm_p, fs_, setup, **k):
                eqs.append((np.array(ls_sigs), np.array(sdm_p), fs_,
                            setup is s, k == dict(extra=x, more=1)))
                return np.array(ls_sigs) * .5 + 1
            kw = dict(extra=x, more=1)
            if i % 8 == 2:
                fn = lambda a, b, q, s_, extra, more: eq(  # noqa
                    a, b, q, s_, extra=extra, more=more)
            else:
                fn = eq
        else:
            fn = None if mode == 'none' else 'default'
        if mode == 'default' and i % 8 == 3:
            post = {}
        else:
            post = dict(post_eq_func=fn)
        pp = p.tolist() if i % 3 == 0 else p
        k0 = p.copy(), gains.copy()
        out, exc = call(pa.render_binaural_loudspeaker_sdm, pp, gains, s, fs,
                        **post, **kw)
        e = dict(ev='lssdm', exc=exc, p=fxa(p), gains=fxa(gains), fs=fs,
                 mode=mode, eqcalls=len(eqs), bincalls=len(calls),
                 binfs=calls[-1][1] if calls else 0,
                 binin=fxa(calls[-1][0]) if calls else [],
                 passed=bool(not exc and len(out) == 2 and
                             out[0] is s.ears[0] and out[1] is s.ears[1]),
                 same=same((p, k0[0]), (gains, k0[1])), eqout=[])
        if eqs:
            q = eqs[-1]
            e.update(eqin=fxa(q[0]), eqp=fxa(q[1]), eqfs=q[2], eqsetup=q[3],
                     eqkw=q[4], eqout=fxa(q[0] * .5 + 1))
        if mode == 'default' and ok:
            y, ex = call(pa.sdm_post_equalization, (gains * np.asarray(p)
                         [:, None]).T, np.asarray(p), fs, s, **kw)
            e['eqout'] = [] if ex else fxa(y)
        log.append(e)
        traces.append(log)
    c.validate('TraceParsa', traces)


# ------------------------------------------------------------------------ C34
def clip(m):
    return m if m <= 1 else 1 + np.tanh(m - 1)


BLEND = [1, .5, .25, 0]


def C34(c):
    """SDM post equalisation."""
    rs = c.nprng(34)
    pa, dec = c.spa.parsa, c.spa.decoder
    traces = []

    def layout(L=None):
        s = call(dec.LoudspeakerSetup, *random_layout(
            rs, L or rs.randint(4, 7), .7, 2.5).T)[0]
        s.a = [1, 2, 0, 1.5][rs.randint(4)]
        return s

    for i in range(c.n(4, 20)):
        fs, n, t0 = 4000, 330, 160 + rs.randint(10)
        runs, G, Y = [], [], []
        for r in range(7):
            s = layout()
            L = len(s.x)
            amp = rs.uniform(-1, 1, L)
            amp[rs.rand(L) < .3] = 0
            amp[rs.randint(L)] = .8 * (-1) ** r
            if r == 0:                    # one loudspeaker: one gain
                amp[:] = 0
                amp[1] = .7
            g = float(rs.uniform(.1, 3)) * (-1) ** rs.randint(2)
            soft = bool(r % 3)
            x = np.zeros((L, n))
            x[:, t0] = amp
            p = np.zeros(n)
            p[t0] = g
            k0 = x.copy(), p.copy()
            kw = {} if soft and r % 2 else dict(soft_clip=soft)
            out, exc = call(pa.sdm_post_equalization, x, p, fs, s, **kw)
            runs.append(dict(exc=exc, same=same((x, k0[0]), (p, k0[1])),
                             g=fx(g), amp=fxa(amp), d=fxa(s.d), att=fx(s.a),
                             clip=soft, out=[] if exc else fxa(out)))
            if exc:
                continue
            a = np.abs(amp) / s.d ** s.a
            gain = [abs(g) / (b * a.sum() + (1 - b) * np.sqrt(a @ a))
                    for b in BLEND]
            G.append([clip(v) for v in gain] if soft else gain)
            k = np.argmax(np.abs(amp))
            Y.append(out[k] / amp[k])
        base = np.linalg.lstsq(np.array(G), np.array(Y), rcond=None)[0] \
            if len(G) > 3 else np.zeros((4, n))
        traces.append([dict(ev='eq1', base=fxa(base), t0=t0 + 1, runs=runs,
                            freq=fxa(np.array([0, 62.5, 125, 1000.])),
                            fs=fx(fs))])
    # symmetries, silence
    for i in range(c.n(5, 30)):
        log = []
        s = layout()
        L, n = len(s.x), 200
        second = i % 2 == 1
        f = pa.sdm_post_equalization2 if second else pa.sdm_post_equalization
        kw = dict(blocksize=256, smoothing_order=int(rs.randint(1, 6))) \
            if second else [{}, dict(soft_clip=False)][i // 2 % 2]
        fs = [4000, 8000][i % 2]
        if i % 4 == 2 and not second:
            fs = [11025, 16000][i // 4 % 2]
        x, p = rs.randn(L, n), rs.randn(n)
        x[rs.rand(L, n) < .5] = 0
        q = rs.permutation(L)
        s2 = call(dec.LoudspeakerSetup, *np.asarray(s.points)[q].T)[0]
        s2.a = s.a
        k, sg = float(rs.uniform(.3, 3)), int(rs.choice([-1, 1]))
        quiet = i % 5 in (2, 3)
        if quiet:         # exact, undone in the log
            k = 2. ** -17
        u, exc = call(f, x, p, fs, s, **kw)
        v, exc2 = call(f, k * x[q], sg * k * p, fs, s2, **kw)
        if second and not exc + exc2:
            u, v = u[0], v[0]
        if quiet and not exc + exc2:
            v, k = np.asarray(v) / k, 1.
        log.append(dict(ev='eqsym', exc=exc + exc2,
                        a=[] if exc else fxa(u), b=[] if exc2 else fxa(v),
                        perm=[int(j) + 1 for j in q], c=fx(k),
                        finite=bool(not exc + exc2 and
                                    np.all(np.isfinite(u))),
                        shape=not exc and np.shape(u) == (L, n)))
        for w in range(2):
            x, p = rs.randn(L, n), rs.randn(n)
            if w:
                p[:] = 0
            else:
                x[:] = 0
            u, exc = call(f, x, p, fs, s, **kw)
            if second and not exc:
                u = u[0]
            log.append(dict(ev='eqsilent', exc=exc,
                            zero=bool(not exc and np.all(np.abs(u) < 1e-12)),
                            shape=not exc and np.shape(u) == (L, n)))
        traces.append(log)
    # second equaliser
    for i in range(c.n(16, 120)):
        single = i % 2 == 0
        block = [256, 512][i % 3 % 2] if not single else 512
        fs = [8000, 16000, 4000][i % 3] if not single else 4000
        smooth = int(rs.randint(1, 7)) if i % 4 else int(rs.randint(7, 13))
        s = layout()
        L = len(s.x)
        gap = int(1.3 * block) if not single else 3 * block
        at = np.cumsum(gap + rs.randint(0, block, rs.randint(1, 5))) - \
            gap + 20
        n = int(at[-1] + rs.randint(30, 2 * block))
        h = block // 2
        at = np.array([a + 8 if min(a % h, h - a % h) < 4 else a
                       for a in at])
        amp = rs.uniform(-1, 1, (len(at), L))
        amp[rs.rand(len(at), L) < .3] = 0
        amp[:, 0] = .6
        if single:
            amp[:] = 0
            amp[:, rs.randint(L)] = rs.uniform(.3, 1, len(at))
        g = rs.uniform(.05, 1.6, len(at)) * rs.choice([-1, 1], len(at))
        x, p, p1 = np.zeros((L, n)), np.zeros(n), np.zeros(n)
        x[:, at] = amp.T
        p[at] = g
        p1[at] = 50.
        k0 = x.copy(), p.copy()
        kw = dict(blocksize=block, smoothing_order=smooth)
        out, exc = call(pa.sdm_post_equalization2, x, p, fs, s, **kw)
        e = dict(ev='eq2', exc=exc, n=n, block=block, smooth=smooth,
                 at=[int(a) + 1 for a in at], g=fxa(g), amp=fxa(amp),
                 d=fxa(s.d), att=fx(s.a), single=single,
                 same=same((x, k0[0]), (p, k0[1])))
        if not exc:
            one, _ = call(pa.sdm_post_equalization2, x, p1, fs, s, **kw)
            ks = np.clip(at[:, None] + np.arange(-6, 7), 0, n - 1)

            def near(y):
                return [fxa(y[:, k]) for k in ks]
            e.update(gains=fxa(np.array(out[1])) if len(out[1]) else [],
                     out=near(out[0]) if single else [],
                     unity=near(one[0]) if single else [])
        traces.append([e])
    for i in range(c.n(6, 40)):
        block, fs = 64, [1000, 96000, 2000, 1600][i % 4]
        s = layout(4)
        n = int(rs.randint(64, 190)) if i % 3 != 2 else 420
        x = rs.randn(4, n) * (rs.rand(4, n) < .5)
        # differently coloured
        h = np.exp(-.3 * np.arange(12)) * np.cos(np.arange(12) * 3 * rs.rand())
        p = np.convolve(x.sum(0), h)[:n] * rs.uniform(.1, .8)
        if i % 2:
            x[1] = np.cumsum(x[1]) / 5
            p[:n // 3] = 0
        smooth = int(rs.randint(1, 6)) if i % 3 != 2 else 9
        if i % 4 == 1:
            p = 3 * p
        out, exc = call(pa.sdm_post_equalization2, x, p, fs, s,
                        blocksize=block, smoothing_order=smooth)
        bank, ex2 = call(c.spa.process.frac_octave_filterbank, n=1,
                         N_out=block // 2 + 1, fs=fs, f_low=62.5, f_high=16000)
        e = dict(ev='eq2gains', exc=exc + ex2, n=n, block=block,
                 smooth=smooth, x=fxa(x), p=fxa(p), d=fxa(s.d), att=fx(s.a))
        if not exc + ex2:
            e.update(bank=fxa(bank[0]), gains=fxa(np.array(out[1]))
                     if len(out[1]) else [])
        traces.append([e])
    c.validate('TraceParsa', traces)
