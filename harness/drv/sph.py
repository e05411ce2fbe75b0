"""Spherical harmonics domain: C13 - C19."""
import os
import pickle

import numpy as np

from vlib import call, cxa, fx, fxa
from hrirs import directions


def unit(rs, n):
    v = rs.randn(n, 3)
    return v / np.linalg.norm(v, axis=1)[:, None]


def awkward(rs, n):
    """Directions with wrapped azimuths, poles and exact quarter turns."""
    azi, zen = directions(rs, n)
    azi = azi + 2 * np.pi * rs.randint(-1, 2, n)
    k = rs.rand(n)
    zen = np.where(k < .1, 0., np.where(k < .2, np.pi, zen))
    azi = np.where((k > .2) & (k < .35), np.pi / 2 * rs.randint(-2, 5, n), azi)
    zen = np.where((k > .35) & (k < .45), np.pi / 2, zen)
    return azi, zen


def same(*pairs):
    return bool(all(np.array_equal(a, b) for a, b in pairs))


def cols(a):
    """2-D complex log entry of a returned coefficient array."""
    a = np.asarray(a)
    return cxa(a[:, None] if a.ndim == 1 else a)


def C13(c):
    """The spherical harmonics basis."""
    rs = c.nprng(13)
    sph = c.spa.sph
    traces = []
    for i in range(c.n(60, 500)):
        N = [0, 1, 2, 3, 5, 8][i % 6]
        Q = max(1, 8 - N) if i % 5 else 1
        kind = ['real', 'complex'][i // 6 % 2]
        azi, zen = awkward(rs, Q)
        a, z = azi, zen
        if i % 7 == 3:
            a, z = list(azi), list(zen)
        if Q == 1 and i % 2:
            a, z = float(azi[0]), float(zen[0])
        if i % 11 == 4:
            a, z = azi[:, None], zen[:, None]
        kw = {} if kind == 'real' and i % 4 == 0 else dict(sh_type=kind)
        k0 = np.array(azi), np.array(zen)
        out, exc = call(sph.sh_matrix, N, a, z, **kw)
        traces.append([dict(ev='shmat', exc=exc, kind=kind, N=N,
                            azi=fxa(azi), zen=fxa(zen),
                            out=[] if exc else cols(out),
                            same=same((azi, k0[0]), (zen, k0[1])))])
    for i in range(c.n(4, 30)):     # many directions, also at high orders
        N, Q = [(2, 150), (1, 300), (7, 20), (4, 70)][i % 4]
        kind = ['real', 'complex'][(i + c.seed) % 2]
        azi, zen = awkward(rs, Q)
        out, exc = call(sph.sh_matrix, N, azi, zen, kind)
        traces.append([dict(ev='shmat', exc=exc, kind=kind, N=N,
                            azi=fxa(azi), zen=fxa(zen),
                            out=[] if exc else cols(out), same=True)])
    for i in range(c.n(4, 24)):     # every function of a high order
        N, Q = [26, 28, 21, 24][(i + c.seed) % 4], 2
        kind = ['real', 'complex'][i // 2 % 2]
        azi, zen = awkward(rs, Q) if i % 2 else directions(rs, Q)
        out, exc = call(sph.sh_matrix, N, azi, zen, kind)
        traces.append([dict(ev='shmat', exc=exc, kind=kind, N=N,
                            azi=fxa(azi), zen=fxa(zen),
                            out=[] if exc else cols(out), same=True)])
    for bad in ('imag', 'Real', ''):
        out, exc = call(sph.sh_matrix, 2, [0.], [1.], bad)
        traces.append([dict(ev='shmat', exc=exc, kind=bad or '-', N=2,
                            azi=[], zen=[], out=[], same=True)])
    for i in range(c.n(24, 200)):
        N = [10, 14, 20, 30][i % 4]
        azi, zen = awkward(rs, 2)
        if i % 5 == 0:
            azi[1], zen[1] = azi[0], zen[0]
        if i % 5 == 1:
            azi[1], zen[1] = azi[0] + np.pi, np.pi - zen[0]
        out, exc = call(sph.sh_matrix, N, azi, zen,
                        ['real', 'complex'][i // 4 % 2])
        traces.append([dict(ev='shaddition', exc=exc, N=N, azi=fxa(azi),
                            zen=fxa(zen), out=[] if exc else cols(out))])
    c.validate('TraceSph', traces, jobs=8)


def some_grid(c, N, i):
    """(azi, zen, weights or None) integrating degree 2N exactly."""
    g = c.spa.grids
    k = i % 5
    if k == 0:
        v, w = g.load_t_design(max(1, 2 * N)), None
    elif k == 1:
        v, w = g.load_n_design(max(1, 2 * N)), None
    elif k == 2:
        v, w = g.load_lebedev(max(3, 2 * N))
    elif k == 3:
        return g.gauss(N)
    else:
        return g.equal_angle(max(N, 1))
    d = c.spa.utils.vec2dir(v)
    return d[:, 0], d[:, 1], w


def a_(N):
    """Half the width of a patch on which order N is badly conditioned."""
    return [0, .01, .06, .15][min(N, 3)]


def C14(c):
    """Transforms and their inverses."""
    rs = c.nprng(14)
    sph = c.spa.sph
    traces = []

    def rnd(shape, kind):
        x = rs.uniform(-2, 2, shape)
        return x + 1j * rs.uniform(-2, 2, shape) if kind == 'complex' else x

    m = c.n(60, 400)
    for i in range(m + c.n(4, 20)):
        N = [0, 1, 2, 3][i % 4] if i < m else [5, 4, 7, 6][i % 4]
        kind = ['real', 'complex'][i // 2 % 2]
        azi, zen, w = some_grid(c, N, i + c.seed if i >= m else i)
        S = [1, 3, 2][i % 3] if i < m else [9, 1][i % 2]
        coef = rnd(((N + 1) ** 2, S), 'complex' if i % 9 == 4 else kind)
        F1 = coef[:, 0] if i % 6 == 0 else coef
        n = [-1, N, max(0, N - 1)][i % 3]
        kw = {} if n < 0 else dict(N_sph=n)
        ymat = i % 7 == 2
        if ymat and n in (-1, N):
            kw['Y_nm'] = sph.sh_matrix(N, azi, zen, kind) * [1, 1, 2][i % 3]
        k0 = F1.copy(), azi.copy(), zen.copy()
        f, exc = call(sph.inverse_sht, F1, azi, zen, kind, **kw)
        log = [dict(ev='isht', exc=exc, kind=kind, Nuse=n, azi=fxa(azi),
                    zen=fxa(zen), F=cols(F1), y=cols(kw['Y_nm'])
                    if 'Y_nm' in kw else [], out=[] if exc else cols(f),
                    same=same((F1, k0[0]), (azi, k0[1]), (zen, k0[2])))]
        if not exc and n != N - 1 and not kw.get('Y_nm', [0])[0] is None \
                and 'Y_nm' not in kw:
            # order-limited: transform gives the coefficients back
            ff = f[:, 0] if F1.ndim == 1 else f
            kw = {}
            if w is not None:
                kw['weights'] = list(w) if i % 2 else w
            k0 = np.array(ff), azi.copy(), zen.copy()
            out, exc = call(sph.sht, ff, N, azi, zen, kind, **kw)
            log.append(dict(
                ev='sht', exc=exc, kind=kind, N=N, azi=fxa(azi), zen=fxa(zen),
                w=[] if w is None else fxa(w), y=[], f=cols(ff),
                coef=cols(F1), out=[] if exc else cols(out),
                same=same((ff, k0[0]), (azi, k0[1]), (zen, k0[2]))))
            out, exc = call(sph.sht_lstsq, ff, N, azi, zen, kind)
            Y = sph.sh_matrix(N, azi, zen, kind)
            wit = np.linalg.pinv(Y.conj().T) @ \
                (out if out is not None else coef)
            log.append(dict(
                ev='lstsq', exc=exc, kind=kind, N=N, azi=fxa(azi),
                zen=fxa(zen), y=[], f=cols(ff), wit=cols(wit), coef=cols(F1),
                out=[] if exc else cols(out),
                same=same((ff, k0[0]), (azi, k0[1]), (zen, k0[2]))))
        traces.append(log)
    # arbitrary functions and directions, given matrices and weights
    for i in range(m + c.n(4, 20)):
        N = [0, 1, 2, 3][i % 4] if i < m else [5, 4, 6, 5][i % 4]
        kind = ['real', 'complex'][i // (5 if i % 5 == 3 else 2) % 2]
        Q = [1, 3, 8, 20, 12][i % 5] if i < m else [70, 11][i % 2]
        S = [1, 2, 4][i % 3] if i < m else 12
        azi, zen = awkward(rs, Q)
        f = rnd((Q, S), ['real', 'complex'][i // 3 % 2])
        if i % 6 == 0:
            f = f[:, 0]
        kw, w, y = {}, [], []
        if i % 3 == 0:
            w = rs.uniform(-.3 * (i % 2), 1, Q)
            kw['weights'] = w
        if i % 4 == 1:
            y = rnd((Q, (N + 1) ** 2), kind)
            kw['Y_nm'] = y
        k0 = f.copy(), np.array(y), np.array(w)
        out, exc = call(sph.sht, f, N, azi, zen, kind, **kw)
        log = [dict(ev='sht', exc=exc, kind=kind, N=N, azi=fxa(azi),
                    zen=fxa(zen), w=fxa(w) if len(w) else [],
                    y=cols(y) if len(y) else [], f=cols(f),
                    out=[] if exc else cols(out),
                    same=same((f, k0[0]), (y, k0[1]), (w, k0[2])))]
        kw.pop('weights', None)
        azi, zen = directions(rs, Q)
        if i % 5 == 3:        # on one circle: tall, but not of full rank
            azi = np.linspace(0, 2 * np.pi, Q, endpoint=False) + rs.rand()
            zen = np.full(Q, [np.pi / 2, np.pi / 2, 1.][i // 5 % 3])
        elif i % 5 == 4:      # every direction twice
            azi, zen = np.tile(azi[:Q // 2], 2), np.tile(zen[:Q // 2], 2)
        elif i % 5 == 2 and N > 1:      # all of them close to each other
            azi, zen = rs.uniform(-a_(N), a_(N), (2, Q)) + [[.4], [1.5]]
        out, exc = call(sph.sht_lstsq, f, N, azi, zen, kind, **kw)
        Y = kw.get('Y_nm', sph.sh_matrix(N, azi, zen, kind))
        sv = np.linalg.svd(Y, compute_uv=False)
        sv = sv / sv.max()
        if ((sv > [1 / 300, 3e-5][i % 5 == 2]) | (sv < 1e-14)).all():
            wit = np.linalg.pinv(Y.conj().T) @ \
                (out if out is not None else np.zeros((N + 1) ** 2))
            log.append(dict(ev='lstsq', exc=exc, kind=kind, N=N, azi=fxa(azi),
                            zen=fxa(zen), y=cols(y) if len(y) else [],
                            f=cols(f), wit=cols(wit),
                            out=[] if exc else cols(out),
                            same=same((f, k0[0]), (y, k0[1]))))
        traces.append(log)
    c.validate('TraceSph', traces, jobs=8)


def angles(rs, i):
    if i % 4 == 0:
        return [float(x) for x in np.pi / 2 * rs.randint(-3, 5, 3)]
    if i % 4 == 1:
        a = [0., 0., 0.]
        a[rs.randint(3)] = float(rs.uniform(-20, 20))
        return a
    return [float(x) for x in rs.uniform(-4, 4, 3) * [1, 1, 1, 5][i // 4 % 4]]


def C15(c):
    """Rotation of SH signals."""
    rs = c.nprng(15)
    sph = c.spa.sph
    traces = []
    for i in range(c.n(60, 500)):
        N = [0, 1, 2, 3, 4, 6][i % 6] if i % 13 else [5, 7, 8, 9][i // 13 % 4]
        ypr = angles(rs, i)
        kw = {} if i % 3 else dict(sh_type='real')
        out, exc = call(sph.sh_rotation_matrix, N, *ypr, **kw)
        bl, exc2 = call(sph.sh_rotation_matrix, N, *ypr,
                        return_as_blocks=True)
        dirs = np.r_[np.eye(3), unit(rs, 4)]
        traces.append([dict(
            ev='rotmat', exc=exc or exc2, kind='real', N=N, yaw=fx(ypr[0]),
            pitch=fx(ypr[1]), roll=fx(ypr[2]), dirs=fxa(dirs),
            out=[] if exc else fxa(out),
            blocks=[] if exc2 else [fxa(np.atleast_2d(b)) for b in bl])])
    for i in range(c.n(1, 8)):
        N, ypr = [16, 15, 18, 17][(i + c.seed) % 4], angles(rs, 2 + i)
        out, exc = call(sph.sh_rotation_matrix, N, *ypr)
        bl, exc2 = call(sph.sh_rotation_matrix, N, *ypr,
                        return_as_blocks=True)
        traces.append([dict(
            ev='rotmat', exc=exc or exc2, kind='real', N=N, yaw=fx(ypr[0]),
            pitch=fx(ypr[1]), roll=fx(ypr[2]), dirs=fxa(unit(rs, 3)),
            out=[] if exc else fxa(out),
            blocks=[] if exc2 else [fxa(np.atleast_2d(b)) for b in bl])])
    for bad in ('complex', 'imag'):
        _, exc = call(sph.sh_rotation_matrix, 2, .1, .2, .3, sh_type=bad)
        traces.append([dict(ev='rotmat', exc=exc, kind=bad, N=2)])
        _, exc = call(sph.rotate_sh, np.ones((1, 9)), .1, .2, .3, sh_type=bad)
        traces.append([dict(ev='rotate', exc=exc, kind=bad,
                            sig=fxa(np.ones((1, 9))))])
    _, exc = call(sph.rotate_sh, np.ones((2, 5)), .1, .2, .3)
    traces.append([dict(ev='rotate', exc=exc, kind='real',
                        sig=fxa(np.ones((2, 5))))])
    for i in range(c.n(40, 300)):
        N = i % 4 if i % 7 else [4, 5, 6, 7][i // 7 % 4]
        S = [1, 2, 3, 40, 4, 9][i % 6]
        if i % 40 == 24:
            N, S = [13, 15][i // 40 % 2], 1
        x = rs.uniform(-1, 1, (S, (N + 1) ** 2))
        if i % 5 == 3:        # whole numbers
            x = np.round(20 * x).astype([int, np.int16, np.int32][i % 3])
        log = []
        for j in range(4):
            ypr = angles(rs, i + j)
            a = x[0] if S == 1 and j % 2 else x
            k0 = a.copy()
            out, exc = call(sph.rotate_sh, a, *ypr)
            log.append(dict(
                ev='rotate', exc=exc, kind='real', chain=j > 0,
                yaw=fx(ypr[0]), pitch=fx(ypr[1]), roll=fx(ypr[2]),
                dirs=fxa(np.r_[np.eye(3), unit(rs, 3)]), sig=fxa(x),
                out=[] if exc else fxa(np.atleast_2d(out)),
                same=same((a, k0))))
            if exc or np.shape(np.atleast_2d(out)) != x.shape:
                break
            x = np.atleast_2d(out)
        traces.append(log)
    c.validate('TraceSph', traces, jobs=8)


AMBI = '''INIT Init
NEXT Next
INVARIANTS %s
CHECK_DEADLOCK FALSE
CONSTANTS Order = "%s" Guard = %s MaxLen = %d Gen = %s
'''


def carry(c, rs, start, prog, quarter):
    """Run one TLC program on the real code."""
    sph = c.spa.sph
    S = 1 + rs.randint(3)
    x = rs.uniform(-1, 1, S)
    v = np.array(start, float)
    log = []
    azi, zen = float(np.arctan2(v[1], v[0])), float(np.arccos(v[2]))
    if not quarter:
        azi, zen = (float(a[0]) for a in directions(rs, 1))
    sig, exc = call(sph.src_to_sh, x[None, :], [azi], [zen], 1)
    log.append(dict(ev='step', op='encode', exc=exc, azi=fx(azi),
                    zen=fx(zen), fmt='n3d', x=fxa(x),
                    out=[] if exc else fxa(sig), same=True))
    fmt = 'n3d'
    for op in prog:
        if exc:
            break
        e, k0 = {}, sig.copy()
        if op in ('yaw', 'pitch', 'roll'):
            a = [0., 0., 0.]
            a[['yaw', 'pitch', 'roll'].index(op)] = np.pi / 2
            if not quarter:
                a = [float(u) for u in rs.uniform(-3, 3, 3)]
            new, exc = call(lambda: sph.rotate_sh(sig.T, *a).T)
            e = dict(yaw=fx(a[0]), pitch=fx(a[1]), roll=fx(a[2]))
            op = 'rotate'
        else:
            f = dict(tosn3d=sph.n3d_to_sn3d, ton3d=sph.sn3d_to_n3d,
                     tob=sph.sh_to_b, tosh=sph.b_to_sh)[op]
            new, exc = call(f, sig)
            fmt = dict(tosn3d='sn3d', ton3d='n3d', tob='b', tosh='n3d')[op]
        log.append(dict(ev='step', op=op, exc=exc, fmt=fmt, x=fxa(x),
                        out=[] if exc else fxa(new), same=same((sig, k0)),
                        **e))
        sig = new
    return log


def C16(c):
    """Conversions between ambisonic formats."""
    rs = c.nprng(16)
    spa, sph = c.spa, c.spa.sph
    inv = 'CarriesDirection Omni'
    c.mc('AmbiHistory', AMBI % (inv, 'yzx', 'TRUE', 0, 'FALSE'))
    c.mc('AmbiHistory', AMBI % (inv, *[('xyz', 'TRUE'), ('yzx', 'FALSE')]
                                [c.seed % 2], 0, 'FALSE'),
         expect='CarriesDirection')
    progs = c.gen('AmbiHistory', AMBI % ('PrintProg', 'yzx', 'TRUE', 4,
                                         'TRUE'))
    # start from the first direction that produced each program
    c.notes.append('%d programs enumerated by TLC' % len(progs))
    cap = c.n(300, len(progs))
    if len(progs) > cap:
        progs = c.rng.sample(progs, cap)
    traces = [carry(c, rs, d, p, i % 2) for i, (d, p) in enumerate(progs)]
    for i in range(c.n(60, 400)):
        log = []
        N, S = i % 4 if i % 9 else 4 + i // 9 % 4, [1, 3, 50][i % 3]
        axis = [0, 1, -1, 0][i // 4 % 4]
        F = rs.uniform(-2, 2, ((N + 1) ** 2, S))
        F = F if axis == 0 else F.T.copy()
        if i % 6 == 5:
            F = np.round(9 * F).astype([int, np.int16][i // 6 % 2])
        kw = {} if axis == 0 and i % 3 else dict(axis=axis)
        for f, tosn in ((sph.n3d_to_sn3d, True), (sph.sn3d_to_n3d, False)):
            k0 = F.copy()
            out, exc = call(f, F, **kw)
            log.append(dict(ev='norm', exc=exc, tosn=tosn, axis=axis,
                            F=fxa(F), out=[] if exc else fxa(out),
                            same=same((F, k0))))
        F = rs.uniform(-2, 2, (4, 1500 if i % 20 == 7 else S))
        ww = [None, None, 1 / np.sqrt(2), 2., None, .1, .3, 5.][i % 8]
        kw = {} if ww is None else dict(W_weight=ww)
        for ev, f in (('shtob', sph.sh_to_b), ('btosh', sph.b_to_sh),
                      ('soundfield', sph.soundfield_to_b)):
            k0 = F.copy()
            out, exc = call(f, F, **kw)
            log.append(dict(ev=ev, exc=exc, ww=fx(ww or 1.), F=fxa(F),
                            out=[] if exc else fxa(out), same=same((F, k0))))
            if i % 10 == 3:        # spectra
                z = F + 1j * rs.uniform(-1, 1, F.shape)
                out, exc = call(f, z, **kw)
                log += [dict(ev=ev, exc=exc, ww=fx(ww or 1.), F=fxa(p(z)),
                             out=[] if exc else fxa(p(out)), same=True)
                        for p in (np.real, np.imag)]
        fs = [44100, 48000][i % 2]
        m = spa.sig.MultiSignal([*F], fs=fs)
        coeffs, kw = [], {}
        if i % 2:
            coeffs = [rs.uniform(-1, 1, 2), np.r_[1, rs.uniform(-.6, .6, 1)],
                      rs.uniform(-1, 1, 3), np.r_[1, rs.uniform(-.4, .4, 2)]]
            path = os.path.join(c.tmp, 'a2b%d.pkl' % i)
            with open(path, 'wb') as fh:
                pickle.dump(tuple(coeffs), fh)
            kw['filter_coeffs'] = path
        out, exc = call(spa.process.ambeo_a2b, m, **kw)
        log.append(dict(ev='ambeo', exc=exc, F=fxa(F), fs=fs,
                        coeffs=[fxa(v) for v in coeffs],
                        fsout=0 if exc else int(out.fs),
                        out=[] if exc else fxa(out.get_signals()),
                        same=same((m.get_signals(), F))))
        b = spa.sig.AmbiBSignal([*F], fs=fs)
        out, exc = call(spa.process.b_to_stereo, b)
        log.append(dict(ev='stereo', exc=exc, F=fxa(F),
                        out=[] if exc else [fxa(v) for v in out],
                        same=same((b.get_signals(), F))))
        traces.append(log)
    c.validate('TraceSph', traces, jobs=8)


def C17(c):
    """Encoding and multiplication."""
    rs = c.nprng(17)
    sph = c.spa.sph
    traces = []
    for i in range(c.n(70, 500)):
        kind = ['real', 'complex'][i // 2 % 2]
        N, n, S = i % 5, [1, 2, 4][i % 3], [1, 3, 7][i // 3 % 3]
        if i % 12 == 7:
            N, n, S = [6, 7, 5, 8][i // 12 % 4], [9, 1][i // 12 % 2], 30
        azi, zen = awkward(rs, n)
        x = rs.uniform(-1, 1, (n, S))
        a = x[0] if n == 1 and i % 2 else x
        if i % 9 == 5:
            a = a.tolist()
        kw = {} if kind == 'real' and i % 3 else dict(sh_type=kind)
        k0 = np.array(a)
        ai, ze = (list(azi), list(zen)) if i % 4 == 0 else (azi, zen)
        if n == 1 and i % 5 == 0:
            ai, ze = float(azi[0]), float(zen[0])
        out, exc = call(sph.src_to_sh, a, ai, ze, N, **kw)
        log = [dict(ev='srctosh', exc=exc, kind=kind, N=N, azi=fxa(azi),
                    zen=fxa(zen), sig=fxa(x), out=[] if exc else cols(out),
                    same=same((k0, a)))]
        x1 = rs.uniform(-1, 1, S)
        k0 = x1.copy()
        out, exc = call(sph.src_to_b, x1, float(azi[0]), float(zen[0]))
        log.append(dict(ev='srctob', exc=exc, azi=fx(azi[0]), zen=fx(zen[0]),
                        sig=fxa(x1), out=[] if exc else fxa(out),
                        same=same((k0, x1))))
        if i % 6 == 0:
            _, exc = call(sph.src_to_sh, rs.randn(n + 1, S), azi, zen, N)
            log.append(dict(ev='srctosh', exc=exc, kind=kind, N=N,
                            azi=fxa(azi), zen=fxa(zen),
                            sig=fxa(np.zeros((n + 1, 1)))))
        traces.append(log)
    for i in range(c.n(70, 500)):
        kind = ['real', 'complex'][i // 2 % 2]
        n1, n2 = [(1, 1), (0, 1), (2, 1), (1, 3), (2, 2), (4, 1), (0, 0),
                  (3, 0), (3, 3), (5, 2)][i % 10]
        if i % 14 == 3:
            n1, n2 = [(4, 5), (5, 5), (2, 7), (9, 1), (6, 3)][i // 14 % 5]
        a = rs.uniform(-1, 1, (n1 + 1) ** 2)
        b = rs.uniform(-1, 1, (n2 + 1) ** 2)
        if kind == 'complex' and i % 3:
            a = a + 1j * rs.uniform(-1, 1, a.shape)
            b = b + 1j * rs.uniform(-1, 1, b.shape)
        if i % 10 == 9:
            a, b = np.round(2 * a), np.round(2 * b)
            if kind == 'real':
                a, b = a.astype(int), b.astype(int)
        aa, bb = (a.tolist(), b.tolist()) if i % 4 == 0 else (a, b)
        k0 = a.copy(), b.copy()
        out, exc = call(sph.sh_mult, aa, bb, kind)
        azi, zen = awkward(rs, 6)
        traces.append([dict(ev='shmult', exc=exc, kind=kind, a=cxa(a),
                            b=cxa(b), azi=fxa(azi), zen=fxa(zen),
                            out=[] if exc else cxa(out),
                            same=same((a, k0[0]), (b, k0[1])))])
    c.validate('TraceSph', traces, jobs=8)


NAMES = ['hypercardioid', 'max_di', 'cardioid', 'inphase', 'max_re', 'maxre']


def C18(c):
    """Modal weights and beams."""
    rs = c.nprng(18)
    sph, parsa = c.spa.sph, c.spa.parsa
    traces = []
    for N in range(c.n(9, 16)):
        log = []

        def w(name, f, *a, unit=True, k=1., nc=1., **kw):
            out, exc = call(f, *a, **kw)
            log.append(dict(ev='weights', name=name, exc=exc, N=N, unit=unit,
                            k=fx(k), nc=fx(nc), out=[] if exc else fxa(out)))
        w('hypercardioid', sph.hypercardioid_modal_weights, N)
        w('cardioid', sph.cardioid_modal_weights, N)
        w('maxre', sph.maxre_modal_weights, N)
        w('maxre', sph.maxre_modal_weights, N, UNITAMP=False, unit=False)
        w('max_rE_weights', sph.max_rE_weights, N, unit=False)
        for k, nc in ((5, 3), (1, .5), (2.5, 2.2), (1.3, 2), (.8, .7),
                      (3, N + 1)):
            for u in (True, False):
                w('butterworth', sph.butterworth_modal_weights, N, k, nc,
                  UNITAMP=u, unit=u, k=k, nc=nc)
        for j in range(4):
            v = rs.uniform(.1, 2, N + 1)
            if j == 3:
                v[rs.permutation(N + 1)[:N // 2]] *= -1
                if abs(v @ (2 * np.arange(N + 1) + 1)) < 1:
                    v = abs(v)
            a = v.tolist() if j == 1 else v
            k0 = v.copy()
            out, exc = call(sph.unity_gain, a)
            log.append(dict(ev='unity', exc=exc, w=fxa(v), out=[] if exc
                            else fxa(out), same=same((k0, v))))
            out, exc = call(sph.repeat_per_order, a)
            log.append(dict(ev='repeat', exc=exc, w=fxa(v),
                            out=[] if exc else fxa(out)))
            d = np.r_[0., np.pi, rs.uniform(-7, 7, 4)]
            if j == 2:
                d = d[2]
            use = [None, v, v.tolist(), np.r_[v, 1.]][j]
            out, exc = call(sph.bandlimited_dirac, N, d, *(
                [] if use is None else [use]))
            log.append(dict(ev='dirac', exc=exc, N=N, d=fxa(np.atleast_1d(d)),
                            w=[] if use is None else fxa(use),
                            out=[] if exc else fxa(out), same=same((k0, v))))
        traces.append(log)
    for i in range(c.n(70, 600)):
        N, J = i % 6, [1, 2, 5][i % 3]
        if i % 17 == 9:
            N, J = [8, 7, 10, 13][(i + c.seed) // 17 % 4], 12
        if i % 36 == 11:         # the hypercardioid, named 0 and 1
            N = 11 + i % 3
        azi, zen = awkward(rs, J)
        name = (NAMES + ['', '', 'Cardioid', 'MAX_RE', 'omni'])[i % 11]
        wn = rs.uniform(-1, 1, N + 1 + (name == '' and i % 4 == 0))
        pat = name or (wn.tolist() if i % 2 else wn)
        out, exc = call(parsa.sh_beamformer_from_pattern, pat, N,
                        list(azi) if i % 3 == 1 else azi,
                        list(zen) if i % 3 == 1 else zen)
        log = [dict(ev='beam', exc=exc, name=name.lower(), N=N, w=fxa(wn),
                    azi=fxa(azi), zen=fxa(zen), dirs=fxa(unit(rs, 4)),
                    out=[] if exc else fxa(out))]
        C = (N + 1) ** 2
        W = rs.uniform(-1, 1, (J, C)) if exc else out
        S = [1, 2, 6][i // 3 % 3] if i % 17 != 8 else 100
        x = rs.uniform(-1, 1, (C, S))
        k0 = W.copy(), x.copy()
        wa = W[0] if J == 1 and i % 2 else W
        xa = x[:, 0] if S == 1 else x.tolist() if i % 7 == 0 else x
        y, exc = call(parsa.sh_beamform, wa, xa)
        log.append(dict(ev='beamform', exc=exc, w=fxa(W), sig=fxa(x),
                        out=[] if exc else fxa(y),
                        same=same((W, k0[0]), (x, k0[1]))))
        if i % 8 == 0:
            _, exc = call(parsa.sh_beamform, W, np.r_[x, x[:1]])
            log.append(dict(ev='beamform', exc=exc, w=fxa(W),
                            sig=fxa(np.r_[x, x[:1]])))
        Q = [1, 4, 9][i % 3] if i % 17 != 8 else 40
        p, g = unit(rs, Q) * rs.uniform(.5, 2), rs.uniform(-1, 1, (S, Q))
        if i % 3 == 1:
            g[0] = 0
        if i % 9 == 4:
            g = np.c_[g, g[:, :1]]
        k = 2. ** [0, 0, -17, 0, 12][i % 5]        # loudness plays no role
        res, exc = call(sph.r_E, p, k * g)
        vec, mag = res or ([], [])
        log.append(dict(ev='rE', exc=exc, p=fxa(p), g=fxa(g),
                        vec=fxa(vec) if len(vec) else [],
                        mag=fxa(mag) if len(mag) else []))
        n = [4, 1, 30, 3][i % 4]
        p = unit(rs, n) * rs.uniform(.01, 30, (n, 1))
        far = 2. ** [0, -14, 0, 12, -24][i % 5]     # the direction is kept
        out, exc = call(sph.project_on_sphere, *(p * far).T.copy())
        log.append(dict(ev='project', exc=exc, p=fxa(p),
                        out=[] if exc else fxa(np.array(out).T), same=True))
        traces.append(log)
    c.validate('TraceSph', traces, jobs=8)


def C19(c):
    """Spherical filter banks and sector beamformers."""
    rs = c.nprng(19)
    sph, grids, u = c.spa.sph, c.spa.grids, c.spa.utils
    traces = []
    reg = c.n(72, 500)
    for i in range(reg + c.n(3, 18)):
        N = [1, 2, 3, 0][i // 3 % 4] if i < reg else [4, 5][i // 3 % 2]
        kind = ['real', 'complex'][i // 6 % 2]
        mode = ['perfect', 'energy', 'pinv'][i % 3]
        exact = i % 9 < 7 or i >= reg
        if exact:
            v = grids.load_t_design(2 * N + 1 + i % 2) if i % 4 or N == 0 \
                else grids.load_n_design(2 * N + 2)
            d = u.vec2dir(v)
            azi, zen = d[:, 0], d[:, 1]
        else:
            azi, zen = directions(rs, [2, 3, 9][i // 9 % 3])
        cn = [sph.maxre_modal_weights, sph.cardioid_modal_weights,
              sph.hypercardioid_modal_weights,
              lambda n: rs.uniform(.3, 1, n + 1)][i // 2 % 4](N)
        A0 = cn.copy()
        md = mode.upper() if i % 8 == 5 else mode
        kw = {} if kind == 'real' and i % 2 else dict(sh_type=kind)
        if i % 5 == 3:
            azi, zen = list(azi), list(zen)
        res, exc = call(sph.design_sph_filterbank, N, azi, zen,
                        cn.tolist() if i % 5 == 1 else cn, md, **kw)
        A, B = res or ([], [])
        pa, pz = directions(rs, 3)
        if mode == 'pinv' and not exact and not exc and \
                np.linalg.svd(A)[1].min() < .02:
            continue
        log = [dict(ev='bank', exc=exc, kind=kind, mode=mode, N=N,
                    cn=fxa(cn), azi=fxa(azi), zen=fxa(zen), exact=exact,
                    A=cols(A) if len(A) else [], B=cols(B) if len(B) else [],
                    pazi=fxa(pa), pzen=fxa(pz), same=same((A0, cn)))]
        if not exc:
            for m in ('amplitude', 'amp', 'energy', 'EN', 'power'):
                b, exc = call(sph.sph_filterbank_reconstruction_factor,
                              A[0] if i % 2 else A, len(A), m)
                w = A[0]
                if kind == 'complex' and m in ('energy', 'EN'):
                    b = complex(b).real if b is not None else b
                elif b is not None:
                    b = complex(b).real
                log.append(dict(ev='beta', exc=exc, mode=m.lower(),
                                w=cxa(np.asarray(w)), J=len(A),
                                out=[] if exc else fx(b)))
            if kind == 'real':
                A = A[:6]
                k0 = A.copy()
                out, exc = call(c.spa.parsa.sh_sector_beamformer, A)
                log.append(dict(ev='sector', exc=exc, A=fxa(A),
                                dirs=fxa(unit(rs, 4)),
                                out=[] if exc else fxa(out),
                                same=same((k0, A))))
        traces.append(log)
    for i in range(c.n(3, 8)):     # weights that become very small
        N, mode = [5, 6][i // 3 % 2], ['perfect', 'pinv', 'energy'][i % 3]
        kind = ['real', 'complex'][(i + c.seed) % 2]
        d = u.vec2dir(grids.load_t_design(2 * N + 1))
        cn = sph.cardioid_modal_weights(N)
        res, exc = call(sph.design_sph_filterbank, N, d[:, 0], d[:, 1], cn,
                        mode, sh_type=kind)
        A, B = res or ([], [])
        pa, pz = directions(rs, 2)
        traces.append([dict(
            ev='bank', exc=exc, kind=kind, mode=mode, N=N, cn=fxa(cn),
            azi=fxa(d[:, 0]), zen=fxa(d[:, 1]), exact=True, same=True,
            A=cols(A) if len(A) else [], B=cols(B) if len(B) else [],
            pazi=fxa(pa), pzen=fxa(pz))])
    for N in (5, 6, 7)[:c.n(2, 3)]:     # any pattern of a higher order
        A = rs.uniform(-1, 1, (2, (N + 1) ** 2))
        out, exc = call(c.spa.parsa.sh_sector_beamformer, A)
        traces.append([dict(ev='sector', exc=exc, A=fxa(A),
                            dirs=fxa(unit(rs, 3)), same=True,
                            out=[] if exc else fxa(out))])
    _, exc = call(sph.design_sph_filterbank, 1, [0.], [1.], [1., 1.], 'none')
    traces.append([dict(ev='bank', exc=exc, mode='none')])
    c.validate('TraceSph', traces, jobs=8)
