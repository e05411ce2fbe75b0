"""Coordinates, rotations and sampling grids: C21 - C24."""
import os

import numpy as np

from vlib import call, cxa, fx, fxa
from hrirs import directions
from sph import angles, awkward, same, unit


def points(rs, n, i):
    """Points over all octants, on axes and planes, near the poles."""
    p = unit(rs, n) * 10 ** rs.uniform(-1.5, 2, (n, 1))
    k = rs.randint(0, 6, n)
    p[k == 0, rs.randint(3)] = 0
    for j in np.where(k == 1)[0]:
        p[j] = 0
        p[j, rs.randint(3)] = [1, -1, 2.5][rs.randint(3)]
    p[k == 2, 2] *= 1e3 ** rs.uniform(-1, 1)
    if i % 4 == 3:
        p = np.rint(p)
        p[np.all(p == 0, axis=1)] = [0, -3, 1]
    return p


def C21(c):
    """Coordinate conversions and spherical distances."""
    rs = c.nprng(21)
    u = c.spa.utils
    traces = []
    for i in range(c.n(90, 800)):
        log = []
        n = [1, 4, 7][i % 3] if i % 31 != 17 else 300
        p = points(rs, n, i)
        a = p.T.copy()
        if i % 8 == 3:
            a = a.astype(int)
        arg = [a[0], a[1], a[2]]
        if n == 1 and i % 2:
            arg = [float(v[0]) for v in a]
        elif i % 5 == 1:
            arg = [v.tolist() for v in a]
        k0 = [np.array(v) for v in arg]
        pos, steady = bool(i % 2), bool(i // 2 % 2)
        kw = {}
        if pos or i % 3:
            kw['positive_azi'] = pos
        if steady or i % 5:
            kw['steady_zen'] = steady
        res, exc = call(u.cart2sph, *arg, **kw)
        res = [np.ravel(v) for v in res] if res else [[]] * 3
        log.append(dict(ev='tosph', exc=exc, p=fxa(p), pos=pos,
                        azi=fxa(res[0]), zen=fxa(res[1]), r=fxa(res[2]),
                        same=same(*zip(arg, k0))))
        # however short: lengths are logged in units of the scale
        k = [2. ** -12, 2. ** -25, 2. ** -39, 2. ** 30][i % 4]
        res, exc = call(u.cart2sph, *(k * a.astype(float)),
                        positive_azi=pos, steady_zen=i % 3 > 0)
        res = [np.ravel(v) for v in res] if res else [np.zeros(0)] * 3
        log.append(dict(ev='tosph', exc=exc, p=fxa(p), pos=pos, same=True,
                        azi=fxa(res[0]), zen=fxa(res[1]),
                        r=fxa(res[2] / k)))
        # directions
        shp = [(n,), (n, 1), (1, n)][i % 3]
        b = [v.reshape(shp).astype(float) for v in a]
        res, exc = call(u.cart2dir, *b)
        log.append(dict(ev='todir', exc=exc, p=fxa(p), want=list(shp),
                        shape=[] if exc else list(np.shape(res[0])),
                        azi=[] if exc else fxa(np.ravel(res[0])),
                        zen=[] if exc else fxa(np.ravel(res[1])),
                        same=same(*zip([v.ravel() for v in b], a))))
        v = np.stack(b, axis=-1)
        if n == 1 and i % 2:
            v = v.reshape(3)
        k0 = v.copy()
        res, exc = call(u.vec2dir, v)
        log.append(dict(ev='todir', exc=exc, p=fxa(p),
                        want=list(v.shape[:-1]) + [2],
                        shape=[] if exc else list(np.shape(res)),
                        azi=[] if exc else fxa(np.ravel(res[..., 0])),
                        zen=[] if exc else fxa(np.ravel(res[..., 1])),
                        same=same((v, k0))))
        # back
        azi, zen = awkward(rs, n)
        r = 10 ** rs.uniform(-2, 2, n)
        for f, elev in ((u.sph2cart, False), (u.matlab_sph2cart, True),
                        (u.dir2cart, False)):
            second = np.pi / 2 - zen if elev else zen
            ar = [azi.copy(), second.copy(), r.copy()]
            rr = r
            if f is u.dir2cart:
                ar, rr = ar[:2], np.ones(n)
            elif i % 3 == 0:
                ar[2], rr = float(r[0]), np.full(n, r[0])
            elif i % 3 == 1:
                ar, rr = ar[:2], np.ones(n)
            if i % 5 == 1 and n % 2 == 0:      # any shape
                ar = [x.reshape(2, -1) if np.ndim(x) else x for x in ar]
            if i % 4 == 2 and f is u.sph2cart:
                ar = [x.tolist() if np.ndim(x) else x for x in ar]
            k0 = [np.array(x) for x in ar]
            res, exc = call(f, *ar)
            log.append(dict(ev='tocart', exc=exc, elev=elev, azi=fxa(azi),
                            zen=fxa(second), r=fxa(rr), out=[] if exc or
                            any(np.shape(x) != k0[0].shape for x in res) else
                            fxa(np.stack(res, -1).reshape(n, 3)),
                            same=same(*zip(ar, k0))))
        for f, torad in ((u.deg2rad, True), (u.rad2deg, False)):
            x = rs.uniform(-3, 3, n) * (360 if torad else 2 * np.pi)
            if torad and i % 2:
                x = np.rint(x / 15) * 15.
            k0 = x.copy()
            y = float(x[0]) if n == 1 and i % 2 else x
            if i % 5 == 1 and n % 2 == 0:
                y = x.reshape(2, -1)
            res, exc = call(f, y)
            log.append(dict(ev='degrees', exc=exc, torad=torad, x=fxa(x),
                            out=[] if exc or np.shape(res) != np.shape(y)
                            else fxa(np.ravel(res)),
                            same=same((x, k0))))
        v1, v2 = points(rs, 1, i)[0], points(rs, n, i)
        if i % 5 == 2:
            v2[0] = v1 * -2.
        if i % 5 == 3:
            v2[0] = v1 * 3.
        vi, kw = np.zeros(3), {}
        if i % 3 == 1:
            vi = rs.uniform(-1, 1, 3)
            kw['vi'] = vi
        if np.linalg.norm(v1 - vi) > 1e-3 and \
                np.linalg.norm(v2 - vi, axis=1).min() > 1e-3:
            w = v2[0] if n == 1 and i % 2 else v2
            k0 = v1.copy(), v2.copy(), vi.copy()
            z = [1, 2. ** -20, 1, 2. ** 30][i // 2 % 4] if not kw else 1
            res, exc = call(u.angle_between, (v1 * z).tolist()
                            if i % 4 == 1 else v1 * z if z != 1 else v1,
                            (w * z).tolist() if i % 4 == 1 and not kw else
                            w * z if z != 1 else w, **kw)
            log.append(dict(ev='angle', exc=exc, v1=fxa(v1), v2=fxa(v2),
                            vi=fxa(vi), out=[] if exc else
                            fxa(np.atleast_1d(res)),
                            same=same((v1, k0[0]), (v2, k0[1]), (vi, k0[2]))))
        a1, z1 = awkward(rs, n)
        a2, z2 = awkward(rs, n)
        if i % 4 == 1:
            d = 10 ** rs.uniform(-5, -1)
            a2, z2 = a1 + d * rs.randn(n), np.clip(z1 + d * rs.randn(n), 0,
                                                   np.pi)
        ar = [a1, z1, a2, z2]
        if i % 3 == 0:
            ar = [x.tolist() for x in ar]
        shape = ()
        if i % 5 == 2 and n % 2 == 0:
            ar = [np.reshape(x, (2, -1)) for x in ar]
            shape = ar[0].shape
        r, kw = 1., {}
        if i % 2:
            r = float(rs.uniform(.2, 9))
            kw['r'] = r
        k0 = [np.array(x) for x in ar]
        res, exc = call(u.haversine, *ar, **kw)
        log.append(dict(ev='haversine', exc=exc, azi1=fxa(a1), zen1=fxa(z1),
                        azi2=fxa(a2), zen2=fxa(z2), r=fx(r), out=[] if exc
                        or shape and np.shape(res) != shape
                        else fxa(np.ravel(res)), same=same(*zip(ar, k0))))
        tri = points(rs, 3, i)
        k0 = tri.copy()
        res, exc = call(u.area_triangle, *tri)
        log.append(dict(ev='area', exc=exc, p=fxa(tri),
                        out=[] if exc else fx(res), same=same((tri, k0))))
        if i % 10 == 0:
            res, exc = call(u.cart2sph, 0., 0., 0., steady_zen=True)
            log.append(dict(ev='origin', exc=exc, **({} if exc else dict(
                azi=fx(res[0]), zen=fx(res[1]), r=fx(res[2])))))
        traces.append(log)
    c.validate('TraceGeo', traces, jobs=8)


ROT = '''INIT Init
NEXT Next
INVARIANTS %s
CHECK_DEADLOCK FALSE
CONSTANTS Reversed = %s Fixed = %s MaxLen = %d Gen = %s
'''
AXIS = dict(yaw=[0, 0, 1.], pitch=[0, 1., 0], roll=[1., 0, 0])


def rotation(c, rs, op, i, quarter):
    """Event fields and the matrix the library builds for one operation."""
    u = c.spa.utils
    th = np.pi / 2 if quarter else float(rs.uniform(-4, 4))
    if op[0] == 'euler':
        a = dict(yaw=0., pitch=0., roll=0.)
        a[op[1]] = th
        R, exc = call(u.rotation_euler, **{k: v for k, v in a.items()
                                           if v or i % 2})
        return R, exc, dict(op='euler', **{k: fx(v) for k, v in a.items()})
    if op[0] == 'rod':
        k = np.array(op[1], float)
        if not quarter:
            k = unit(rs, 1)[0]
        R, exc = call(u.rotation_rodrigues, k, th)
        return R, exc, dict(op='rod', k=fxa(k), theta=fx(th))
    f, t = np.array(op[1], float), np.array(op[2], float)
    if not quarter:
        f, t = unit(rs, 2)
        if f @ t < -.99:
            t = -t
    R, exc = call(u.rotation_vecvec, f, t)
    return R, exc, dict(op='vec', f=fxa(f), t=fxa(t))


def C22(c):
    """Rotation matrices and their composition."""
    rs = c.nprng(22)
    u = c.spa.utils
    inv = 'Orthogonal Proper Composes Undone Arrives'
    c.mc('RotHistory', ROT % (inv, 'FALSE', 'TRUE', 0, 'FALSE'))
    c.mc('RotHistory', ROT % ('Undone', 'TRUE', 'TRUE', 0, 'FALSE'),
         expect='Undone')
    c.mc('RotHistory', ROT % ('Orthogonal', 'FALSE', 'FALSE', 0, 'FALSE'),
         expect='Orthogonal')
    progs = c.gen('RotHistory', ROT % ('PrintProg', 'FALSE', 'TRUE', 2 +
                                       c.thorough, 'TRUE'))
    c.notes.append('%d programs enumerated by TLC' % len(progs))
    cap = c.n(250, 3000)
    if len(progs) > cap:
        progs = c.rng.sample(progs, cap)
    traces = []
    for i, (v0, prog) in enumerate(progs):
        v, F = np.array(v0, float), np.eye(3)
        quarter = i % 2 == 0
        if not quarter:
            v = unit(rs, 1)[0]
        log = [dict(ev='start', v=fxa(v), frame=fxa(F))]
        for op in prog * (1 + i % 2):
            R, exc, e = rotation(c, rs, op, i, quarter)
            if not exc:
                F, v = R @ F, R @ v
            log.append(dict(ev='turn', exc=exc, frame=fxa(F), v=fxa(v), **e))
            if exc:
                break
        traces.append(log)
    for i in range(c.n(120, 1200)):
        log = []
        ypr = angles(rs, i)
        R, exc = call(u.rotation_euler, *ypr[:1 + i % 3])
        ypr[1 + i % 3:] = [0.] * (2 - i % 3)
        log.append(dict(ev='rotation', op='euler', exc=exc, yaw=fx(ypr[0]),
                        pitch=fx(ypr[1]), roll=fx(ypr[2]),
                        out=[] if exc else fxa(R), same=True))
        k = unit(rs, 1)[0] * [1., 1., rs.uniform(.1, 20)][i % 3]
        if i % 5 == 1:
            k = np.eye(3)[rs.randint(3)]
        th = [float(rs.uniform(-20, 20)), 0., np.pi, -np.pi / 2,
              float(10 ** rs.uniform(-8, 0) * rs.choice([-1, 1]))][i % 5]
        a = k.tolist() if i % 4 == 1 else k
        k0 = np.array(k)
        R, exc = call(u.rotation_rodrigues, a, th)
        log.append(dict(ev='rotation', op='rod', exc=exc, k=fxa(k),
                        theta=fx(th), out=[] if exc else fxa(R),
                        same=same((a, k0))))
        f, t = unit(rs, 2)
        k = i % 7
        if k == 6:       # almost opposite
            t = np.cross(f, unit(rs, 1)[0])
            t = -f + 10 ** rs.uniform(-9.5, -2) * t / np.linalg.norm(t)
        elif k == 1:       # nearly parallel
            t = f + 10 ** rs.uniform(-5, -1) * unit(rs, 1)[0]
        elif k == 2:
            f, t = [np.eye(3)[j] for j in rs.permutation(3)[:2]]
        elif k == 3:     # far from each other
            t = -f + rs.uniform(.1, .5) * unit(rs, 1)[0]
        elif k == 4:     # on one line
            f = np.round(f, 3) if i % 4 else np.eye(3)[rs.randint(3)]
            t = f * [1., -1., 2., -.5][i // 7 % 4]
        if i % 2:
            f, t = f * rs.uniform(.2, 5), t * rs.uniform(.2, 5)
        if k == 4:
            t = f * [1., -1., 2., -.5][i // 7 % 4]
        a, b = (f.tolist(), t.tolist()) if i % 7 == 0 else (f, t)
        k0 = f.copy(), t.copy()
        R, exc = call(u.rotation_vecvec, a, b)
        log.append(dict(ev='rotation', op='vec', exc=exc, f=fxa(f), t=fxa(t),
                        out=[] if exc else fxa(R),
                        same=same((a, k0[0]), (b, k0[1]))))
        for _ in range(4 if k == 6 else 0):
            f, t = unit(rs, 2)
            t = np.cross(f, t)
            t = -f + 10 ** rs.uniform(-9.5, -7.5) * t / np.linalg.norm(t)
            R, exc = call(u.rotation_vecvec, f, t)
            log.append(dict(ev='rotation', op='vec', exc=exc, f=fxa(f),
                            t=fxa(t), out=[] if exc else fxa(R), same=True))
        traces.append(log)
    c.validate('TraceGeo', traces, jobs=8)


def C23(c):
    """Tabulated grids."""
    rs = c.nprng(23)
    g = c.spa.grids
    loads = dict(t=g.load_t_design, n=g.load_n_design, lebedev=g.load_lebedev,
                 fliege=g.load_Fliege_Maier_nodes)
    todo = [('t', d) for d in range(-1, 24)]
    todo += [('fliege', d) for d in range(0, 33)]
    nd, lb = list(range(-1, 31)), list(range(1, 36))
    top = c.n(4, 60)
    nd += sorted(c.rng.sample(range(31, 125), top)) + [124, 125, 130]
    lb += sorted(c.rng.sample(range(36, 132), top)) + [131, 132, 140]
    todo += [('n', d) for d in nd] + [('lebedev', d) for d in lb]
    traces = []
    for kind, d in todo:
        res, exc = call(loads[kind], d)
        p, w, again = [], [], True
        if not exc:
            p, w = res if isinstance(res, tuple) else (res, [])
            k0 = np.array(p), np.array(w)
            p *= 0.5                     # ours to scribble on
            if len(w):
                w += 1
            r2, e2 = call(loads[kind], d)
            if not e2:
                r2 = r2 if isinstance(r2, tuple) else (r2, [])
            again = not e2 and same((r2[0], k0[0]), (r2[1], k0[1]))
            p, w = k0
        traces.append([dict(ev='table', exc=exc, kind=kind, degree=d,
                            p=fxa(p) if len(p) else [],
                            w=fxa(w) if len(w) else [], again=again,
                            u=fxa(unit(rs, 3 if len(p) < 1000 else 1)))])
    # maximum determinant points: the table (not shipped) is made up
    from scipy.io import savemat
    lib, data = c.spa_in('grids')
    for i in range(c.n(2, 8)):
        have = sorted(set([[1, 2, 4, 5, 9, 100, 198], [3, 7, 10, 99, 200]][
            i % 2] + [int(v) for v in rs.randint(1, 200, 4)]))
        tab = {}
        for d in have:
            p = unit(rs, 3 + d % 5)
            tab[d] = np.c_[p, rs.uniform(-.2, 1, len(p))]
        savemat(os.path.join(data, 'Grids', 'maxDetPoints_1_200.mat'),
                {'maxDet_%03d' % d: v for d, v in tab.items()})
        log = []
        for d in sorted(set([-1, 0, 1, 2, 3, 9, 10, 11, 98, 100, 101, 197,
                             198, 199, 200, 201, 999] + have)):
            res, exc = call(lib.grids.load_maxDet, d)
            log.append(dict(ev='maxdet', exc=exc, degree=d, have=have,
                            tab=[fxa(tab[k]) for k in have],
                            p=[] if exc else fxa(res[0]),
                            w=[] if exc else fxa(res[1])))
        traces.append(log)
    for name in ('tetra', 'tetrahedron'):
        v, exc = call(c.spa.sph.platonic_solid, name)
        traces.append([dict(ev='solid', exc=exc, v=[] if exc else fxa(v))])
    c.validate('TraceGeo', traces, jobs=8)


def C24(c):
    """Analytic quadratures and computed weights."""
    rs = c.nprng(24)
    g, sph, u = c.spa.grids, c.spa.sph, c.spa.utils
    traces = []
    for n in list(range(c.n(11, 40))) + [[14, 20, 17][c.seed % 3], 59, 30]:
        log = []
        for f in (g.equal_angle, g.gauss) if n < 30 or c.thorough else ():
            res, exc = call(f, n)
            azi, zen, w = res or ([], [], [])
            log.append(dict(ev='quadrature', exc=exc, n=n, azi=fxa(azi),
                            zen=fxa(zen), w=fxa(w), u=fxa(unit(rs, 3))))
        res, exc = call(g.equal_polar_angle, n)
        pol, w = res or ([], [])
        log.append(dict(ev='circle', exc=exc, n=n, pol=fxa(pol), w=fxa(w)))
        traces.append(log)
    for i in range(c.n(32, 250)):
        N = 1 + i % 3 if i % 7 else 4 + i // 7 % 4
        k = i // 3 % 4
        if i == 5:
            N, k = [10, 12, 11][c.seed % 3], 2
        if k == 0:
            azi, zen = directions(rs, (N + 1) ** 2 + 4 + i % 20)
        elif k == 1:
            d = u.vec2dir(g.load_t_design(2 * N + i % 3))
            azi, zen = d.T.copy()
        elif k == 2:
            azi, zen, _ = g.gauss(N)
        else:
            d = u.vec2dir(g.load_Fliege_Maier_nodes(N + 2)[0])
            azi, zen = d.T.copy()
        Y = sph.sh_matrix(N, azi, zen, 'real')
        if np.linalg.cond(Y) > 200:
            continue
        a = [azi.tolist(), zen.tolist()] if i % 5 == 1 else [azi, zen]
        k0 = azi.copy(), zen.copy()
        w, exc = call(g.calculate_grid_weights, *a, N)
        wit = [] if exc else np.linalg.pinv(Y) @ w
        log = [dict(ev='gridweights', exc=exc, N=N, azi=fxa(azi),
                    zen=fxa(zen), w=[] if exc else fxa(w),
                    wit=[] if exc else fxa(wit),
                    same=same((azi, k0[0]), (zen, k0[1])))]
        if k:            # the order is found by itself
            w, exc = call(g.calculate_grid_weights, azi, zen)
            log.append(dict(ev='gridweights', exc=exc, N=N, azi=fxa(azi),
                            zen=fxa(zen), w=[] if exc else fxa(w), wit=[],
                            same=same((azi, k0[0]), (zen, k0[1]))))
        if N < 3 or i == 7 * (1 + c.seed % 2):
            kind = ['real', 'complex'][i % 2]
            Y = sph.sh_matrix(N, azi, zen, kind)
            lam, V = np.linalg.eigh(Y.conj().T @ Y)
            res, exc = call(sph.check_cond_sht, N, azi, zen, kind, *(
                [] if i % 2 else [np.inf]))
            log.append(dict(ev='cond', exc=exc, N=N, kind=kind, azi=fxa(azi),
                            zen=fxa(zen), lam=fxa(lam), V=cxa(V),
                            out=fx(0 if exc else res)))
        traces.append(log)
    for i in range(c.n(12, 60)):       # what is seen from far away
        N = 1 + i % 3
        azi = rs.uniform(-3, 3) + rs.uniform(-.3, .3, (N + 1) ** 2 + 3 + i)
        zen = 1.3 + rs.uniform(-.3, .3, len(azi))
        if np.linalg.cond(sph.sh_matrix(N, azi, zen, 'real')) < 5e4:
            w, exc = call(g.calculate_grid_weights, azi, zen, N)
            traces.append([dict(ev='gridweights', exc=exc, N=N, azi=fxa(azi),
                                zen=fxa(zen), w=[] if exc else fxa(w), wit=[],
                                same=True)])
        if i % 3 == 1:                 # on a plane
            azi, zen = rs.uniform(-3, 3, 9), np.full(9, 1.5)
        elif i % 3 == 2:               # not even four
            azi, zen = directions(rs, 1 + i // 3 % 3)
        _, exc = call(g.calculate_grid_weights, azi, zen)
        traces.append([dict(ev='nogrid', exc=exc)])
    c.validate('TraceGeo', traces, jobs=8)
