"""Figures: C27 (data), C41 (frame)."""
import contextlib
import io
import multiprocessing
import warnings

import numpy as np

from vlib import call, cxa, fx, fxa
from hrirs import directions
from setup import cube, doc_layout, dome, octa, random_layout, usable


def plt_():
    import matplotlib.pyplot as plt
    return plt


def newest(before):
    """The figure a call opened."""
    plt = plt_()
    n = [k for k in plt.get_fignums() if k not in before]
    return plt.figure(n[-1]) if n else None


def draw(fn, *a, **k):
    """(figure, exception name) of a call that opens a figure."""
    before = list(plt_().get_fignums())
    _, exc = call(fn, *a, **k)
    fig = newest(before)
    if fig is not None and not exc:
        with warnings.catch_warnings(), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            fig.draw_without_rendering()
    elif not exc:
        exc = 'NoFigure'
    return fig, exc


def curves(ax):
    """Data of the lines that have any."""
    ls = [q for q in ax.get_lines() if len(q.get_xdata())]
    return ([np.asarray(q.get_xdata(), float) for q in ls],
            [np.asarray(q.get_ydata(), float) for q in ls])


def legend(ax):
    lg = ax.get_legend()
    return [t.get_text() for t in lg.get_texts()] if lg else []


def polys(ax):
    """3D polygon collections: facets (vertices, rgba), dashed."""
    from mpl_toolkits.mplot3d.art3d import Poly3DCollection
    out = []
    for c in ax.collections:
        if isinstance(c, Poly3DCollection):
            v = np.asarray(c._vec)[:3].T
            col = np.atleast_2d(c._facecolor3d)
            fac = [(v[s], col[k % len(col)])
                   for k, s in enumerate(c._segslices)]
            out.append((fac, c.get_linestyle()[0][1] is not None))
    return out


def clouds(ax):
    """Scatter artists of 3D axes: points and values."""
    from mpl_toolkits.mplot3d.art3d import Path3DCollection
    return [(np.array([np.ma.filled(o, np.nan) for o in c._offsets3d], float).T,
             c) for c in ax.collections if isinstance(c, Path3DCollection)]


def lut(rgb, name):
    """Entry of the colour table."""
    import matplotlib
    t = matplotlib.colormaps[name](np.arange(256))[:, :3]
    d = np.abs(t - np.asarray(rgb)[:3]).max(1)
    return int(np.argmin(d)) if d.min() < 2e-3 else -1000


def bands(ax, azi, zen):
    """Levels of the filled contours around a point (and in how many)."""
    from matplotlib.contour import ContourSet
    from matplotlib.path import Path
    cs = [c for c in ax.collections if isinstance(c, ContourSet)][0]
    hit = []
    for k, p in enumerate(cs.get_paths()):
        inside = 0
        for poly in p.to_polygons(closed_only=True):
            inside += Path(poly).contains_point((azi, zen))
        if inside % 2:
            hit.append(k)
    lv = cs.levels
    lo, hi = (lv[min(hit)], lv[max(hit) + 1]) if hit else (np.nan, np.nan)
    return dict(n=1 if hit and max(hit) - min(hit) < 2 else 0, lo=lo, hi=hi), cs


def lines(c, rs, log):
    pl = c.spa.plot
    i = rs.randint(1000)
    # spectrum
    n, fs, k = rs.randint(4, 17), int(rs.choice([8, 48000])), rs.randint(1, 4)
    x = [rs.randn(n) for _ in range(k)]
    kw = {}
    scale, db = bool(i % 2), bool(i // 2 % 2)
    smooth = [0, 0, 3, 1][rs.randint(4)]
    labels = [[], ['a', 'b', 'c'][:k]][rs.randint(2)]
    rng = [[], [30], [12]][rs.randint(3)]
    if rng and (rng[0] != 30 or i % 5):
        kw['ylim'] = rng[0]
    if not rng:
        kw['ylim'] = (-20., 7.)
    if not db or i % 3:
        kw['TODB'] = db
    if smooth:
        kw['smoothing_n'] = smooth
    if labels:
        kw['labels'] = tuple(labels) if i % 4 == 1 else list(labels)
        if k == 1 and i % 4 == 3:
            kw['labels'] = labels[0]

    def seen(fig):
        ax = fig.axes[0]
        xs, ys = curves(ax)
        return dict(xs=[fxa(v) for v in xs], ys=[fxa(v) for v in ys],
                    legend=legend(ax), ylim=fxa(ax.get_ylim()))
    fig, exc = draw(pl.spectrum, x[0] if k == 1 and i % 3 else x, fs,
                    **dict(kw, **(dict(scale_mag=scale) if scale else {})))
    f = np.arange(n // 2 + 1) * fs / n
    log.append(dict(ev='spectrum', exc=exc, x=[fxa(v) for v in x], fs=fs,
                    db=db if 'TODB' in kw else True, scale=scale,
                    smooth=smooth, labels=labels, freq=fxa(f), range=rng,
                    **(seen(fig) if not exc else {})))
    m = [np.abs(rs.randn(9)) * 10 ** rs.uniform(-2, 2) for _ in range(k)]
    if i % 3 == 1 and not smooth:
        m[0][6] = 7e-8           # far down, but there
    if i % 2:
        m[0][4] = 0
        kw.pop('smoothing_n', None)
        smooth = 0
    if not kw.get('TODB', True) and i % 2:
        m[0][3] *= -1
    f = np.sort(rs.uniform(20, 2e4, 9))
    fig, exc = draw(pl.freq_resp, f, m[0] if k == 1 else m, **kw)
    log.append(dict(ev='freq', exc=exc, mags=[fxa(v) for v in m],
                    db=kw.get('TODB', True), smooth=smooth, labels=labels,
                    freq=fxa(f), range=rng, **(seen(fig) if not exc else {})))
    # transfer function
    h = rs.randn(12) + 1j * rs.randn(12) if i % 3 else rs.randn(12)
    h = h * 10 ** rs.uniform(-2, 2, 12)
    f = np.sort(rs.uniform(20, 2e4, 12))
    fig, exc = draw(pl.transfer_function, f, h,
                    **({} if i % 2 else dict(title='H')))
    e = dict(ev='transfer', exc=exc, h=cxa(h.astype(complex)), freq=fxa(f))
    if not exc:
        (x1,), (y1,) = curves(fig.axes[0])
        (x2,), (y2,) = curves(fig.axes[1])
        e.update(x1=fxa(x1), x2=fxa(x2), db=fxa(y1), ph=fxa(y2))
    log.append(e)
    # roots
    b, a = (np.r_[rs.choice([1., 2, -.5]), rs.randn(rs.randint(0, 5))]
            for _ in range(2))
    zp = bool(i % 2)
    fig, exc = draw(pl.zeropole, b, a, **(dict(zPlane=zp) if zp or i % 3
                                          else {}))
    e = dict(ev='roots', exc=exc, b=fxa(b), a=fxa(a), zplane=zp)
    if not exc:
        ax = fig.axes[0]
        off = {q.get_label(): np.ma.filled(q.get_offsets(), np.nan)
               for q in ax.collections}
        circ = [p for p in ax.patches + ax.artists
                if type(p).__name__ == 'Circle' and p.radius == 1]
        e.update(z=fxa(off['Zeros']) if len(off['Zeros']) else [],
                 p=fxa(off['Poles']) if len(off['Poles']) else [],
                 circle=bool(circ))
    log.append(e)
    # A and B format
    fs = int(rs.choice([1000, 48000]))
    x = rs.randn(4, 7)
    A = c.spa.sig.MultiSignal([*x], fs=fs)
    B = c.spa.sig.AmbiBSignal([*rs.randn(4, 7)], fs=fs)
    fig, exc = draw(pl.compare_ambi, A, B)
    e = dict(ev='ambi', exc=exc, a=fxa(x), b=fxa(B.get_signals()), fs=fs)
    if not exc:
        (ta, ya), (tb, yb) = (curves(ax) for ax in fig.axes)
        e.update(ta=fxa(ta), ya=fxa(ya), tb=fxa(tb), yb=fxa(yb))
    log.append(e)
    # polar
    th = np.linspace(0, 2 * np.pi, 15)
    r = rs.uniform(-1.2, 1.2, 15)
    db = bool(i % 2)
    if i % 4 < 2:
        r[3] = 0.
    if i % 7 == 0:
        r = rs.randint(-3, 4, 15)
    fig, exc = draw(pl.polar, th, r.tolist() if i % 5 == 0 else r,
                    **({} if db and i % 3 else dict(TODB=db)),
                    **({} if i % 6 else dict(rlim=(-20, 3))))
    e = dict(ev='polar', exc=exc, theta=fxa(th), r=fxa(r), db=db)
    if not exc:
        q = {v.get_label(): v for v in fig.axes[0].get_lines()}
        e.update(tp=fxa(q['$+$'].get_xdata()), pos=fxa(q['$+$'].get_ydata()),
                 tn=fxa(q['$-$'].get_xdata()), neg=fxa(q['$-$'].get_ydata()))
    log.append(e)


def coefs(rs, N, cpx):
    f = rs.randn((N + 1) ** 2) * .7
    if cpx:
        f = f + .7j * rs.randn((N + 1) ** 2)
    return f


def surface_event(rs, kind, N, f, fac, col=True, wanted='', title=''):
    v = np.vstack([q for q, _ in fac])
    pick = [fac[k] for k in rs.permutation(len(fac))[:10]]
    return dict(ev='surface', exc='', kind=kind, N=N,
                coef=cxa(np.asarray(f).astype(complex)),
                verts=fxa(v[rs.permutation(len(v))[:25]]),
                all=fxa(v[np.linalg.norm(v, axis=1) > 1e-3]),
                facets=[dict(v=fxa(q), rgb=fxa(k[:3])) for q, k in pick]
                if col else [], wanted=wanted, title=title)


def surfaces(c, rs, log):
    pl, sph = c.spa.plot, c.spa.sph
    i = rs.randint(1000)
    N = rs.randint(0, 4)
    cpx = bool(i % 3 == 0)
    f = coefs(rs, N, cpx)
    kind = 'complex' if cpx else 'real'
    kw = dict(azi_steps=30, el_steps=20) if i % 4 else \
        dict(azi_steps=24, el_steps=30, cbar=False)
    if i % 5 == 1:     # real numbers as coefficients of the complex basis
        kw['sh_type'] = kind = 'complex'
    if i % 2:
        kw['title'] = 'T'
    fig, exc = draw(pl.sh_coeffs, f, **kw)
    log.append(dict(ev='surface', exc=exc) if exc else surface_event(
        rs, kind, N, f, polys(fig.axes[0])[0][0], wanted=kw.get('title', ''),
        title=fig.axes[0].get_title()))
    kw.pop('cbar', None)
    # several
    fs = [coefs(rs, rs.randint(0, 4), bool(rs.randint(2)))
          for _ in range(1 + i % 3)]
    kinds = ['complex' if np.iscomplexobj(q) else 'real' for q in fs]
    kw.pop('sh_type', None)
    kw.pop('title', None)
    tt = ['t%d' % k for k in range(len(fs))]
    fig, exc = draw(pl.sh_coeffs_subplot, fs, titles=tt, **kw)
    if exc:
        log.append(dict(ev='surface', exc=exc))
    else:
        for q, k, ax, t in zip(fs, kinds, fig.axes, tt):
            log.append(surface_event(
                rs, k, int(np.sqrt(len(q))) - 1, q, polys(ax)[0][0],
                wanted=t, title=ax.get_title()))
    fig, exc = draw(pl.sh_coeffs_overlay, fs, **kw)
    if exc:
        log.append(dict(ev='surface', exc=exc))
    else:
        p = polys(fig.axes[0])
        if len(p) != len(fs):
            log.append(dict(ev='surface', exc='Count%d' % len(p)))
        for q, k, (fac, _) in zip(fs, kinds, p):
            log.append(surface_event(rs, k, int(np.sqrt(len(q))) - 1, q, fac,
                                     col=False))
    # a function given by samples
    n = rs.randint(12, 30)
    azi, zen = directions(rs, n)
    azi = azi + (np.pi if i % 2 else 0)
    v = rs.uniform(-1.3, 1.3, n)
    if i % 4 == 3:
        v = np.abs(v)
    fig, exc = draw(pl.spherical_function, v, azi, zen)
    e = dict(ev='balls', exc=exc, azi=fxa(azi), zen=fxa(zen), f=fxa(v))
    if not exc:
        cl = clouds(fig.axes[0])[0]
        e.update(pts=fxa(cl[0]), c=fxa(cl[1].get_array()))
    log.append(e)


def maps(c, rs, log):
    pl, sph = c.spa.plot, c.spa.sph
    i = rs.randint(1000)
    N = rs.randint(1, 3)
    cpx = bool(i % 3 == 0)
    big = i % 4 == 1
    runs = [2 ** 16, rs.randint(1, 30000)] if big else \
        [1] * rs.randint(1, 5)
    if i % 8 == 5:
        runs = [40000, 2 ** 15, 2 ** 16 - 7]
    cs = [coefs(rs, N, cpx) * 10 ** rs.uniform(-.5, 1) for _ in runs]
    if i % 8 == 1:       # one loud sample, somewhere
        at = [2 ** 16 - 1, 0, 2 ** 16][i // 8 % 3]
        runs = [at, 1, 2 ** 16 + 50 - at]
        runs, cs = zip(*[(r, q) for r, q in zip(runs, [
            coefs(rs, N, cpx) * v for v in (1, 900, 1)]) if r])
    F = np.concatenate([np.repeat(q[:, None], n, axis=1)
                        for q, n in zip(cs, runs)], axis=1)
    db = bool(i % 2)
    w = None if i % 5 < 2 else rs.uniform(.3, 2, N + 1)
    kw = {} if w is None else dict(w_n=w)
    clim = [[None, None], [None, 90.], [-80., None], [-81., 95.]][rs.randint(4)]
    if clim != [None, None] or i % 3:
        kw['clim'] = tuple(clim) if rs.randint(2) else list(clim)
    if db or i % 3:
        kw['TODB'] = db
    kind = 'complex' if cpx else 'real'
    fig, exc = draw(pl.sh_rms_map, F, **kw)
    e = dict(ev='rmsmap', exc=exc, kind=kind, N=N, db=db,
             w=fxa(np.full(N + 1, 4 * np.pi / (N + 1) ** 2)
                   if w is None else w),
             clim=[[] if q is None else [fx(q)] for q in clim],
             runs=[dict(c=cxa(q.astype(complex)), n=int(n))
                   for q, n in zip(cs, runs)])
    if not exc:
        pr = []
        for _ in range(8):
            a, z = rs.uniform(-2.9, 2.9), rs.uniform(.4, np.pi - .4)
            b, ct = bands(fig.axes[0], a, z)
            pr.append(dict(azi=fx(a), zen=fx(z), n=b['n'], lo=fx(b['lo']),
                           hi=fx(b['hi'])))
        span = ct.levels[-1] - ct.levels[0]
        e.update(probes=pr, tol=fx(.01 * span),
            limits=fxa([np.nan if q is None else q
                                   for q in ct.get_clim()]))
    log.append(e)
    # function map
    n = rs.randint(8, 30)
    azi, zen = directions(rs, n)
    if i % 2:
        azi = azi + np.pi          # [0, 2 pi)
    v = rs.uniform(-2, 2, n)
    kw = {}
    clim = []
    if i % 3 == 0:
        clim = kw['clim'] = (-3., 2.5)
    if db:
        kw['TODB'] = True
    fig, exc = draw(pl.spherical_function_map, v.copy(), azi.copy(),
                    zen.copy(), **kw)
    e = dict(ev='funmap', exc=exc, azi=fxa(azi), zen=fxa(zen), f=fxa(v),
             db=db, clim=fxa(clim) if clim else [])
    if not exc:
        from matplotlib.collections import PathCollection
        s = [q for q in fig.axes[0].collections
             if isinstance(q, PathCollection)][0]
        e.update(pts=fxa(np.ma.filled(s.get_offsets(), np.nan)),
                 c=fxa(s.get_array()), limits=fxa(s.get_clim()))
    log.append(e)
    # directions of arrival
    n = rs.randint(3, 14)
    azi = rs.uniform(*[(-3, 3), (0, 6.2), (-9, 12)][i % 3], n)
    zen = rs.uniform(0, 3, n)
    p = [None, rs.uniform(0, 3, n), rs.uniform(-1, 1, n)][i // 3 % 3]
    if p is not None:
        p[rs.randint(n)] = 3.5
    fs = [0, 48000, 100][rs.randint(3)]
    kw = {}
    cin = None
    size = 250.
    if p is not None:
        kw['p'] = p.copy()
    if fs:
        kw['fs'] = fs
    elif i % 2:
        cin = rs.randn(n)
        kw['c'] = cin.copy()
    if i % 5 == 2:
        size = kw['size'] = 77.5
    if i % 7 == 2:
        kw['alpha'] = np.full(n, .5)
    if i % 4 == 2 and p is not None:
        kw['ltitle'] = 'p'
    fig, exc = draw(pl.doa, azi.copy(), zen.copy(), **kw)
    e = dict(ev='doa', exc=exc, azi=fxa(azi), zen=fxa(zen), size=fx(size),
             p=[] if p is None else fxa(p), fs=fs,
             cin=[] if cin is None else fxa(cin))
    if not exc:
        s = fig.axes[0].collections[0]
        ar = s.get_array()
        e.update(pts=fxa(np.ma.filled(s.get_offsets(), np.nan)),
                 sizes=fxa(np.resize(s.get_sizes(), n)),
                 c=[] if ar is None else fxa(ar))
    log.append(e)
    # bars
    C, L = rs.randint(1, 7), int(rs.choice([1, 4, 9]))
    groups = [1, 1, 2, 3, 2, 1, 3][C] if i % 2 else 1
    x = rs.uniform(.05, 3, (C, L)) * rs.choice([-1, 1], (C, L))
    kw = dict(TODB=db) if not db or i % 3 else {}
    if C * L == 1:
        kw['clim'] = (-30., 30.)
    elif i % 3 == 1:
        kw['clim'] = (-8., 5.)
    if groups > 1:
        kw['num_groups'] = groups
    fig, exc = draw(pl.sh_bar, x[0] if C == 1 and i % 2 else x, **kw)
    v = 20 * np.log10(np.abs(x)) if db else x
    e = dict(ev='bars', exc=exc, x=fxa(x), db=db, lim=fxa(
        kw.get('clim', (v.min(), v.max()))))
    if not exc:
        from matplotlib.collections import PathCollection
        xs = sorted({round(float(t), 6) for q in fig.axes[0].collections
                     for t in np.asarray(q.get_offsets())[:, 0]})
        mk = []
        for q in fig.axes[0].collections:
            for (a, b), col in zip(np.asarray(q.get_offsets()),
                                   q.get_facecolor()):
                mk.append(dict(i=xs.index(round(float(a), 6)) + 1,
                               j=int(round(b)) + 1, k=lut(col, 'RdYlBu_r')))
        e.update(marks=mk)
    log.append(e)


def index_of(pts, v):
    d = np.linalg.norm(np.asarray(pts) - v, axis=1)
    return int(np.argmin(d)) + 1 if d.min() < 1e-9 else 10000


def setups(c, rs, log):
    pl, dec = c.spa.plot, c.spa.decoder
    i = rs.randint(1000)
    p = [doc_layout(), octa(1.5), cube(.7), dome(), dome(6, 3, 2.2),
         random_layout(rs, rs.randint(6, 11), .8, 2.)][rs.randint(6)]
    kw = {} if i % 3 else dict(listener_position=[.08, -.1, .05])
    h, exc = call(dec.LoudspeakerSetup, p[:, 0], p[:, 1], p[:, 2], **kw)
    if exc or not usable(h):
        return
    if i % 4 < 3:
        call(h.pop_triangles, normal_limit=85,
             aperture_limit=[90, None, 100][i % 3])
    if not len(h.valid_simplices):
        return
    f = np.array(h.simplices)
    kw = {}
    if i % 5 == 1:
        f = f[rs.permutation(len(f))[:max(4, len(f) - 3)]]
        kw['simplices'] = f
    mark = bool(i % 7)
    if not mark:
        kw['mark_invalid'] = False
    dr = bool(i % 3)
    if not dr:
        kw['draw_ls'] = False
    col, clim = [], []
    if rs.randint(2):
        col = kw['color'] = rs.permutation(len(f)) * 1.5 - 2
        if rs.randint(2):
            clim = kw['clim'] = (-4., 12.)
    fig, exc = draw(pl.hull, h, **kw)
    val = np.array(h.valid_simplices)
    e = dict(ev='hull', exc=exc, pts=fxa(h.points), want=(f + 1).tolist(),
             valid=(val + 1).tolist(), mark=mark, draw=dr,
             color=fxa(col) if len(col) else [], clim=fxa(clim) if clim
             else [])
    if not (set(map(frozenset, f.tolist())) &
            set(map(frozenset, val.tolist()))):
        return
    if not exc:
        ax = fig.axes[0]
        e['drawn'] = [dict(f=[index_of(h.points, w) for w in v], dashed=dash,
                           k=lut(k, 'Spectral') if len(col) and not dash
                           else 0)
                      for fac, dash in polys(ax) for v, k in fac]
        tx = {t.get_text(): t.get_position_3d() for t in ax.texts}
        e['texts'] = [fxa(np.array(tx[str(k)], float)) for k in
                      range(len(h.points)) if str(k) in tx]
    log.append(e)
    # normals
    fn, vn = bool(i % 5), bool(i // 2 % 5)
    fig, exc = draw(pl.hull_normals, h, **{k: v for k, v in dict(
        plot_face_normals=fn, plot_vertex_normals=vn).items() if not v})
    e = dict(ev='normals', exc=exc, faces=fn, verts=vn, c=fxa(h.centroids),
             fn=fxa(h.face_normals), pts=fxa(h.points),
             vn=fxa(h.vertex_normals), lst=fxa(h.listener_position),
             bc=fxa(h.barycenter))
    if not exc:
        from mpl_toolkits.mplot3d.art3d import Line3DCollection
        ar = []
        for q in fig.axes[0].collections:
            if isinstance(q, Line3DCollection):
                seg = [np.asarray(s, float) for s in q._segments3d]
                n = len(seg) // 3             # shafts, then the heads
                for sh, hd in zip(seg[:n], seg[n:2 * n]):
                    k = int(np.linalg.norm(sh[1] - hd[0]) <
                            np.linalg.norm(sh[0] - hd[0]))
                    ar.append(np.array([sh[1 - k], sh[k]]))
        by = {q.get_label(): v for v, q in clouds(fig.axes[0])}
        e.update(arrows=[fxa(s) for s in ar],
                 listener=fxa(by['listener'][0]),
                 bary=fxa(by['barycenter'][0]))
    log.append(e)
    # performance
    kinds = ['VBAP', 'vbip', 'NLS', 'SAD', 'EPAD', 'mad', 'ALLRAD',
             'allrad2', 'ALLRAP', 'allrap2']
    if rs.randint(2):
        h.a = int(rs.choice([0, 2]))
    rd = kinds[rs.randint(10)]
    k = rd.lower()
    N = rs.randint(1, 3)
    if k.startswith('allra'):
        _, exc = call(h.ambisonics_setup, update_hull=True, N_kernel=2,
                      characteristic_order=2)
        if exc or not usable(h.ambisonics_hull):
            return
    kw = dict(N_sph=int(N)) if k not in ('vbap', 'vbip', 'nls') else {}
    show = bool(rs.randint(2))
    fig, exc = draw(pl.decoder_performance, h, rd, azi_steps=30, ele_steps=20,
                    show_ls=show, **kw)
    e = dict(ev='perf', exc=exc, pts=fxa(h.points), d=fxa(h.d), a=fx(h.a),
             show=show)
    if not exc:
        from matplotlib.collections import QuadMesh
        ms = [[q for q in ax.collections if isinstance(q, QuadMesh)][0]
              for ax in fig.axes[:4]]
        xy = np.asarray(ms[0].get_coordinates()).reshape(-1, 2)
        vals = np.array([np.asarray(m.get_array()).ravel() for m in ms])
        pick = rs.permutation(len(xy))[:12]
        azi, zen = xy[pick].T
        src = np.stack(c.spa.utils.sph2cart(azi, zen), axis=1)
        fn = getattr(dec, {'nls': 'nearest_loudspeaker'}.get(k, k))
        if k in ('sad', 'epad', 'mad', 'allrad', 'allrad2'):
            Y = c.spa.sph.sh_matrix(N, azi, zen, 'real').T
            G = fn(Y, h, N_sph=int(N)).T
        else:
            G = fn(src, h, **kw)
        mk = [(float(q.get_xdata()[0]), float(q.get_ydata()[0]))
              for q in fig.axes[0].get_lines()]
        e.update(at=[dict(azi=fx(azi[j]), zen=fx(zen[j]), g=fxa(G[j]),
                          val=fxa(vals[:, pick[j]]))
                     for j in range(len(pick))],
                 span=fxa([xy[:, 0].min(), xy[:, 0].max(), xy[:, 1].min(),
                           xy[:, 1].max()]), marks=fxa(mk) if mk else [])
    log.append(e)


def others(c, rs, log):
    pl, pr = c.spa.plot, c.spa.process
    i = rs.randint(1000)
    azi, zen, _ = c.spa.grids.gauss(4)
    azi = (azi + .01) % (2 * np.pi)
    G, m, fs = len(azi), 300, 44100
    t = np.arange(m)
    l, r = np.zeros((2, G, m))
    for g in range(G):
        s = np.sin(azi[g]) * np.sin(zen[g])
        l[g] = np.exp(-.5 * ((t - 150 + 12 * s) / 6) ** 2) * (1.2 + s)
        r[g] = np.exp(-.5 * ((t - 150 - 12 * s) / 6) ** 2) * (1.3 - s)
    h = c.spa.sig.HRIRs(l, r, azi, zen, fs)
    fig, exc = draw(pl.hrirs_ild_itd, h, **({} if i % 2 else dict(
        plevels=30, pclims=(20, .75))))
    e = dict(ev='ildmap', exc=exc)
    if not exc:
        ild, itd = pr.ilds_from_hrirs(h, TODB=True), pr.itds_from_hrirs(h)
        e['probes'] = []
        wr = (azi + np.pi) % (2 * np.pi) - np.pi
        for g in rs.permutation(G):
            if len(e['probes']) > 15 or abs(wr[g]) > 2.3 or \
                    not .5 < zen[g] < 2.6:
                continue
            for ax, v in zip(fig.axes, (ild, 1000 * itd)):
                b, ct = bands(ax, wr[g] + 1e-4, zen[g] + 7e-5)
                e['probes'].append(dict(
                    n=b['n'], lo=fx(b['lo']), hi=fx(b['hi']), x=fx(v[g]),
                    tol=fx(1.5 * np.max(np.diff(ct.levels)))))
    log.append(e)
    plt = plt_()
    fig = plt.figure()
    ax = fig.add_subplot(projection='3d')
    lim = rs.uniform(-2, 2, (3, 2))
    lim.sort(axis=1)
    ax.set_xlim(lim[0])
    ax.set_ylim(lim[1])
    ax.set_zlim(lim[2])
    want = (lim.min(), lim.max())
    kw = {}
    if i % 2:
        want = kw['XYZlim'] = (-1.5, float(rs.uniform(0, 3)))
    if i % 3:
        plt.figure()
        kw['ax'] = ax
    _, exc = call(pl.set_aspect_equal3d, **kw)
    log.append(dict(ev='aspect', exc=exc, want=fxa(want),
                    lim=fxa([ax.get_xlim(), ax.get_ylim(), ax.get_zlim()])))


PARTS = dict(lines=lines, surfaces=surfaces, maps=maps, setups=setups,
             others=others)
CHECK = None


def worker(job):
    part, seed = job
    log = []
    PARTS[part](CHECK, np.random.RandomState(seed), log)
    plt_().close('all')
    return log


def C27(c):
    """Figures show the data they are given."""
    global CHECK
    CHECK = c
    rs = c.nprng(27)
    jobs = [(p, int(rs.randint(2 ** 31 - 1))) for p in PARTS
            for _ in range(c.n(8 if p == 'others' else 24, 250))]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8) as pool:
        traces = pool.map(worker, jobs, chunksize=1)
    c.validate('TracePlot', traces, jobs=8)
