"""C41: drawing sessions."""
import hashlib
import multiprocessing
import random
import warnings

import numpy as np

import pure
from pure import recast
from registry import dirs, hset, layout, sig_

SPA = None
REF = {}
MC = '''INIT Init
NEXT Next
CONSTANTS
  Target = "%s"
  Args = "%s"
  Defaults = "%s"
  MaxLen = %d
  Gen = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
'''
ALL = 'Confined SamePicture ArgsKept'
KINDS = ('2d', 'log', '3d', 'polar')
PLOTS = {}


def plots(kind, name, *builds):
    """kind: the axes a call can be given ('' none, 'fig' a figure)."""
    key = name
    while key in PLOTS:
        key += "'"
    PLOTS[key] = (kind, name, builds)


def sphere(v, n=14):
    """Points around the sphere, some beyond pi."""
    z = 1 - (2 * np.arange(n) + 1.) / n
    azi = np.mod(np.arange(n) * 2.399963 + v, 2 * np.pi)
    return azi, np.arccos(z)


def fun(v, n=14):
    return .3 + np.abs(sig_(v, n))


def fset(v):
    azi, zen = sphere(v, 24)
    r = np.random.RandomState(50 + v)
    e = np.exp(-np.arange(48) / 8.)
    return SPA.sig.HRIRs(r.randn(24, 48) * e, r.randn(24, 48) * e, azi, zen,
                         48000)


def amb(v):
    return SPA.sig.AmbiBSignal([sig_(v + k, 20) for k in range(4)], 8000)


FR = np.linspace(0, 4000., 33)
plots('log', 'freq_resp', lambda: ((FR.copy(), [1 + fun(0, 33), fun(1, 33)]), dict(labels=['a', 'b'], smoothing_n=3)),
      lambda: ((FR.copy(), [1 + fun(0, 33), fun(1, 33)]), dict(labels=['a', 'b'], title='T')),
      lambda: ((FR.copy(), fun(2, 33)), dict(smoothing_n=1, ylim=(-40, 3))))
plots('log', 'freq_resp', lambda: ((FR.copy(), fun(0, 33)), dict(TODB=False)),
      lambda: ((FR.copy(), fun(1, 33)), {}),
      lambda: ((FR.copy(), [fun(1, 33), fun(3, 33)]), dict(ylim=12, xlim=(5, 900))))
plots('log', 'spectrum', lambda: (([sig_(0, 16), sig_(1, 16)], 8000), dict(labels=('x', 'y'))),
      lambda: ((sig_(0, 16), 8000), dict(title='S')),
      lambda: ((sig_(0, 17), 8000), dict(scale_mag=True, TODB=False)))
plots('', 'transfer_function', lambda: ((FR.copy(), sig_(0, 33) + 1j * sig_(1, 33)), dict(title='H')),
      lambda: ((FR.copy(), sig_(2, 33) + 1j * sig_(1, 33)), {}),
      lambda: ((FR.copy(), sig_(2, 33) + 1j * sig_(1, 33)), dict(xlim=(100, 3000))))
plots('', 'zeropole', lambda: ((sig_(0, 4), sig_(1, 3)), dict(zPlane=True, title='Z')),
      lambda: ((sig_(0, 4), sig_(1, 3)), {}),
      lambda: ((sig_(2, 3), sig_(1, 3)), dict(zPlane=True)))
plots('', 'compare_ambi', lambda: ((amb(0), amb(3)), {}),
      lambda: ((amb(0), amb(5)), {}), lambda: ((amb(7), amb(3)), {}))
plots('3d', 'spherical_function', lambda: ((fun(0), *sphere(0)), {}),
      lambda: ((fun(1) - .6, *sphere(0)), dict(title='F')),
      lambda: ((fun(0), *sphere(1)), {}))
ST = dict(azi_steps=30, el_steps=30)
plots('3d', 'sh_coeffs', lambda: ((sig_(0, 9),), dict(ST)),
      lambda: ((sig_(1, 9),), dict(ST, title='c', cbar=False)),
      lambda: ((sig_(0, 4) + 1j * sig_(1, 4),), dict(ST)))
plots('axs', 'sh_coeffs_subplot', lambda: (([sig_(0, 9)],), dict(ST, titles=['one'], title='all')),
      lambda: (([sig_(1, 4)],), dict(ST, cbar=False)),
      lambda: (([sig_(0, 4) + 1j * sig_(1, 4)],), dict(ST)))
plots('fig', 'sh_coeffs_subplot', lambda: (([sig_(0, 9), sig_(2, 4)],), dict(ST, titles=['one', 'two'])),
      lambda: (([sig_(0, 9), sig_(2, 4)],), dict(ST, title='all')),
      lambda: (([sig_(3, 4)],), dict(ST, cbar=False)))
plots('3d', 'sh_coeffs_overlay', lambda: (([sig_(0, 9), sig_(2, 4)],), dict(ST)),
      lambda: (([sig_(0, 9), sig_(3, 4) + 1j * sig_(2, 4)],), dict(ST)),
      lambda: (([sig_(0, 9)],), dict(ST, title='o')))
plots('2d', 'sh_rms_map', lambda: ((sig_(0, 4, 30),), dict(n_plot=5)),
      lambda: ((sig_(0, 4, 30),), dict(n_plot=5, TODB=True)),
      lambda: ((sig_(1, 9, 30),), dict(n_plot=5, clim=(None, 2), title='r')))
plots('2d', 'sh_rms_map', lambda: ((sig_(0, 4, 30),), dict(n_plot=5, clim=[None, None])),
      lambda: ((sig_(0, 4, 30),), dict(n_plot=5, TODB=True, clim=[None, 9])),
      lambda: ((1j * sig_(1, 4, 30),), dict(n_plot=5, w_n=np.array([1., .2]))))
plots('2d', 'spherical_function_map', lambda: ((fun(0), *sphere(0)), {}),
      lambda: ((fun(0), *sphere(0)), dict(TODB=True)),
      lambda: ((fun(1), *sphere(0)), dict(clim=(0, 3), title='m')))
plots('2d', 'sh_bar', lambda: ((.1 + fun(0, 9),), {}),
      lambda: ((sig_(0, 2, 4),), dict(TODB=False, centered=True)),
      lambda: ((.1 + fun(1, 4).reshape(1, 4),), dict(clim=(-3, 1), s=100)))
plots('3d', 'hull', lambda: ((layout(SPA, 0),), {}),
      lambda: ((layout(SPA, 0),), dict(draw_ls=False, title='h', ax_lim=3)),
      lambda: ((layout(SPA, 1),), dict(mark_invalid=False)))
plots('3d', 'hull', lambda: ((layout(SPA, 0),), {}),
      lambda: (lambda h: ((h,), dict(color=np.arange(len(h.simplices), dtype=float))))(layout(SPA, 0)),
      lambda: (lambda h: ((h,), dict(color=np.arange(len(h.simplices), dtype=float), clim=(0, 30))))(layout(SPA, 2)))
plots('', 'hull_normals', lambda: ((layout(SPA, 0),), {}),
      lambda: ((layout(SPA, 1),), {}),
      lambda: ((layout(SPA, 1),), dict(plot_face_normals=False)))
TH = np.linspace(0, 2 * np.pi, 37)
plots('polar', 'polar', lambda: ((TH.copy(), np.cos(TH)), {}),
      lambda: ((TH.copy(), np.cos(2 * TH)), dict(TODB=False, title='p')),
      lambda: ((TH.copy(), np.cos(TH)), dict(rlim=(-20, 6))))
GR = dict(azi_steps=45, ele_steps=45)
plots('', 'decoder_performance', lambda: ((layout(SPA, 0), 'VBAP'), dict(GR)),
      lambda: ((layout(SPA, 0), 'SAD'), dict(GR, N_sph=1, title='s')),
      lambda: ((layout(SPA, 1), 'VBIP'), dict(GR, show_ls=False)))
plots('2d', 'doa', lambda: ((*sphere(0),), dict(fs=8000)),
      lambda: ((*sphere(0),), dict(p=fun(1), fs=8000, ltitle='p', title='d')),
      lambda: ((*sphere(2),), dict(c=fun(1), p=fun(2))))
plots('2d', 'doa', lambda: ((*sphere(0),), {}),
      lambda: ((*sphere(0),), dict(p=fun(1), alpha=.2 + .1 * fun(0) / 9)),
      lambda: ((*sphere(1),), dict(size=20)))
plots('fig', 'hrirs_ild_itd', lambda: ((fset(0),), dict(plevels=9)),
      lambda: ((fset(0),), dict(plevels=9, pclims=(10, None), title='i')),
      lambda: ((fset(1),), dict(plevels=[-20, -3, 0, 3, 20], pclims=[None, .3])))
plots('3d!', 'set_aspect_equal3d', lambda: ((), {}), lambda: ((), dict(XYZlim=[-2, 3])),
      lambda: ((), dict(XYZlim=(-1., 1.))))


def num(o):
    o = np.ma.filled(np.ma.asarray(o, dtype=float), np.nan) \
        if not np.iscomplexobj(o) else np.asarray(o)
    return (o.shape, [float('%.9g' % x) + 0. for x in o.ravel()])


def artist(a):
    """What one artist shows."""
    out = [type(a).__name__, bool(a.get_visible()), a.get_alpha() is None
           or num(a.get_alpha()), a.get_zorder()]
    for get in ('get_data_3d', 'get_xydata', 'get_offsets', 'get_array',
                'get_clim', 'get_facecolor', 'get_edgecolor', 'get_sizes',
                'get_color', 'get_text', 'get_linestyle', 'get_linewidth',
                'get_marker', 'get_label', 'get_position_3d', 'get_levels',
                'get_coordinates', 'get_hatch'):
        f = getattr(a, get, None)
        if f is None:
            continue
        try:
            v = f()
            if get == 'get_label' and str(v).startswith('_'):
                continue
            out.append((get, num(v)))
        except Exception:
            out.append((get, str(type(v)) if callable(v) else str(v)))
    for k in ('_vec', '_offsets3d', '_segments3d', '_facecolor3d', 'levels'):
        v = getattr(a, k, None)
        if v is not None:
            try:
                out.append((k, [num(x) for x in v]))
            except Exception:
                out.append((k, num(v)))
    if hasattr(a, 'get_paths') and not hasattr(a, '_vec'):
        out.append([num(p.vertices) for p in a.get_paths()[:200]])
    if type(a).__name__ == 'Text':
        out.append(num(a.get_position()))
    return out


def hashed(o):
    return hashlib.sha1(repr(o).encode()).hexdigest()[:12]


def ticks(axis):
    from matplotlib.ticker import FixedLocator, FixedFormatter
    lo, fo = axis.get_major_locator(), axis.get_major_formatter()
    return (num(lo()) if isinstance(lo, FixedLocator) else
            [type(lo).__name__, str(getattr(lo, '_nbins', 0))],
            list(fo.seq) if isinstance(fo, FixedFormatter) else 0)


def face(ax):
    """Fingerprint of one axes."""
    out = [ax.name, ax.get_title(), ax.get_xlabel(), ax.get_ylabel(),
           num(ax.get_xlim()), num(ax.get_ylim()), ax.get_xscale(),
           bool(ax.xaxis._major_tick_kw.get('gridOn')),
           bool(ax.axison), str(ax.get_aspect()),
           ticks(ax.xaxis), ticks(ax.yaxis)]
    if ax.name == '3d':
        out += [num(ax.get_zlim()), ax.get_zlabel(), ax.elev, ax.azim,
                bool(ax._draw_grid), ticks(ax.zaxis)]
    if ax.name == 'polar':
        out += [ax.get_theta_offset(), num(ax.get_rlabel_position())]
    out += [artist(a) for a in list(ax.lines) + list(ax.collections)
            + list(ax.texts) + list(ax.patches) + list(ax.images)]
    lg = ax.get_legend()
    if lg:
        out.append([lg.get_title().get_text()]
                   + [t.get_text() for t in lg.get_texts()])
    out += [k for k in ax.spines if not ax.spines[k].get_visible()]
    return hashed(out)


def whole(fig):
    return hashed([fig.get_suptitle(), len(fig.texts), len(fig.legends),
                   len(fig.lines), len(fig.patches), len(fig.images),
                   len(fig.subfigs), num(fig.get_size_inches()), fig.dpi])


class Desk:
    """The figures of a session."""

    def __init__(self, own):
        import matplotlib.pyplot as plt
        self.plt, self.own = plt, own
        plt.close('all')
        self.figs, self.axes = [], []
        for k in range(2):
            f = self.figure()
            self.axes.append(dict(zip(KINDS, (
                f.add_subplot(141), f.add_subplot(142),
                f.add_subplot(143, projection='3d'),
                f.add_subplot(144, projection='polar')))))
        for k in range(2):
            self.axes[k]['fig'] = self.figure()

    def figure(self):
        if self.own:
            from matplotlib.figure import Figure
            from matplotlib.backends.backend_agg import FigureCanvasAgg
            f = Figure(figsize=(9, 3))
            FigureCanvasAgg(f)
        else:
            f = self.plt.figure(figsize=(9, 3))
        self.figs.append(f)
        return f

    def look(self, only=None):
        for n in self.plt.get_fignums():
            f = self.plt.figure(n) if n != self.num() else self.plt.gcf()
            if f not in self.figs:
                self.figs.append(f)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for k, f in enumerate(self.figs):
                if only is None or k == only:
                    f.draw_without_rendering()
        return [[whole(f)] + [face(a) for a in f.axes] for f in self.figs]

    def num(self):
        return self.plt.gcf().number if self.plt.get_fignums() else 0

    def select(self, place):
        if not self.own:
            self.plt.sca(self.axes[place - 1]['2d'])

    def draw(self, key, v, place, form='plain'):
        """Targets (figure, entry) of a call, exception, arguments kept,
        global state around it."""
        kind, name, builds = PLOTS[key]
        fn = getattr(SPA.plot, name)
        a, k = builds[v]()
        a = tuple(recast(o, form) for o in a)
        k = {q: recast(o, form) for q, o in k.items()}
        before = pure.digest([a, k])
        n = len(self.figs)
        targets, where = [], n + 1
        more = {}
        if place and kind:
            g = self.axes[place - 1]
            x = g[{'3d!': '3d', 'axs': '3d'}.get(kind, kind)]
            if kind == 'fig':
                more['fig'] = x
                where = self.figs.index(x) + 1
                targets = [[where, 1]]
            else:
                more['ax'] = [x] if kind == 'axs' else x
                where = place
                targets = [[place, x.figure.axes.index(x) + 2]] + \
                    ([[place, 1]] if kind == 'axs' else [])
        current = self.num()
        gl = pure.glob()
        try:
            fn(*a, **k, **more)
            exc = ''
        except Exception as e:
            exc = type(e).__name__
        gl = [gl, pure.glob()]
        if targets:
            gl = [gl[0] + '/%d' % current, gl[1] + '/%d' % self.num()]
        return where, targets, exc, pure.digest([a, k]) == before, gl


def silent():
    pure.quiet()
    import matplotlib
    matplotlib.use('Agg')


def reference(job):
    """The calls that went to one place, alone in their own process."""
    silent()
    calls, placed, own = job
    d = Desk(own)
    for i, (key, v) in enumerate(calls):
        was = d.look(-1) if i == len(calls) - 1 else None
        where, targets, exc, _, _ = d.draw(key, v, 1 if placed else 0)
    now = d.look(where - 1)
    f = now[where - 1] if where <= len(now) else []
    m = len(was[where - 1]) if where <= len(was) else 0
    d.plt.close('all')
    return exc, [now[a - 1][b - 1] for a, b in targets], f[m:]


def spot(key):
    return {'3d!': '3d', 'axs': '3d'}.get(PLOTS[key][0], PLOTS[key][0])


def plan(prog, slots):
    """Steps with the key of their reference."""
    out, past = [], {}
    for op, s, place in prog:
        if op == 'select':
            out.append((op, None, None, place, None))
            continue
        key, v = slots[s - 1]
        if not PLOTS[key][0]:
            place = 0
        if PLOTS[key][0] == '3d!' and not place:
            place = 1
        if place:
            h = past.setdefault((place, spot(key)), [])
            h.append((key, v))
            calls = tuple(h)
        else:
            calls = ((key, v),)
        out.append((op, key, v, place, (calls, bool(place))))
    return out


def session(job):
    steps, own, seed = job
    silent()
    rg = random.Random(seed)
    d = Desk(own)
    log = [dict(ev='begin', now=d.look())]
    for op, key, v, place, ref in steps:
        if op == 'select':
            d.select(place)
            log.append(dict(ev='select', now=d.look(-1)))
            continue
        form = rg.choice(('plain', 'plain', 'strided', 'readonly', 'columns'))
        refexc, want, add = REF[(*ref, own)]
        where, targets, exc, kept, gl = d.draw(key, v, place, form)
        log.append(dict(ev='draw', call=key, v=v, place=place, form=form,
                        own=own, fig=where, targets=targets, exc=exc,
                        refexc=refexc, now=d.look(where - 1), ref=want, refadd=add,
                        args=kept, glob=gl))
    d.plt.close('all')
    return log


def C41(c):
    """Drawing touches what it is given and follows from its arguments."""
    global SPA
    SPA = pure.SPA = c.spa
    c.mc('PlotHistory', MC % ('given', 'kept', 'fresh', c.n(4, 5), 'FALSE', ALL))
    for k, bad in enumerate((('Confined', 'current', 'kept', 'fresh'),
                             ('ArgsKept', 'given', 'wrapped', 'fresh'),
                             ('SamePicture', 'given', 'kept', 'shared'))):
        c.mc('PlotHistory', MC % (*bad[1:], 3, 'FALSE', bad[0]),
             expect=bad[0])
    progs = c.gen('PlotHistory', MC % ('given', 'kept', 'fresh', 4, 'TRUE',
                                       'PrintProg'))
    progs += c.gen('PlotHistory', MC % ('given', 'kept', 'fresh', 3, 'TRUE',
                                        'PrintProg'))
    c.notes.append('%d programs enumerated by TLC' % len(progs))
    rg = c.rng
    names = sorted(PLOTS)
    jobs, keys = [], set()
    for n in names:
        for j in range(c.n(7, 60)):
            a, b = rg.sample(range(3), 2)
            # other calls sharing the kind of axes more often
            alike = [m for m in names if spot(m) == spot(n)]
            o = rg.choice(alike if j % 2 else names)
            steps = plan(rg.choice(progs), ((n, a), (n, b), (o, rg.randrange(3))))
            own = j % 4 == 3
            jobs.append((steps, own, rg.randrange(2 ** 20)))
            keys |= {(*s[4], own) for s in steps if s[4]}
    keys = sorted(keys)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        for k, r in zip(keys, pool.imap(reference, keys, chunksize=1)):
            REF[k] = r
    c.notes.append('%d reference pictures' % len(keys))
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        traces = list(pool.imap(session, jobs, chunksize=1))
    c.validate('TraceFigs', traces)
