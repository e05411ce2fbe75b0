"""Loudspeaker setups: C01 - C08."""
import copy
import itertools

import numpy as np

from vlib import call, fx, fxa, ints, shape


# ------------------------------------------------------------- setup layouts
def sph(azi, ele, r=1.0):
    azi, ele = np.deg2rad(azi), np.deg2rad(ele)
    return np.array([r * np.cos(azi) * np.cos(ele),
                     r * np.sin(azi) * np.cos(ele), r * np.sin(ele)])


def doc_layout():
    d = [(-80, 0), (-45, 0), (0, 0), (45, 0), (80, 0), (-60, 60), (-30, 60),
         (30, 60), (60, 60)]
    return np.array([sph(a, e) for a, e in d])


def octa(r=1.0):
    return r * np.array([[1., 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0],
                         [0, -1, 0], [0, 0, -1]])


def cube(r=1.0):
    return r * np.array(list(itertools.product((-1., 1), repeat=3)))


def tetra():
    return np.array([[1., 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]])


def dome(n_low=7, n_up=4, r=1.0):
    p = [sph(360 / n_low * i + 3, 2 * (i % 2) - 4 * (i == 0), r)
         for i in range(n_low)]
    p += [sph(360 / n_up * i + 11, 47, r) for i in range(n_up)]
    p.append(sph(0, 90, r))
    return np.array(p)


def random_layout(rs, n, rmin=1.0, rmax=1.0):
    """Random directions, not too close to each other."""
    out = []
    while len(out) < n:
        v = rs.randn(3)
        v /= np.linalg.norm(v)
        if all(np.dot(v, w / np.linalg.norm(w)) < np.cos(0.35) for w in out):
            out.append(v * rs.uniform(rmin, rmax))
    return np.array(out)


# ------------------------------------------------------------------- session
class Session:
    """Executes operations on one real setup and records them."""

    def __init__(self, chk, unit=1):
        """unit (a power of two): all lengths are logged in multiples of it"""
        self.u = unit
        self.c, self.spa = chk, chk.spa
        self.dec = self.spa.decoder
        self.log = []
        self.h = None

    def ev(self, **e):
        self.log.append(e)
        return e

    @staticmethod
    def faces(f):
        f = np.asarray(f)
        return ints(f + 1) if f.size else []

    def construct(self, pts, lst=None, via='cart', dtype=float):
        u = self.u
        pts = np.asarray(pts) * u
        x, y, z = (np.array(pts[:, k], dtype=dtype) for k in range(3))
        l_in = None if lst is None else np.array(lst, dtype=float) * u
        args = dict(x=fxa(x / u), y=fxa(y / u), z=fxa(z / u))
        args['lst'] = fxa(np.zeros(3) if lst is None else l_in / u)
        if via == 'sph':
            azi, zen, r = (np.asarray(v, float) for v in
                           self.spa.utils.cart2sph(x, y, z))
            before = [azi.copy(), zen.copy(), r.copy()]
            ls = None
            if lst is not None:
                ls = [float(v) for v in self.spa.utils.cart2sph(*l_in)]
            self.h, exc = call(self.dec.LoudspeakerSetup.from_sph, azi, zen,
                               r, listener_position=ls)
            same = all(np.array_equal(a, b)
                       for a, b in zip(before, (azi, zen, r)))
            after = dict(x2=args['x'] if same else [], y2=args['y'],
                         z2=args['z'], lst2=args['lst'])
        else:
            self.h, exc = call(self.dec.LoudspeakerSetup, x, y, z,
                               listener_position=l_in)
            after = dict(x2=fxa(x / u), y2=fxa(y / u), z2=fxa(z / u),
                         lst2=fxa(np.zeros(3) if lst is None else l_in / u))
        e = dict(ev='construct', exc=exc, **args, **after)
        if not exc:
            h = self.h
            e.update(pts=fxa(h.points / u), d=fxa(h.d / u), faces=self.faces(
                h.simplices), valid=self.faces(h.valid_simplices),
                encl=self.faces(h._encloses_listener
                                if hasattr(h, '_encloses_listener')
                                else h.valid_simplices),
                areas=fxa(h.face_areas / u**2),
                normals=fxa(h.face_normals / u**2),
                vnormals=fxa(h.vertex_normals / u**4),
                centroids=fxa(h.centroids / u),
                bary=fxa(h.barycenter / u), lout=fxa(h.listener_position / u),
                vertices=ints(np.asarray(h.vertices) + 1),
                n=[int(h.npoints), int(h.nsimplex)], a=int(h.a),
                lsgains=fxa(h.ls_gains), unormals=fxa(
                    self.dec.calculate_face_normals(h, normalize=True)),
                uvnormals=fxa(
                    self.dec.calculate_vertex_normals(h, normalize=True)))
        self.log.append(e)
        return not exc

    def pop(self, normal=85, aperture=None, opening=None, blacklist=None):
        h = self.h
        p0, f0 = np.array(h.points), np.array(h.simplices)
        bl = None if blacklist is None else list(blacklist)
        _, exc = call(h.pop_triangles, normal_limit=normal,
                      aperture_limit=aperture, opening_limit=opening,
                      blacklist=bl)
        self.ev(ev='pop', exc=exc, normal=[] if normal is None else
                [fx(normal)], aperture=[] if aperture is None else
                [fx(aperture)], opening=[] if opening is None else
                [fx(opening)], blacklist=[] if blacklist is None else
                [[int(b) + 1 for b in blacklist]],
                valid=self.faces(h.valid_simplices),
                ptsSame=bool(np.array_equal(p0, h.points)),
                facesSame=bool(np.array_equal(f0, h.simplices)))

    def check(self, kind, limit=None, lst=None, bl=None):
        """One of the limits on its own, seen from lst."""
        h = self.h
        kw = {}
        if lst is not None:
            kw['listener_position'] = np.array(lst, float) * self.u
        if kind in ('normals', 'aperture', 'opening') and limit is not None:
            kw[kind.rstrip('s') + '_limit'] = limit
        fn = {'normals': self.dec.check_normals, 'aperture':
              self.dec.check_aperture, 'opening': self.dec.check_opening,
              'inside': self.dec.check_listener_inside,
              'blacklist': self.dec.apply_blacklist}[kind]
        if kind == 'blacklist':
            kw['blacklist'] = list(bl)
        out, exc = call(fn, h, **kw)
        dflt = dict(normals=85, aperture=90, opening=135).get(kind, 0)
        self.ev(ev='check', exc=exc, kind=kind, limit=fx(
            dflt if limit is None else limit), lst=fxa(
            np.zeros(3) if lst is None else lst), bl=[] if bl is None else
            [int(b) + 1 for b in bl], out=[] if exc else self.faces(out),
            valid=self.faces(h.valid_simplices))

    def isvalid(self, rs):
        """Faces turned and mirrored, and triples that are no face."""
        n = len(self.h.points)
        q = [f[rs.permutation(3)] for f in np.asarray(self.h.simplices)]
        q += [rs.permutation(n)[:3] for _ in range(6)]
        out = [call(self.h.is_simplex_valid, [t, list(map(int, t))][k % 2])
               for k, t in enumerate(q)]
        self.ev(ev='isvalid', exc=''.join(e for _, e in out),
                faces=self.faces(q), out=[bool(o) for o, e in out if not e])

    def sort(self, f):
        f = np.array(f)
        f0 = f.copy()
        out, exc = call(self.dec.sort_vertices, f)
        self.ev(ev='sort', exc=exc, faces=self.faces(f0),
                faces2=self.faces(f), out=[] if exc else self.faces(out))

    def pan(self, kind, src, norm=2, explicit=None, outside=False, jobs=1,
            form=None):
        src = np.asarray(src, float)
        if form is not None:
            src = np.round(src * 9).astype(int) if form == 'int' else \
                forms(src, form)
        s0 = np.array(src)
        kw = {}
        if kind != 'nls':
            kw = dict(norm=np.inf if norm == 0 else norm,
                      retain_outside=outside, jobs_count=jobs)
            if explicit is not None:
                kw['valid_simplices'] = np.array(explicit)
        fn = {'vbap': self.dec.vbap, 'vbip': self.dec.vbip,
              'nls': self.dec.nearest_loudspeaker}[kind]
        g, exc = call(fn, src, self.h, **kw)
        if not exc and not np.array_equal(src, s0):
            exc = 'ArgumentsModified'
        if not exc and kind != 'vbip':
            g = g / self.u ** self.h.a
        self.ev(ev=kind, exc=exc, src=fxa(np.atleast_2d(s0)), norm=norm,
                outside=bool(outside),
                explicit=[] if explicit is None else [self.faces(explicit)],
                jobs=jobs, gains=[] if exc else fxa(g))
        return None if exc else g

    def order(self):
        n, exc = call(self.h.get_characteristic_order)
        self.ev(ev='order', exc=exc, order=0 if exc else ints(n))

    def ambi(self, update=False, imaginary=None, order=None, nk=4):
        h = self.h
        im = None if imaginary is None else np.array(imaginary, float)
        kw = {} if nk == 'default' else dict(N_kernel=nk)
        _, exc = call(h.ambisonics_setup, update_hull=update,
                      imaginary_ls=im, characteristic_order=order, **kw)
        dense = not exc and nk == 'default'
        e = dict(ev='ambi', exc=exc, update=bool(update),
                 imaginary=[] if imaginary is None else
                 [fxa(np.atleast_2d(imaginary)) if np.size(imaginary)
                  else []],
                 forder=[] if order is None else [int(order)],
                 nk=[] if nk is None else [50 if nk == 'default' else int(nk)],
                 svalid=self.faces(h.valid_simplices))
        if not exc:
            a, k = h.ambisonics_hull, h.kernel_hull
            idx = a.imaginary_ls_idx
            kp = np.asarray(k.points)
            e.update(order=ints(h.characteristic_order), pts=fxa(a.points),
                     d=fxa(a.d), faces=self.faces(a.simplices),
                     valid=self.faces(a.valid_simplices),
                     updated=idx is not None,
                     imagidx=[] if idx is None else
                     [int(i) + 1 for i in np.atleast_1d(idx)],
                     kpts=[] if dense else fxa(kp), kernel=self.design_degree(kp))
        self.log.append(e)
        return not exc

    def design_degree(self, pts):
        """Degrees for which the n-design is exactly these points."""
        if not hasattr(self.c, 'designs'):
            self.c.designs = {d: v for d in range(1, 125) for v, exc in
                              [call(self.spa.grids.load_n_design, d)]
                              if not exc}
        return [d for d, v in self.c.designs.items() if np.shape(v) ==
                np.shape(pts) and np.allclose(v, pts, atol=1e-12)]

    def setvalid(self, f):
        self.h.valid_simplices = np.array(f)
        self.ev(ev='setvalid', exc='', valid=self.faces(f))

    def editvalid(self):
        """Write another order of faces into the array that is there."""
        v = self.h.valid_simplices
        if len(v):
            v[:] = np.roll(v, 1, axis=0)
        self.ev(ev='setvalid', exc='', valid=self.faces(v))

    def decay(self, a):
        self.h.a = a
        self.ev(ev='decay', exc='', a=int(a))

    def copy(self, deep=True):
        self.h = copy.deepcopy(self.h) if deep else copy.copy(self.h)
        self.ev(ev='copy', exc='', valid=self.faces(self.h.valid_simplices))

    def rap(self, kind, src, N=None):
        fn = getattr(self.dec, kind)
        g, exc = call(fn, np.array(src, float), self.h, N_sph=N)
        self.ev(ev=kind, exc=exc, src=fxa(np.atleast_2d(src)),
                N=[] if N is None else [int(N)], gains=[] if exc else fxa(g),
                eff=0)

    def dec_mat(self, kind, N=None, eff=None, S=2, extra=0, rs=None):
        """Decode the identity (observing the matrix) and a random signal."""
        fn = getattr(self.dec, kind)
        eff = N if N is not None else eff
        C = (eff + 1) ** 2
        D, exc = call(fn, np.eye(C), self.h, N_sph=N)
        F = (rs or np.random.RandomState(1)).randn((eff + 1 + extra) ** 2, S)
        F0 = F.copy()
        sig, exc2 = call(fn, F, self.h, N_sph=N)
        if not exc2 and not np.array_equal(F, F0):
            exc2 = 'ArgumentsModified'
        ok = not (exc or exc2)
        self.ev(ev=kind, exc=exc or exc2, N=[] if N is None else [int(N)],
                eff=int(eff), D=fxa(D) if ok else [], F=fxa(F),
                sig=fxa(sig) if ok else [])


    def dec_few(self, kind, N, chans):
        """Fewer channels than the order needs."""
        _, exc = call(getattr(self.dec, kind), np.ones((chans, 3)), self.h,
                      N_sph=N)
        self.ev(ev='few', exc=exc, kind=kind, N=int(N), chans=int(chans))


def sources(h, rs, k, spread=True):
    """Sources: inside faces, on vertices and edges, random, scaled."""
    f = np.asarray(h.simplices)
    out = []
    for _ in range(k):
        m = rs.randint(6)
        v = h.points[f[rs.randint(len(f))]]
        if m == 0:
            w = rs.dirichlet([1, 1, 1])
        elif m == 1:
            w = np.array([1., 0, 0])[rs.permutation(3)]
        elif m == 2:
            w = np.array([.5, .5, 0])[rs.permutation(3)] * [1, 1, 1]
        elif m == 5:  # just inside or outside of an edge
            w = np.array([.4, .6, rs.choice([-1, 1])
                          * 10 ** rs.uniform(-3.9, -1.5)])[rs.permutation(3)]
        else:
            w = None
        s = v.T @ w if w is not None else rs.randn(3)
        s = s / max(np.linalg.norm(s), 1e-3)
        out.append(s * (10 ** rs.uniform(-2, 2) if m != 4 else 1))
    return np.array(out)


def layouts(chk, k):
    rs = chk.nprng(7)
    base = [doc_layout(), octa(), cube(1.5), tetra(), dome(), dome(6, 3, 2.2)]
    out = [(p, None) for p in base]
    out.append((dome(), [0.1, -0.2, 0.05]))
    out.append((cube(2.0), [0.3, 0.2, -0.1]))
    # a loudspeaker inside the hull, an off-centre shell
    out.append((np.vstack([octa(2.0), [[0.2, 0.1, 0.15]]]), None))
    out.append((dome() + [0.25, 0.1, -0.2], None))
    while len(out) < k:
        n = rs.randint(5, 13)
        p = random_layout(rs, n, 0.7, 2.5) if rs.rand() < .6 else \
            random_layout(rs, n)
        lst = None if rs.rand() < .5 else list(rs.uniform(-.2, .2, 3))
        out.append((p, lst))
    return out[:max(k, 10)]


def big_layout(c, rs, i):
    """24 to 60 loudspeakers around the listener, in no special pose."""
    n = [6, 8, 7, 9, 10][i % 5]
    p = np.array(c.spa.grids.load_t_design(n))
    q, _ = np.linalg.qr(rs.randn(3, 3))
    p = p @ q
    if i % 2:
        p = p * rs.uniform(.95, 1.05, (len(p), 1)) * 2.3
    return p[rs.permutation(len(p))]


def forms(src, i):
    """The same sources as another kind of array."""
    src = np.asarray(src, float)
    return [src, src.tolist(), np.asfortranarray(src),
            np.repeat(src, 2, 0)[::2], src[:, ::-1].copy()[:, ::-1]][i % 5]


def unit(i):
    """Layouts in metres, and now and then in other units."""
    return [1, 1, 1, 2 ** -7, 1, 1, 2 ** 6][i % 7]


def usable(h, u=1):
    """Listener not (nearly) in the plane of a face: VBAP well posed."""
    d = [abs(np.linalg.det(h.points[f] / u)) for f in h.simplices]
    return min(d) > 1e-3


def encloses(h, m=0.1):
    """Listener strictly inside the hull: cones do not overlap."""
    from scipy.spatial import ConvexHull
    return bool(np.all(ConvexHull(np.asarray(h.points)).equations[:, 3] < -m))


def C01(c):
    """VBAP on valid triangles."""
    rs = c.nprng(1)
    traces = []
    for i, (p, lst) in enumerate(layouts(c, c.n(28, 240))):
        s = Session(c, unit(i))
        if not s.construct(p, lst, via='sph' if i % 3 == 2 else 'cart'):
            traces.append(s.log)
            continue
        if usable(s.h, s.u):
            if i % 2:
                s.pop(*[(85, None, None, None), (85, 100, None, None),
                        (None, 120, 130, None), (80, None, None, [0])][i // 2 % 4])
            if i % 5 == 0:
                s.decay([2, 0, 3][i // 5 % 3])
            if len(s.h.valid_simplices):
                s.pan('vbap', sources(s.h, rs, 12), norm=[2, 1, 2, 0][i % 4])
                q = sources(s.h, rs, 3)
                # one direction at several distances
                s.pan('vbap', np.vstack([q, 37.5 * q, q / 250]))
                s.pan('vbap', q[0])
                s.pan('vbap', sources(s.h, rs, 2), form=i % 5)
                s.pan('vbap', q + .01, form='int')
        traces.append(s.log)
    for i in range(c.n(2, 20)):     # many loudspeakers, many sources
        s = Session(c)
        if s.construct(big_layout(c, rs, i + c.seed)):
            s.log[0]['lean'] = True
            if i % 3 == 1:
                s.pop(normal=None, blacklist=[0, 5])
            s.pan('vbap', sources(s.h, rs, [45, 70][i % 2]),
                  norm=[2, 1, 0][i % 3])
        traces.append(s.log)
    # hulls closed by several imaginary loudspeakers: their columns are dropped
    for i in range(c.n(6, 40)):
        s = Session(c)
        if not s.construct(amb_layout(rs, [0, 3, 4, 7, 1, 7][i % 6])[0]):
            continue
        im = np.vstack([rs.randn(i % 3 + 1, 3), [[.1, -.2, -1]]])
        im *= 5 / np.linalg.norm(im, axis=1)[:, None]
        s.ambi(update=True, imaginary=im, nk=1)
        h = s.h.ambisonics_hull
        if h and usable(h) and encloses(h, .02):
            q = np.vstack([sources(h, rs, 5), im])
            s.pan('vbap', q, outside=True, norm=[2, 1, 0][i % 3])
        traces.append(s.log)
    c.validate('TraceSetup', traces)


def C04(c):
    traces = []
    for i, (p, lst) in enumerate(layouts(c, c.n(40, 400))):
        s = Session(c, unit(i))
        s.construct(p, lst, via='sph' if i % 4 == 3 else 'cart')
        if i % 5 == 0:
            s.sort(np.array([c.nprng(97 * i + k).permutation(3 + i % 7)[:3]
                             for k in range(6)]))
        traces.append(s.log)
    for i in range(c.n(2, 20)):
        s = Session(c)
        s.construct(big_layout(c, rs := c.nprng(41 + i), i + c.seed),
                    None if i % 2 else rs.uniform(-.2, .2, 3))
        traces.append(s.log)
    # integer coordinates, with and without an integral listener position
    s = Session(c)
    s.construct(np.array([[2, 0, 0], [0, 2, 0], [0, 0, 2], [-2, 0, 0],
                          [0, -2, 0], [0, 0, -2]]), None, dtype=int)
    s.construct(np.array([[2, 0, 0], [0, 2, 0], [0, 0, 2], [-2, 0, 0],
                          [0, -2, 0], [0, 0, -2]]), [.5, 0, .25], dtype=int)
    traces.append(s.log)
    c.validate('TraceSetup', traces)


def C03(c):
    rs = c.nprng(3)
    traces = []
    lim_n = [None, 85, 60, 30, 89., 20.5, 74.25]
    lim_a = [None, 90, 60, 120.25, 75, 44.5]
    lim_o = [None, 135, 100., 90, 149.5, 75]
    for i, (p, lst) in enumerate(layouts(c, c.n(22, 160))):
        s = Session(c, unit(i))
        if s.construct(p, lst):
            nf = len(s.h.simplices)
            steps = [dict(), dict(normal=None), dict(normal=None, aperture=90),
                     dict(normal=None, opening=130)]
            if i >= 4:
                steps = []
            for _ in range(4):
                f = s.h.simplices[rs.randint(nf)]
                bl = [None, None, None, list(f), [f[0], f[1]], [f[2]],
                      [*f, (max(f) + 1) % len(p)]][rs.randint(7)]
                steps.append(dict(normal=lim_n[rs.randint(7)],
                                  aperture=lim_a[rs.randint(6)],
                                  opening=lim_o[rs.randint(6)], blacklist=bl))
            for st in steps:
                if not len(s.h.valid_simplices):
                    break
                s.pop(**st)
                if len(s.h.valid_simplices):
                    s.isvalid(rs)
            if i % 4 != 2 or not len(s.h.valid_simplices):
                s.construct(p, lst)
                s.pop(normal=[None, 88][i % 2], aperture=[130, None][i % 2])
            for kind, lim in (('normals', [None, 70, 50.3]), ('aperture', [
                    None, 69.6, 110]), ('opening', [None, 80.7, 110]),
                    ('inside', [None]), ('blacklist', [None])):
                if not len(s.h.valid_simplices):
                    break
                v = s.h.valid_simplices
                s.check(kind, lim[rs.randint(len(lim))], None if i % 3 == 0 or
                        kind in ('opening', 'blacklist') else
                        rs.uniform(-1, 1, 3) * [1, .2][i % 2],
                        v[rs.randint(len(v))][:rs.randint(1, 4)]
                        if kind == 'blacklist' else None)
        traces.append(s.log)
    for i in range(c.n(2, 20)):     # many faces
        s = Session(c)
        if s.construct(big_layout(c, rs, i + c.seed)):
            s.log[0]['lean'] = True
            f = s.h.simplices
            s.pop(normal=None, blacklist=[2, f[9][0], f[9][1], 17])
            s.pop(normal=[25, 12][i % 2])
            if len(s.h.valid_simplices):
                s.check('normals', 20, rs.uniform(-.1, .1, 3))
                s.pop(normal=None, aperture=[45, 60][i % 2],
                      opening=[120, 70][i % 2])
        traces.append(s.log)
    c.validate('TraceSetup', traces)


HIST_CFG = '''INIT Init
NEXT Next
INVARIANT %s
CHECK_DEADLOCK FALSE
CONSTANTS Faces = {%s} MaxLen = %d Cache = "%s" Gen = %s Remember = "%s"
'''


def run_program(s, prog, rs, lean=True):
    """Execute one generated call history."""
    h0 = s.h
    f = np.array(h0.simplices)
    for op in prog:
        src = np.vstack([sources(h0, rs, 3),
                         h0.points[f[rs.randint(len(f))]].sum(0)[None]])
        if op == 'pop_normal':
            s.pop(normal=75)
        elif op == 'pop_aperture':
            s.pop(normal=None, aperture=100)
        elif op == 'pop_blacklist':
            s.pop(normal=None, blacklist=list(f[rs.randint(len(f))]))
        elif op == 'setvalid':
            s.setvalid(f[::2])
        elif op == 'editvalid':
            s.editvalid()
        elif op == 'decay':
            s.decay(5 if s.h.a == 1 else 1)
        elif op == 'ambi':
            s.ambi(update=False, nk=1)
        elif op == 'ambi_imag':
            s.ambi(update=True, imaginary=[[.1, -.2, -3.1]], nk=1)
        elif op == 'copy':
            s.copy(False)
        elif op == 'deepcopy':
            s.copy(True)
        elif op == 'vbap':
            s.pan('vbap', src)
        elif op == 'vbip':
            s.pan('vbip', src)
        elif op == 'vbap_explicit':
            s.pan('vbap', src, explicit=f[1:5])
        elif op == 'order':
            s.order()
        elif op == 'outside':
            s.pan('vbap', src, outside=True)
        elif op == 'allrap':
            s.rap('allrap', src[:2], N=1)


def C02(c):
    """Results depend on the current setup, not on earlier calls."""
    for cache in ('none', 'keyed'):
        c.mc('SetupHistory', HIST_CFG % ('NoStaleBase OrderUpToDate',
                                         'f1, f2, f3', 4, cache, 'FALSE',
                                         'setup'))
    for cache, rem, inv in (('stale', 'setup', 'NoStaleBase'),
                            ('alias', 'setup', 'NoStaleBase'),
                            ('keyed', 'asked', 'OrderUpToDate')):
        c.mc('SetupHistory', HIST_CFG % (inv, 'f1, f2, f3', 4, cache, 'FALSE',
                                         rem), expect=inv)
    progs = c.gen('SetupHistory', HIST_CFG % ('PrintProg', 'f1', 3, 'keyed',
                                              'TRUE', 'setup'))
    progs = every = sorted(set(tuple(p) for p in progs))
    c.notes.append('%d call histories enumerated by TLC' % len(progs))
    if c.thorough:
        p4 = c.gen('SetupHistory', HIST_CFG % ('PrintProg', 'f1', 4, 'keyed',
                                               'TRUE', 'setup'))
        p4 = sorted(set(tuple(p) for p in p4))
        progs += c.rng.sample(p4, min(len(p4), 4000))
    rs = c.nprng(2)
    ok = []
    for k in range(400):
        if len(ok) > 11:
            break
        p = random_layout(rs, 7, *[(.8, 2.), (.88, 1.15)][k % 2])
        s = Session(c)
        if s.construct(p) and usable(s.h) and encloses(s.h, .05) and \
                len(s.h.valid_simplices) == len(s.h.simplices) and \
                len(np.unique(s.h.simplices)) == 7:
            ok.append((p, s.log))
    traces = [t for _, t in ok]
    cap = c.n(700, len(progs))
    if len(progs) > cap:
        progs = c.rng.sample(progs, cap)
    # what an answer may depend on changes between two answers
    answers = ('order', 'ambi', 'ambi_imag', 'vbap', 'vbip')
    progs = [q for q in every if q[0] in answers and q[2] in answers + (
        'allrap',) and q[1] == 'decay' and len(q) == 3] * 4 + progs
    for k, prog in enumerate(progs):
        s = Session(c)
        s.construct(ok[(k + k // len(ok)) % len(ok)][0])
        s.log[0]['lean'] = True
        run_program(s, prog, rs)
        traces.append(s.log)
    # triangles given, but for the hull that is not rendered on
    for k in range(3):
        s = Session(c)
        s.construct(dome())
        s.pop()
        s.ambi(update=True, imaginary=[[.1, -.2, -3.1]], nk=1)
        for kind in ('vbap', 'vbip'):
            q = sources(s.h, rs, 2)
            s.pan(kind, q, explicit=np.array(s.h.simplices)[k:k + 4],
                  outside=True)
            s.pan(kind, q, outside=True)
            s.pan(kind, q, explicit=np.array(s.h.simplices)[k:k + 4])
        traces.append(s.log)
    # longer random histories
    ops = ['pop_normal', 'pop_aperture', 'pop_blacklist', 'setvalid', 'ambi',
           'editvalid', 'decay',
           'ambi_imag', 'copy', 'deepcopy', 'vbap', 'vbap_explicit', 'vbip',
           'order', 'vbap', 'order']
    for k in range(c.n(12, 200)):
        s = Session(c)
        s.construct(ok[k % len(ok)][0])
        run_program(s, [ops[rs.randint(len(ops))] for _ in range(10)], rs)
        traces.append(s.log)
    c.validate('TraceSetup', traces, jobs=8)


def amb_layout(rs, i):
    """Layouts for ambisonic rendering: listener enclosed, some with rims."""
    k = i % 8
    if k == 0:
        return dome(), True
    if k == 1:
        return octa(1.3), False
    if k == 2:
        return cube(0.8), False
    if k == 3:
        return dome(6, 3, 2.2), True
    if k == 4:
        return doc_layout(), True
    if k == 5:
        return dome(8, 4) * (1 + .3 * rs.rand(13, 1)), True
    if k == 6:
        return tetra(), False
    while True:
        p = random_layout(rs, rs.randint(6, 11), 0.9, 1.8)
        from scipy.spatial import ConvexHull
        if np.all(ConvexHull(p).equations[:, 3] < -.15):
            return p, False


def C05(c):
    """Ambisonic extension of a setup."""
    rs = c.nprng(5)
    traces = []
    for i in range(c.n(32, 240)):
        p, rim = amb_layout(rs, i)
        s = Session(c)
        if not s.construct(p, [.05, -.1, .02] if i % 5 == 4 else None):
            traces.append(s.log)
            continue
        if rim:
            s.pop(normal=85, aperture=[90, 100, None][i % 3],
                  opening=[None, 150, 130][i % 3])
        m = i // 8 % 4
        nk = [4, None, 9, 1][i % 4]
        if m == 0:
            s.order()
            s.ambi(update=rim, nk=nk)
        elif m == 1:
            im = rs.randn(rs.randint(1, 4), 3)
            im *= 4.5 / np.linalg.norm(im, axis=1)[:, None]
            s.ambi(update=True, imaginary=im, nk=nk)
            s.order()
        elif m == 2:
            s.ambi(update=False, order=int(rs.randint(1, 5)), nk=nk)
            s.order()
        else:
            s.ambi(update=rim, order=2, nk=nk)
            if rim:
                s.ambi(update=True, imaginary=[[0.2, .1, -2.9]], nk=2)
            s.order()
        if s.h.ambisonics_hull:
            h = s.h.ambisonics_hull
            if usable(h) and encloses(h, .02):
                if h.imaginary_ls_idx is not None:
                    # panning on the extended hull, imaginary ones removed
                    q = np.vstack([sources(h, rs, 5),
                                   h.points[np.atleast_1d(
                                       h.imaginary_ls_idx)]])
                    s.pan('vbap', q, outside=True)
                    s.pan('vbip', q[:3], outside=True)
                N = int(min(3, s.h.characteristic_order))
                s.dec_mat('allrad', N=min(N, 2), rs=rs)
        else:
            s.pan('vbap', [[1., 0, 0]], outside=True)
        traces.append(s.log)
    # the kernel nobody asked for, one loudspeaker given as three numbers
    for i in range(2):
        s = Session(c)
        s.construct(amb_layout(rs, [0, 7][i])[0])
        s.ambi(update=True, imaginary=[.3, -.2, -5.1], nk=['default', 3][i])
        s.order()
        s.pan('vbap', sources(s.h, rs, 4), outside=True)
        traces.append(s.log)
    for i in range(c.n(1, 6)):      # many loudspeakers, nothing below
        s = Session(c)
        p = rs.randn(400, 3)
        p[:, 2] = np.abs(p[:, 2])
        p /= np.linalg.norm(p, axis=1)[:, None]
        keep = [p[0]]
        for v in p:
            if len(keep) < 40 and all(v @ w < np.cos(.24) for w in keep):
                keep.append(v)
        keep = [v * [1, 1, 1.03] for v in keep]
        if s.construct(np.array(keep)):
            s.pop(normal=85, aperture=90, opening=150)
            s.ambi(update=True, order=2, nk=1)
            s.pan('vbap', sources(s.h, rs, 3), outside=True)
        traces.append(s.log)
    # faces turned away from the listener: some directions are silent
    done = 0
    for i in range(400):
        s = Session(c)
        if s.construct(random_layout(rs, 6, .6, 2.5)) and encloses(s.h) and \
                len(s.h.valid_simplices) < len(s.h.simplices):
            s.order()
            s.ambi(update=False, nk=1)
            traces.append(s.log)
            done += 1
            if done == c.n(2, 12):
                break
    for i in range(c.n(2, 12)):     # the order of many loudspeakers
        s = Session(c)
        n = [14, 17, 15, 13, 18, 16][(i + c.seed) % 6]
        p = np.array(c.spa.grids.load_t_design(n)) * [1, 2][i % 2]
        if s.construct(p @ np.linalg.qr(rs.randn(3, 3))[0]):
            s.log[0]['lean'] = True
            s.order()
        traces.append(s.log)
    for i in range(c.n(1, 8)):
        s = Session(c)
        s.construct(big_layout(c, rs, i + c.seed))
        s.ambi(update=i % 2 == 1, imaginary=[[.3, -5, .2], [0, 0, 6.]]
               if i % 2 else None, nk=6)
        s.order()
        traces.append(s.log)
    # refusals: rendering that needs the extension
    s = Session(c)
    s.construct(octa())
    s.pan('vbap', [[1., 0, 0]], outside=True)
    s.rap('allrap', [[1., 0, 0]], N=1)
    s.rap('allrap2', [[1., 0, 0]], N=1)
    s.dec_mat('allrad2', N=1)
    s.dec_mat('allrad', N=1)
    s.ambi(update=True, nk=2)      # a closed hull has no rim
    s.rap('allrap2', [[1., 0, 0]])
    s.dec_mat('allrad', eff=1)
    s.pan('vbap', [[1., 0, 0]], outside=True)
    s.ambi(update=False, nk=2)
    s.pan('vbip', [[1., 0, 0]], outside=True)
    # a loudspeaker given, but no update asked for; then one, then none
    s.ambi(update=False, imaginary=[[.5, 0, -3]], nk=2)
    s.pan('vbap', [[1., 0, 0]], outside=True)
    s.ambi(update=True, imaginary=[[.5, 0.1, -3]], nk=2)
    s.pan('vbap', [[1., 0, 0], [.1, .1, -1]], outside=True)
    s.rap('allrap2', [[1., .2, 0]], N=1)
    s.ambi(update=False, nk=2)
    s.rap('allrap2', [[1., .2, 0]], N=1)
    s.pan('vbap', [[1., 0, 0]], outside=True)
    traces.append(s.log)
    c.validate('TraceSetup', traces)


def C06(c):
    """Vector base intensity panning and nearest loudspeaker."""
    rs = c.nprng(6)
    traces = []
    for i, (p, lst) in enumerate(layouts(c, c.n(28, 240))):
        s = Session(c, unit(i))
        if s.construct(p, lst):
            s.log[0]['lean'] = True
            if i % 3 == 1:
                s.decay([2, 0, 3, 1][i // 3 % 4])
            q = sources(s.h, rs, 8)
            s.pan('nls', q)
            s.pan('nls', q[0])
            s.pan('nls', s.h.points[:4] * 1.7)
            if usable(s.h, s.u):
                if i % 2:
                    s.pop(normal=[85, 80, None][i // 2 % 3],
                          aperture=[None, 110][i // 2 % 2])
                if len(s.h.valid_simplices):
                    s.pan('vbip', q, norm=[2, 1, 2, 0][i % 4])
                    s.pan('vbip', np.vstack([q[:2], q[:2] * 20]))
                    s.pan('vbip', s.h.points[s.h.simplices[0][:2]])
                    s.pan('vbip', q[0], explicit=s.h.simplices[:4])
                    s.pan('vbip', q[:2], form=i % 5)
                    s.pan('vbip', q[:2] + .01, form='int')
                s.pan('nls', q[:2], form=i % 5)
                s.pan('nls', q[2:4] + .1, form='int')
        traces.append(s.log)
    for i in range(c.n(4, 30)):     # two loudspeakers almost in line
        s = Session(c)
        p = random_layout(rs, 6, .8, 2.)
        q = p[0] / np.linalg.norm(p[0])
        t = np.cross(q, rs.randn(3))
        t /= np.linalg.norm(t)
        p = np.r_[p, [(q + 5e-4 * t) * [1.5, .7][i % 2]]]
        if s.construct(p):
            s.log[0]['lean'] = True
            if i % 2:
                s.decay(2)
            m = q + np.outer(5e-4 * (.5 + rs.choice([-1, 1], 12) *
                                     10 ** rs.uniform(-5.5, -2, 12)), t)
            s.pan('nls', m * rs.uniform(.3, 4, (12, 1)))
        traces.append(s.log)
    for i in range(c.n(4, 30)):     # with imaginary loudspeakers
        s = Session(c)
        if not s.construct(amb_layout(rs, [0, 3, 4, 7][i % 4])[0]):
            continue
        s.log[0]['lean'] = True
        s.ambi(update=True, imaginary=[[.2, -.3, -5.]], nk=1)
        h = s.h.ambisonics_hull
        if h and usable(h) and encloses(h, .02):
            for norm in (1, 2, 0):
                s.pan('vbip', sources(h, rs, 4), outside=True, norm=norm)
        traces.append(s.log)
    for i in range(c.n(2, 20)):     # many loudspeakers, many sources
        s = Session(c)
        if s.construct(big_layout(c, rs, i + c.seed)):
            s.log[0]['lean'] = True
            q = sources(s.h, rs, [45, 70][i % 2])
            s.pan('nls', q)
            s.pan('vbip', q, norm=[2, 1, 0][i % 3])
        traces.append(s.log)
    c.validate('TraceSetup', traces)


def C07(c):
    """All-round panning and decoding."""
    rs = c.nprng(7)
    traces = []
    for i in range(c.n(26, 160)):
        p, rim = amb_layout(rs, i)
        s = Session(c)
        if not s.construct(p):
            traces.append(s.log)
            continue
        s.log[0]['lean'] = True
        if rim:
            s.pop(normal=85, aperture=100)
        if i % 3 == 0:
            s.decay(2)
        nk = [2, 3, 5, 1][i // 2 % 4]
        im = [[0., 0, -4]] if i % 4 == 1 else None
        if not s.ambi(update=rim or im is not None, imaginary=im,
                      order=[None, 1, 2, 3][i % 4], nk=nk):
            traces.append(s.log)
            continue
        h = s.h.ambisonics_hull
        if not (usable(h) and encloses(h, .02)):
            continue
        Nc = int(s.h.characteristic_order)
        q = sources(h, rs, 3)
        for k, kind in enumerate(('allrap', 'allrap2')):
            s.rap(kind, q, N=None if (i + k) % 2 else int(rs.randint(0, 4)))
        s.rap('allrap', q[0], N=1)
        s.rap(['allrap', 'allrap2'][i % 2], q[:2] * 2. ** -13, N=1)
        for k, kind in enumerate(('allrad', 'allrad2')):
            if (i + k) % 2 and Nc < 5:
                s.dec_mat(kind, N=None, eff=Nc, rs=rs)
            else:
                s.dec_mat(kind, N=int(rs.randint(0, 4)), rs=rs)
        s.dec_few(['allrad', 'allrad2'][i % 2], 2, [4, 8, 1][i % 3])
        traces.append(s.log)
    for i in range(c.n(2, 16)):     # more loudspeakers and higher orders
        s = Session(c)
        if i % 2 == 0:
            s.construct(big_layout(c, rs, [0, 2, 1][i // 2 % 3]))
        else:
            s.construct(dome(10, 5))
            s.pop(normal=85, aperture=100)
        s.log[0]['lean'] = True
        if s.ambi(update=i % 2 == 1, nk=[6, 4, 8][i // 2 % 3]):
            h = s.h.ambisonics_hull
            if usable(h) and encloses(h, .02):
                N = [5, 7, 4, 6][(i + c.seed) % 4]
                s.rap('allrap', sources(h, rs, 2), N=N)
                s.rap('allrap2', sources(h, rs, 2), N=N)
                s.dec_mat('allrad', N=N, rs=rs, S=5)
                s.dec_mat('allrad2', N=N - 1, rs=rs)
        traces.append(s.log)
    c.validate('TraceSetup', traces)


def C08(c):
    """Sampling, mode-matching and energy-preserving decoding."""
    rs = c.nprng(8)
    traces = []
    for i in range(c.n(40, 300)):
        if i % 3 == 0:
            p, _ = amb_layout(rs, i // 3)
        elif i % 3 == 1:
            p = c.spa.grids.load_t_design([2, 3, 4, 5, 6][i // 3 % 5])
            p = p * [1, 2.5, .4][i % 2]
        else:
            p = random_layout(rs, rs.randint(5, 14), .7, 2.5)
        s = Session(c)
        if not s.construct(p):
            traces.append(s.log)
            continue
        s.log[0]['lean'] = True
        if i % 4 == 1:
            s.decay(2)
        for k, kind in enumerate(('sad', 'mad', 'epad')):
            N = int(rs.randint(0, 4))
            s.dec_mat(kind, N=N, extra=int(rs.randint(0, 3)), rs=rs)
        s.dec_few(['sad', 'mad', 'epad'][i % 3], 2, [4, 8, 1][i // 3 % 3])
        if i % 5 == 0 and encloses(s.h):
            if s.ambi(update=False, order=int(rs.randint(1, 4)), nk=1):
                for kind in ('sad', 'mad', 'epad'):
                    s.dec_mat(kind, N=None,
                              eff=int(s.h.characteristic_order), rs=rs)
        elif i % 5 in (1, 2) and encloses(s.h) and usable(s.h):
            n, exc = call(s.h.get_characteristic_order)
            if not exc and n < 5:   # the order is nowhere fixed
                for kind in ('sad', 'mad', 'epad'):
                    s.dec_mat(kind, N=None, eff=int(n), rs=rs)
        traces.append(s.log)
    for i in range(c.n(4, 30)):     # nearly flat: a wide range of sizes
        s = Session(c)
        p = random_layout(rs, rs.randint(7, 11), .9, 1.5)
        s.construct(p * [1, 1, [.004, .02][i % 2]])
        s.log[0]['lean'] = True
        for kind in ('sad', 'mad', 'epad'):
            s.dec_mat(kind, N=1, rs=rs)
        traces.append(s.log)
    for i in range(c.n(3, 20)):     # more loudspeakers and higher orders
        s = Session(c)
        s.construct(big_layout(c, rs, i + c.seed))
        s.log[0]['lean'] = True
        N = [4, 5, 6][(i + c.seed) % 3]
        s.dec_mat('sad', N=N, extra=1, rs=rs, S=6)
        # well posed: as many channels as loudspeakers carry, or far more
        for kind in ('mad', 'epad'):
            n = len(s.h.points)
            s.dec_mat(kind, N=[3, 4, 3, 4, 6][(i + c.seed) % 5]
                      if kind == 'mad' or n > 30 else 4, rs=rs, S=6)
        traces.append(s.log)
    c.validate('TraceSetup', traces)
