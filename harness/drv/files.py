"""Layout files and BRIR export: C29, C30."""
import json
import os

import numpy as np

from vlib import call, fx, fxa, ints


class LayoutSession:
    def __init__(self, c, k):
        self.c, self.spa = c, c.spa
        self.path = os.path.join(c.tmp, 'layout%d.json' % k)
        self.h, self.log = None, []

    def setup(self, p):
        self.h, exc = call(self.spa.decoder.LoudspeakerSetup, p[:, 0],
                           p[:, 1], p[:, 2])
        self.log.append(dict(ev='setup', exc=exc,
                             gains=[] if exc else fxa(self.h.ls_gains)))

    def gain(self, rs):
        i = rs.randint(self.h.npoints)
        self.h.ls_gains[i] = [rs.uniform(0, 2), -1., 0., 3][rs.randint(4)]
        self.log.append(dict(ev='gain', exc='',
                             gains=fxa(np.asarray(self.h.ls_gains, float))))

    def ambi(self, imag):
        kw = dict(update_hull=True, imaginary_ls=imag)
        if imag is not None and not len(imag):
            kw = dict(update_hull=False)
        _, exc = call(self.h.ambisonics_setup, N_kernel=4,
                      characteristic_order=1, **kw)
        self.log.append(dict(ev='ambi', exc=exc))

    def imagidx(self):
        i = self.h.ambisonics_hull.imaginary_ls_idx
        return [] if i is None else [int(v) + 1 for v in np.atleast_1d(i)]

    def read(self):
        with open(self.path) as f:
            d = json.load(f)
        return d

    def doc(self, d):
        return [dict(azi=fx(x['Azimuth']), ele=fx(x['Elevation']),
                     r=fx(x['Radius']), imag=x.get('IsImaginary', False),
                     chan=int(x.get('Channel', 0)), gain=fx(x.get('Gain', 1)))
                for x in d['LoudspeakerLayout']['Loudspeakers']]

    def save(self):
        had = bool(self.h.ambisonics_hull)
        before = os.path.exists(self.path) and open(self.path).read()
        _, exc = call(self.spa.io.save_layout, self.path, self.h, name='a b',
                      description='c')
        now = os.path.exists(self.path) and open(self.path).read()
        e = dict(ev='save', exc=exc, hasambi=had, written=before != now,
                 wantname=['a b', 'a b', 'c'], doc=[], name=[], pts=[],
                 imagidx=[])
        if had and not exc:
            d = self.read()
            e.update(doc=self.doc(d), pts=fxa(self.h.ambisonics_hull.points),
                     imagidx=self.imagidx(),
                     name=[d['Name'], d['LoudspeakerLayout']['Name'],
                           d['LoudspeakerLayout']['Description']])
        self.log.append(e)

    def write(self, entries):
        with open(self.path, 'w') as f:
            json.dump({'Name': 'x', 'LoudspeakerLayout':
                       {'Loudspeakers': entries}}, f)
        self.log.append(dict(ev='edit', exc='', doc=self.doc(self.read())))

    def edit(self, how):
        if not os.path.exists(self.path):
            return
        x = self.read()['LoudspeakerLayout']['Loudspeakers']
        if how == 'strip':
            for v in x:
                v.pop('Gain', None)
        else:
            x = [v for v in x if v.get('IsImaginary')] + \
                [v for v in x if not v.get('IsImaginary')]
        self.write(x)

    def load(self, lst=None, nk=None):
        if not os.path.exists(self.path):
            return
        kw = {} if nk is None else dict(N_kernel=nk)
        if lst is not None:
            kw['listener_position'] = lst
        h, exc = call(self.spa.io.load_layout, self.path, **kw)
        e = dict(ev='load', exc=exc, wantkernel=2 * (nk or 50),
                 lst=fxa(np.zeros(3) if lst is None else np.array(lst)))
        if not exc:
            self.h = h
            kp = np.asarray(h.kernel_hull.points)
            want = self.spa.grids.load_n_design(2 * (nk or 50))
            ok = np.shape(kp) == np.shape(want) and np.allclose(
                kp, want, atol=1e-12)
            e.update(pts=fxa(h.points), gains=fxa(np.asarray(h.ls_gains,
                                                             float)),
                     ambi=fxa(h.ambisonics_hull.points),
                     imagidx=self.imagidx(),
                     kernel=2 * (nk or 50) if ok else 0)
        self.log.append(e)


HIST = '''INIT Init
NEXT Next
INVARIANTS %s
CHECK_DEADLOCK FALSE
CONSTANTS Gains = "%s" MaxLen = %d Gen = %s
'''


def lower(p):
    """Imaginary positions below and beside the layout."""
    return np.array([[.1, .05, -1.3 * np.abs(p).max()],
                     [-1.6 * np.abs(p).max(), .2, .1]])


def C29(c):
    from setup import doc_layout, octa, cube, dome, random_layout
    rs = c.nprng(29)
    c.mc('LayoutHistory', HIST % ('GainsKept', 'real', 6, 'FALSE'))
    c.mc('LayoutHistory', HIST % ('GainsKept', 'all', 4, 'FALSE'),
         expect='GainsKept')
    progs = c.gen('LayoutHistory', HIST % ('PrintProg', 'real', 4, 'TRUE'))
    c.notes.append('%d programs enumerated by TLC' % len(progs))
    cap = c.n(160, 2000)
    if len(progs) > cap:
        progs = c.rng.sample(progs, cap)
    lays = [doc_layout(), octa(1.37), cube(), dome(5, 3), None]
    traces = []
    for i, prog in enumerate(progs):
        s = LayoutSession(c, i)
        p = lays[i % 5]
        if p is None:
            p = random_layout(rs, 6, .8, 3)
        if i % 11 == 7:       # a model of a room
            p = p * .05
        s.setup(p)
        for op, k in prog:
            if op == 'ambi':
                q = np.array(s.h.points)
                s.ambi(lower(q)[:k] if k or i % 3 == 0 else None)
            elif op == 'gain':
                s.gain(rs)
            elif op == 'save':
                s.save()
            elif op == 'load':
                s.load(nk=[3, 5, 10][rs.randint(3)],
                       lst=[.1, -.05, .02] if rs.rand() < .15 else None)
            else:
                s.edit(op)
        traces.append(s.log)
        if os.path.exists(s.path):
            os.unlink(s.path)
    # files written by others: integers, negative angles, both poles
    for i in range(c.n(16, 120)):
        s = LayoutSession(c, 10 ** 6 + i)
        n = 6 + rs.randint(4) + 16 * (i % 7 == 3)
        p = random_layout(rs, n, 1, 2)
        ent = []
        if i % 3 == 1:                # one right above
            k = np.argmax(p[:, 2] / np.linalg.norm(p, axis=1))
            p[k] = [0, 0, np.linalg.norm(p[k])]
        for v in p:
            a, z, r = (float(x) for x in c.spa.utils.cart2sph(*v))
            a, e = np.rad2deg(a), 90 - np.rad2deg(z)
            if i % 2:
                a, e, r = round(a), round(e), max(1, round(r))
            ent.append(dict(Azimuth=a + 360 * (i % 3 == 0), Elevation=e,
                            Radius=r, Channel=len(ent) + 1))
        for e in ent:
            if i % 4 != 2:
                e['IsImaginary'] = False
            if i % 4 != 3:
                e['Gain'] = [1, 1.0, .5, 0][rs.randint(4)]
        if i % 4 != 2:
            for _ in range(rs.randint(3)):
                x = dict(Azimuth=int(rs.randint(-180, 360)),
                         Elevation=-90 if rs.rand() < .5 else -70, Radius=2.5,
                         IsImaginary=True, Channel=0)
                if 'Gain' in ent[0]:
                    x['Gain'] = 0
                ent.insert(rs.randint(len(ent) + 1), x)
        s.write(ent)
        s.load(nk=6)
        if s.h is not None:
            s.save()
            s.load(nk=6)
        traces.append(s.log)
    # the layouts that come with the library
    d = os.path.join(os.path.dirname(c.spa.__file__), '..', 'data',
                     'ls_layouts')
    for f in sorted(os.listdir(d)):
        s = LayoutSession(c, 2 * 10 ** 6)
        with open(os.path.join(d, f)) as fh:
            s.write(json.load(fh)['LoudspeakerLayout']['Loudspeakers'])
        s.load()
        s.save()
        s.load(nk=20)
        traces.append(s.log)
    c.validate('TraceIo', traces, jobs=8)


def C30(c):
    import soundfile
    from setup import octa, doc_layout, random_layout
    from hrirs import default_lib, directions
    rs = c.nprng(30)
    spa = c.spa
    traces = []
    lib, bad = default_lib(c, rs, 'brir')
    m = c.n(12, 40)
    for i in range(m + 2):
        lone = i >= m                  # no set given
        kind = ['ls', 'sdm'][i % 2]
        sub = [None, 'DOUBLE', 'FLOAT', 'PCM_24', 'PCM_16'][
            (i + c.seed) % 5]
        fs = [48000, 44100][i // 2 % 2]
        hfs = fs if i != 5 else 32000
        g, n = 6 + 3 * (i % 3), 2 + i % 2
        azi, zen = directions(rs, g)
        l, r = rs.uniform(-1, 1, (2, g, n)) * [.1, 1][i // 2 % 2]
        neg = i in (3, 6) or i > 7 and i % 3 == 0
        if neg:            # the peak is a negative one
            l, r = abs(l), abs(r)
        h = spa.sig.HRIRs(l, r, azi, zen, hfs)
        io, kw = spa.io, {}
        if lone:
            io, kw, hfs = lib.io, {}, fs
            h, exc = call(io.load_hrirs, fs)
            if bad + exc:
                traces.append([dict(ev='driver', exc=bad + exc)])
                continue
            azi, zen, l, r = h.azi, h.zen, h.left, h.right
        loud = i % 6 in (1, 4) and not lone
        if loud:           # the right ear alone goes a little too far
            l, r = .4 * l, -1.02 * r / abs(r).max(1, keepdims=True)
            h = spa.sig.HRIRs(l, r, azi, zen, hfs)
        path = os.path.join(c.tmp, 'b%d' % i + ['.wav', '', '.v1', '.wav'][
            i // 2 % 4])
        if not lone:
            kw['hrirs'] = h
        e = dict(ev='brirs', kind=kind, fs=fs, hfs=hfs, azi=fxa(azi),
                 zen=fxa(zen), l=fxa(l), r=fxa(r), out=[], filefs=0,
                 sub=sub or 'FLOAT', filesub='')
        if sub:
            kw['subtype'] = sub
        if kind == 'ls':
            p = [octa(1.2), doc_layout(), random_layout(rs, 5, 1, 2)][i % 3]
            hull, exc = call((lib if lone else spa).decoder.
                             LoudspeakerSetup, p[:, 0], p[:, 1],
                             p[:, 2])
            if exc:
                traces.append([dict(e, exc=exc)])
                continue
            hull.a = [1, 2][i // 2 % 2]
            x = rs.uniform(-1, 1, (len(p), 3))
            x[1] = 0
            if neg:
                x = -4 * abs(x)
            if loud:
                x = np.zeros((len(p), 1))
                x[0] = hull.d[0] ** hull.a
            e.update(pts=fxa(hull.points), a=fx(float(hull.a)), sigs=fxa(x))
            if i % 4 == 2:
                kw['jobs_count'] = 2 if i % 8 == 2 else None
            _, exc = call(io.write_ssr_brirs_loudspeaker, path, x, hull,
                          fs, limit=200, **kw)
        else:
            sp, phi, th = rs.uniform(-1, 1, 3), rs.uniform(-4, 4, 3), \
                rs.uniform(0, 3.1, 3)
            if i % 4 == 1:         # turned more than once
                phi = phi + 2 * np.pi * rs.randint(-2, 3, 3)
                phi[0] = rs.uniform(7, 11)
            if neg:
                sp = -4 * abs(sp)
            if loud:
                sp, phi, th = [1.], [.3 + i], [1.4]
            e.update(p=fxa(sp), phi=fxa(phi), theta=fxa(th))
            sp, phi, th = (np.array(v) for v in (sp, phi, th))
            ar = [v.tolist() for v in (sp, phi, th)] if i % 4 == 3 else \
                [sp, phi, th]
            _, exc = call(io.write_ssr_brirs_sdm, path, *ar, fs, limit=200,
                          **kw)
        e['exc'] = exc
        if not exc:
            path = path if path.endswith('.wav') else path + '.wav'
            data, ffs = soundfile.read(path)
            e.update(out=fxa(data.T), filefs=int(ffs),
                     filesub=soundfile.info(path).subtype)
        traces.append([e])
    for i in range(c.n(12, 60)):
        n = [360, 3, 1, 359][i % 4]
        l, r = rs.randn(n, 2), rs.randn(n, 2)
        if i % 6 == 1:
            r = r[:-1] if len(r) > 1 else np.r_[r, r]
        kw = dict(style='SSR') if i % 3 == 0 else {}
        out, exc = call(spa.utils.interleave_channels, l, r, **kw)
        traces.append([dict(ev='interleave', exc=exc, l=fxa(l), r=fxa(r),
                            ssr=bool(kw), out=[] if exc else fxa(out))])
    c.validate('TraceIo', traces, jobs=8)
