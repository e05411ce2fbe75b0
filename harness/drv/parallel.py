"""Parallel renderers: C09."""
import os
import random
import time

import numpy as np

import setup as S
from vlib import call, fxa, ints


class SlowArray(np.ndarray):
    """Shared memory with a wide window between read and write."""

    delay = 0.0015

    def _nap(self):
        time.sleep(random.Random(os.getpid() ^ time.perf_counter_ns())
                   .random() * self.delay)

    def __iadd__(self, other):
        r = np.asarray(self) + other
        self._nap()
        np.asarray(self)[...] = r
        return self

    def __setitem__(self, key, value):
        v = np.array(value)
        self._nap()
        np.asarray(self)[key] = v


class Widened:
    """np.frombuffer hands out SlowArrays to forked workers meanwhile."""

    def __enter__(self):
        self.f = np.frombuffer
        np.frombuffer = lambda *a, **k: self.f(*a, **k).view(SlowArray)

    def __exit__(self, *_):
        np.frombuffer = self.f


MC = '''INIT Init
NEXT Next
INVARIANTS SameAsSerial Mutex
CHECK_DEADLOCK FALSE
CONSTANTS Workers = {%s} Tasks = %d Width = %d Sync = "%s" Gen = FALSE
'''
MCL = '''SPECIFICATION Spec
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS Workers = {w1, w2} Tasks = 3 Width = 2 Sync = "lock" Gen = FALSE
'''


def jlist(j):
    return [] if j is None else [int(j)]


def C09(c):
    """Parallel execution returns what serial execution returns."""
    spa = c.spa
    rs = c.nprng(9)
    c.mc('Parallel', MC % ('w1, w2, w3', 4, 2, 'lock'))
    c.mc('Parallel', MC % ('w1, w2', 4, 1, 'disjoint'))
    c.mc('Parallel', MCL)
    for bad in ('none', 'private', 'half'):
        c.mc('Parallel', MC % ('w1, w2', 3, 2, bad), expect='SameAsSerial')
    traces = []

    # --- binaural SDM: overlapping integer contributions
    log = []
    dirs = np.array([[0., 0, 1], [1, 0, 0], [0, 1, 0], [-1, 0, 0],
                     [0, -1, 0], [0, 0, -1]])
    azi, zen, _ = spa.utils.cart2sph(*dirs.T)
    for k in range(c.n(14, 120)):
        taps = [1, 3, 16, 40][k % 4]
        n = [1, 2, 7, 60, 90][k % 5]
        hl = rs.randint(-9, 10, (6, taps)).astype(float)
        hr = rs.randint(-9, 10, (6, taps)).astype(float)
        h = spa.sig.HRIRs(hl, hr, azi, zen, 48000)
        p = rs.randint(-9, 10, n).astype(float)
        idx = rs.randint(0, 6, n)
        jobs = [2, 3, None, 8, 4, 1, 5][k % 7]
        a, z = azi[idx].copy(), zen[idx].copy()
        if k % 3 == 2:       # natural schedule
            r, exc = call(spa.parsa.render_bsdm, p.copy(), a, z, h,
                          jobs_count=jobs)
        else:
            with Widened():
                r, exc = call(spa.parsa.render_bsdm, p.copy(), a, z, h,
                              jobs_count=jobs)
        log.append(dict(ev='bsdm', exc=exc, jobs=jlist(jobs), p=ints(p),
                        idx=ints(idx + 1), hl=ints(hl), hr=ints(hr),
                        left=[] if exc else ints(np.asarray(r[0])),
                        right=[] if exc else ints(np.asarray(r[1]))))
        if len(log) == 4:
            traces.append(log)
            log = []
    traces.append(log)

    # --- calls with a jobs_count: recorded next to the serial call
    def same(name, fn, jobs, widen=False, serial=1):
        ref, e1 = call(fn, serial)
        if widen:
            with Widened():
                out, e2 = call(fn, jobs)
        else:
            out, e2 = call(fn, jobs)
        e = dict(ev='same', call=name, jobs=jlist(jobs), exc=e2, exc1=e1,
                 ref=[], out=[], shapes=[[], []])
        if not e1:
            e['ref'] = fxa(np.atleast_2d(np.asarray(ref)))
            e['shapes'][1] = [int(v) for v in np.shape(ref)]
        if not e2:
            e['out'] = fxa(np.atleast_2d(np.asarray(out)))
            e['shapes'][0] = [int(v) for v in np.shape(out)]
        traces.append([e])

    for k in range(c.n(7, 60)):
        n = [40, 70, 36, 120][k % 4]
        b = spa.sig.AmbiBSignal(list(rs.randn(4, n)), fs=48000)
        kw = dict(win_len=[5, 9, 33][k % 3], smoothing_order=[0, 3, 5][k % 3])
        if k % 4 == 3:
            kw['f_bp'] = (200, 4000)
        same('pseudo_intensity',
             lambda j: spa.parsa.pseudo_intensity(b, jobs_count=j, **kw),
             [2, 3, None, 7][k % 4], widen=k % 2 == 0)
    for k in range(c.n(8, 60)):
        p, rim = S.amb_layout(rs, k)
        h, _ = call(spa.decoder.LoudspeakerSetup, *p.T)
        if rim:
            call(h.pop_triangles, normal_limit=85, aperture_limit=100)
        call(h.ambisonics_setup, update_hull=rim, N_kernel=3)
        if h.ambisonics_hull is None:
            continue
        src = rs.randn([9, 10, 25, 64][k % 4], 3)
        if k % 3 != 1:       # at loudspeakers, between two, close to there
            q = S.sources(h, rs, 4)
            f = np.array(h.simplices)
            src = np.r_[src[:6], h.points, q, (h.points[f[:4, 0]] +
                                               h.points[f[:4, 1]]) / 3]
        jobs = [2, 3, None, 5][k % 4]
        nrm = [2, 1, np.inf, 1][k % 4]
        if k % 2:
            h.a = 2
        same('vbap', lambda j: spa.decoder.vbap(src, h, norm=nrm,
                                                jobs_count=j), jobs, k % 2)
        same('vbip', lambda j: spa.decoder.vbip(
            src, h, norm=nrm, jobs_count=j, retain_outside=rim), jobs, True)
        same('vbap', lambda j: spa.decoder.vbap(
            src, h, valid_simplices=h.simplices[:5], jobs_count=j), jobs)
        N = k % 3 + 1
        F = rs.randn((N + 1) ** 2, 3)
        # first call in parallel: nothing is prepared by a serial one
        h2, _ = call(spa.decoder.LoudspeakerSetup, *p.T)
        call(h2.ambisonics_setup, update_hull=False, N_kernel=3)
        out, e2 = call(spa.decoder.allrap, src[:4], h2, N_sph=N,
                       jobs_count=jobs)
        h3, _ = call(spa.decoder.LoudspeakerSetup, *p.T)
        call(h3.ambisonics_setup, update_hull=False, N_kernel=3)
        ref, e1 = call(spa.decoder.allrap, src[:4], h3, N_sph=N)
        traces.append([dict(ev='same', call='allrap', jobs=jlist(jobs),
                            exc=e2, exc1=e1, ref=[] if e1 else fxa(ref),
                            out=[] if e2 else fxa(out),
                            shapes=[list(np.shape(out)),
                                    list(np.shape(ref))])])
        same('allrap2', lambda j: spa.decoder.allrap2(
            src[:3], h, N_sph=N, jobs_count=j), jobs)
        same('allrad', lambda j: spa.decoder.allrad(
            F, h, N_sph=N, jobs_count=j), jobs)
        same('allrad2', lambda j: spa.decoder.allrad2(
            F, h, N_sph=N, jobs_count=j), jobs)
    for k in range(c.n(6, 40)):
        g, taps = [1, 2, 5, 9][k % 4], [32, 50, 64][k % 3]
        hl, hr = rs.randn(g, taps), rs.randn(g, taps)
        fs = [(48000, 44100), (44100, 48000), (48000, 16000)][k % 3]
        jobs = [2, None, 3, 16][k % 4]
        for ear in (0, 1):
            same('resample_hrirs', lambda j: spa.process.resample_hrirs(
                hl, hr, *fs, jobs_count=j)[ear], jobs)
    # --- BRIR export
    for k in range(c.n(2, 10)):
        h, _ = call(spa.decoder.LoudspeakerSetup, *S.octa().T)
        hr = spa.sig.HRIRs(rs.randn(6, 4), rs.randn(6, 4), azi, zen, 48000)
        irs = .01 * rs.randn(6, 5) if k % 2 == 0 else rs.randn(6, 5)
        out, exc = [], []
        for j in (1, [3, None, 2][k % 3]):
            f = os.path.join(c.tmp, 'brir%d_%s.wav' % (k, j))
            _, e = call(spa.io.write_ssr_brirs_loudspeaker, f, irs, h, 48000,
                        subtype='PCM_16', hrirs=hr, jobs_count=j)
            exc.append(e)
            if not e:
                import soundfile as sf
                out.append(ints(sf.read(f, dtype='int16')[0].astype(int)))
            else:
                out.append([])
        traces.append([dict(ev='sameint', call='ssr', exc=exc[1],
                            exc1=exc[0], ref=out[0], out=out[1])])
    c.validate('TraceParallel', traces)
