"""Public calls of the library with argument sets, for C26.

REG[name](spa, v) builds fresh arguments of variant v (0, 1, 2 differ in few
arguments only) and returns (function, args, kwargs)."""
import numpy as np

REG = {}


def reg(f):
    REG[f.__name__] = f
    return f


def dirs(v, n=7):
    r = np.random.RandomState(900 + v)
    return r.uniform(0, 2 * np.pi, n), r.uniform(.1, 3., n)


def sig_(v, *shape):
    return np.random.RandomState(700 + v).randn(*shape)


def layout(spa, v=0):
    n, seed = [(8, 3), (8, 4), (9, 3)][v]
    p = np.random.RandomState(seed).randn(n, 3)
    p /= np.linalg.norm(p, axis=1)[:, None]
    return spa.decoder.LoudspeakerSetup(*(1.5 * p).T)


def ring(spa, v=0):
    """Closed, regular enough for every decoder."""
    x, y, z = spa.grids.load_t_design([3, 5, 4][v]).T
    ls = spa.decoder.LoudspeakerSetup(x, y, z)
    ls.ambisonics_setup(update_hull=False, N_kernel=[8, 8, 9][v])
    return ls


def hset(spa, v=0, G=None):
    azi, zen, _ = spa.grids.gauss([3, 3, 4][v])
    G = len(azi)
    r = np.random.RandomState(50 + v)
    e = np.exp(-np.arange(64) / 8.)
    return spa.sig.HRIRs(r.randn(G, 64) * e, r.randn(G, 64) * e, azi, zen,
                         48000)


def simple(fun, *build):
    """One function of a submodule, three argument tuples."""
    mod, name = fun.split('.')[:2]

    def f(spa, v):
        b = build[v % len(build)]()
        a, k = b if isinstance(b, tuple) and len(b) == 2 and \
            isinstance(b[1], dict) else (b, {})
        return getattr(getattr(spa, mod), name), a, k
    key = fun if fun not in REG else fun + '_%d' % len(REG)
    REG[key] = f


def A(v=0, n=7):
    return dirs(v, n)


# sph
simple('sph.sh_matrix', lambda: (3, *A(0)), lambda: (3, *A(1)),
       lambda: (4, *A(0)))
simple('sph.sh_matrix', lambda: (3, *A(0), 'complex'),
       lambda: (3, *A(1), 'complex'), lambda: (3, *A(0), 'real'))
simple('sph.sht', lambda: (sig_(0, 24, 3), 2, *A(0, 24), 'real'),
       lambda: (sig_(1, 24, 3), 2, *A(0, 24), 'real'),
       lambda: (sig_(0, 24, 3), 2, *A(0, 24), 'complex'))
simple('sph.sht_lstsq', lambda: (sig_(0, 24, 3), 2, *A(0, 24), 'real'),
       lambda: (sig_(0, 24, 3), 2, *A(1, 24), 'real'),
       lambda: (sig_(0, 24, 3), 3, *A(0, 24), 'real'))
simple('sph.inverse_sht', lambda: (sig_(0, 9, 3), *A(0), 'real'),
       lambda: (sig_(0, 9, 3), *A(1), 'real'),
       lambda: (sig_(0, 9, 3), *A(0), 'complex'))
simple('sph.sh_rotation_matrix', lambda: (3, .3, .2, -.4),
       lambda: (3, .3, .2, .4), lambda: (2, .3, .2, -.4))
simple('sph.rotate_sh', lambda: (sig_(0, 9), .3, .2, -.4),
       lambda: (sig_(0, 9), .3, -.2, -.4), lambda: (sig_(0, 16), .3, .2, -.4))
simple('sph.check_cond_sht', lambda: (2, *A(0, 24), 'real'),
       lambda: (2, *A(1, 24), 'real'), lambda: (3, *A(0, 24), 'real'))
simple('sph.n3d_to_sn3d', lambda: (sig_(0, 9, 2),), lambda: (sig_(1, 9, 2),),
       lambda: ((sig_(0, 4, 4),), dict(axis=1)))
simple('sph.sn3d_to_n3d', lambda: (sig_(0, 9, 2),), lambda: (sig_(1, 9, 2),),
       lambda: ((sig_(0, 4, 4),), dict(axis=1)))
simple('sph.platonic_solid', lambda: ('tetrahedron',), lambda: ('tetra',))
simple('sph.sh_to_b', lambda: (sig_(0, 4, 5),), lambda: (sig_(1, 4, 5),),
       lambda: (sig_(0, 4, 5), .5))
simple('sph.b_to_sh', lambda: (sig_(0, 4, 5),), lambda: (sig_(1, 4, 5),),
       lambda: (sig_(0, 4, 5), .5))
simple('sph.soundfield_to_b', lambda: (sig_(0, 4, 5),),
       lambda: (sig_(1, 4, 5),), lambda: (sig_(0, 4, 6),))
simple('sph.src_to_b', lambda: (sig_(0, 6), .3, 1.), lambda: (
    sig_(0, 6), .3, 1.2), lambda: (sig_(1, 6), .3, 1.))
simple('sph.src_to_sh', lambda: (sig_(0, 6), .3, 1., 3), lambda: (
    sig_(0, 6), .4, 1., 3), lambda: (sig_(0, 6), .3, 1., 2))
simple('sph.bandlimited_dirac', lambda: (3, np.linspace(0, 3, 9)),
       lambda: (3, np.linspace(0, 2, 9)), lambda: (4, np.linspace(0, 3, 9)))
simple('sph.max_rE_weights', lambda: (3,), lambda: (4,), lambda: (5,))
simple('sph.r_E', lambda: (sig_(0, 6, 3), np.abs(sig_(0, 2, 6))),
       lambda: (sig_(1, 6, 3), np.abs(sig_(0, 2, 6))),
       lambda: (sig_(0, 6, 3), np.abs(sig_(1, 2, 6))))
simple('sph.project_on_sphere', lambda: tuple(sig_(0, 3, 6)),
       lambda: tuple(sig_(1, 3, 6)), lambda: tuple(sig_(2, 3, 6)))
simple('sph.repeat_per_order', lambda: (sig_(0, 4),), lambda: (sig_(1, 4),),
       lambda: (sig_(0, 5),))
simple('sph.spherical_hn2', lambda: (2, np.linspace(.1, 5, 9)),
       lambda: (3, np.linspace(.1, 5, 9)),
       lambda: (2, np.linspace(.1, 5, 9), True))
simple('sph.mode_strength', lambda: (2, np.linspace(.1, 5, 9)),
       lambda: (3, np.linspace(.1, 5, 9)),
       lambda: (2, np.linspace(.1, 5, 9), 'open'))
simple('sph.pressure_on_sphere', lambda: (3, np.linspace(.1, 5, 9)),
       lambda: (3, np.linspace(.1, 4, 9)),
       lambda: (3, np.linspace(.1, 5, 9), np.array([1, .8, .5, .2])))
simple('sph.binaural_coloration_compensation',
       lambda: (3, np.linspace(10, 9e3, 9)),
       lambda: ((3, np.linspace(10, 9e3, 9)), dict(r_0=.1)),
       lambda: ((3, np.linspace(10, 9e3, 9)),
                dict(w_taper=np.array([1, .8, .5, .2]))))
for w in ('unity_gain',):
    simple('sph.' + w, lambda: (np.array([1, .8, .5]),),
           lambda: (np.array([1, .7, .5]),), lambda: (np.array([1, .8]),))
for w in ('hypercardioid_modal_weights', 'cardioid_modal_weights',
          'maxre_modal_weights'):
    simple('sph.' + w, lambda: (3,), lambda: (4,), lambda: (2,))
simple('sph.butterworth_modal_weights', lambda: (4, 3, 2),
       lambda: (4, 2, 2), lambda: (4, 3, 3))
# utils
simple('utils.asarray_1d', lambda: (sig_(0, 1, 5),), lambda: (sig_(1, 5),),
       lambda: ([1., 2.],))
simple('utils.cart2sph', lambda: tuple(sig_(0, 3, 6)),
       lambda: tuple(sig_(1, 3, 6)),
       lambda: (tuple(sig_(0, 3, 6)), dict(positive_azi=True)))
simple('utils.sph2cart', lambda: A(0), lambda: A(1), lambda: (*A(0), 2.))
simple('utils.matlab_sph2cart', lambda: A(0), lambda: A(1),
       lambda: (*A(0), 2.))
simple('utils.cart2dir', lambda: tuple(sig_(0, 3, 6)),
       lambda: tuple(sig_(1, 3, 6)), lambda: tuple(sig_(2, 3, 6)))
simple('utils.dir2cart', lambda: A(0), lambda: A(1), lambda: A(2))
simple('utils.vec2dir', lambda: (sig_(0, 6, 3),), lambda: (sig_(1, 6, 3),),
       lambda: (sig_(2, 4, 3),))
simple('utils.angle_between', lambda: (sig_(0, 3), sig_(1, 5, 3)),
       lambda: (sig_(0, 3), sig_(2, 5, 3)), lambda: (sig_(1, 3), sig_(1, 3)))
simple('utils.rotation_euler', lambda: (.1, .2, .3), lambda: (.1, .2, -.3),
       lambda: (.1,))
simple('utils.rotation_rodrigues', lambda: (np.array([1., 2, 3]), .4),
       lambda: (np.array([1., 2, 3]), .5), lambda: (np.array([1., 2, 4]), .4))
simple('utils.rotation_vecvec', lambda: (sig_(0, 3), sig_(1, 3)),
       lambda: (sig_(0, 3), sig_(2, 3)), lambda: (sig_(1, 3), sig_(0, 3)))
simple('utils.haversine', lambda: (.1, .5, 1., 2.), lambda: (.1, .5, 1., 1.),
       lambda: (.1, .5, 1., 2., 3.))
simple('utils.area_triangle', lambda: tuple(sig_(0, 3, 3)),
       lambda: tuple(sig_(1, 3, 3)), lambda: tuple(sig_(2, 3, 3)))
simple('utils.db', lambda: (sig_(0, 5),), lambda: (sig_(1, 5),),
       lambda: (sig_(0, 5), True))
simple('utils.from_db', lambda: (sig_(0, 5),), lambda: (sig_(1, 5),),
       lambda: (sig_(0, 5), True))
simple('utils.rms', lambda: (sig_(0, 5, 5),), lambda: (sig_(1, 5, 5),),
       lambda: (sig_(0, 5, 5), 0))
simple('utils.stack', lambda: (sig_(0, 5), sig_(1, 5)),
       lambda: (sig_(0, 5), sig_(2, 5)), lambda: (sig_(0, 2, 5), sig_(1, 2, 5)))
simple('utils.interleave_channels', lambda: (sig_(0, 3, 5), sig_(1, 3, 5)),
       lambda: (sig_(0, 3, 5), sig_(2, 3, 5)),
       lambda: (sig_(1, 3, 5), sig_(0, 3, 5)))

# grids
simple('grids.calculate_grid_weights', lambda: A(0, 30), lambda: A(1, 30),
       lambda: (*A(0, 30), 3))
simple('grids.load_t_design', lambda: (3,), lambda: (4,), lambda: (5,))
simple('grids.load_n_design', lambda: (3,), lambda: (4,), lambda: (5,))
simple('grids.load_lebedev', lambda: (3,), lambda: (5,), lambda: (7,))
simple('grids.load_Fliege_Maier_nodes', lambda: (3,), lambda: (4,),
       lambda: (5,))
simple('grids.equal_angle', lambda: (3,), lambda: (4,), lambda: (5,))
simple('grids.gauss', lambda: (3,), lambda: (4,), lambda: (5,))
simple('grids.equal_polar_angle', lambda: (9,), lambda: (12,), lambda: (5,))

# process
simple('process.resample_signal', lambda: (sig_(0, 64), 48000, 44100),
       lambda: (sig_(1, 64), 48000, 44100), lambda: (sig_(0, 64), 44100, 48000))
simple('process.resample_spectrum',
       lambda: (np.fft.rfft(sig_(0, 64)), 48000, 24000),
       lambda: (np.fft.rfft(sig_(1, 64)), 48000, 24000),
       lambda: (np.fft.rfft(sig_(0, 64)), 24000, 48000))
simple('process.resample_hrirs',
       lambda: (sig_(0, 3, 32), sig_(1, 3, 32), 48000, 44100),
       lambda: (sig_(0, 3, 32), sig_(2, 3, 32), 48000, 44100),
       lambda: (sig_(0, 3, 32), sig_(1, 3, 32), 44100, 48000))
simple('process.match_loudness', lambda: (sig_(0, 9, 2), sig_(1, 9, 2)),
       lambda: (sig_(0, 9, 2), .1 * sig_(1, 9, 2)),
       lambda: (sig_(2, 9, 2), .1 * sig_(1, 9, 2)))
simple('process.lagrange_delay', lambda: (3, 1.3), lambda: (3, 1.6),
       lambda: (4, 1.3))
simple('process.frac_octave_smoothing', lambda: (sig_(0, 30), 3),
       lambda: (sig_(0, 30), 1), lambda: (sig_(0, 30), 3, False))
simple('process.frac_octave_filterbank', lambda: (1, 65, 48000, 1000.),
       lambda: (3, 65, 48000, 1000.),
       lambda: ((1, 65, 48000, 1000.), dict(mode='amplitude')))
simple('process.subband_levels', lambda: (sig_(0, 3, 9), 100., 48000),
       lambda: (sig_(1, 3, 9), 100., 48000),
       lambda: (sig_(0, 3, 9), 100., 48000, True))
simple('process.energy_decay', lambda: (sig_(0, 9),), lambda: (sig_(1, 9),),
       lambda: (sig_(2, 8),))
simple('process.half_sided_Hann', lambda: (3,), lambda: (4,), lambda: (5,))
simple('process.gain_clipping', lambda: (3 * sig_(0, 9), 1.),
       lambda: (3 * sig_(0, 9), 1.5), lambda: (3 * sig_(1, 9), 1.))



def spd(v, n=9):
    a = sig_(v, n, n + 4)
    return a @ a.T / n


simple('parsa.sh_beamform', lambda: (sig_(0, 4), sig_(0, 4, 6)),
       lambda: (sig_(1, 4), sig_(0, 4, 6)), lambda: (sig_(0, 4), sig_(1, 4, 6)))
simple('parsa.estimate_num_sources', lambda: (spd(0),), lambda: (spd(1),),
       lambda: (spd(0), .1))
simple('parsa.separate_cov', lambda: (spd(0), 2), lambda: (spd(1), 2),
       lambda: (spd(0), 3))
simple('parsa.sh_music', lambda: (spd(0), 2, *A(0)),
       lambda: (spd(1), 2, *A(0)), lambda: (spd(0), 2, *A(1)))
simple('parsa.sh_mvdr', lambda: (spd(0), *A(0)),
       lambda: (spd(1), *A(0)), lambda: (spd(0), *A(1)))
simple('parsa.sh_lcmv', lambda: (spd(0), *A(0, 2), [1, 0]),
       lambda: (spd(1), *A(0, 2), [1, 0]), lambda: (spd(0), *A(0, 2), [0, 1]))
simple('parsa.sh_sector_beamformer', lambda: (np.eye(9)[:4],),
       lambda: (sig_(0, 4, 9),), lambda: (sig_(1, 4, 9),))
simple('parsa.render_stereo_sdm', lambda: (sig_(0, 9), *A(0, 9)),
       lambda: (sig_(1, 9), *A(0, 9)), lambda: (sig_(0, 9), *A(1, 9)))


@reg
def vbap(spa, v):
    return spa.decoder.vbap, (sig_(v == 1, 5, 3), layout(spa, 2 * (v == 2))), \
        {}


@reg
def vbip(spa, v):
    return spa.decoder.vbip, (sig_(v == 1, 5, 3), layout(spa, 2 * (v == 2))), \
        {}


def dome(spa, v):
    """Open at the bottom."""
    azi = np.r_[np.arange(6) * np.pi / 3, .2 + np.arange(3) * 2 * np.pi / 3]
    zen = np.r_[np.full(6, [1.5, 1.4, 1.5][v]), np.full(3, .6)]
    ls = spa.decoder.LoudspeakerSetup.from_sph(azi, zen)
    ls.pop_triangles(60, 90)
    return ls


@reg
def find_imaginary_loudspeaker(spa, v):
    return spa.decoder.find_imaginary_loudspeaker, (dome(spa, v),), {}


@reg
def ambisonics_setup(spa, v):
    ls = dome(spa, v)

    def f():
        ls.ambisonics_setup(update_hull=True, N_kernel=[5, 5, 6][v])
        return ls, ls.ambisonics_hull, ls.kernel_hull, ls.characteristic_order
    return f, (), {}


@reg
def vbap_outside(spa, v):
    ls = dome(spa, 0)
    ls.ambisonics_setup(update_hull=True, N_kernel=4)
    return spa.decoder.vbap, (sig_(v == 1, 5, 3), ls), \
        dict(norm=[2, 2, 1][v], retain_outside=True)


def _dec(name):
    def f(spa, v):
        fn = getattr(spa.decoder, name)
        ls = ring(spa, 2 if v == 2 else 0)
        if name.startswith('allrap'):
            return fn, (sig_(v == 1, 4, 3), ls), dict(N_sph=3)
        return fn, (sig_(v == 1, 4, 5), ls), dict(N_sph=1)
    f.__name__ = name
    reg(f)


for _n in ('allrap', 'allrap2', 'allrad', 'allrad2', 'sad', 'mad', 'epad'):
    _dec(_n)


def _geom(name):
    def f(spa, v):
        return getattr(spa.decoder, name), (layout(spa, v),), {}
    f.__name__ = name
    reg(f)


for _n in ('calculate_centroids', 'calculate_face_areas',
           'calculate_face_normals', 'calculate_vertex_normals',
           'calculate_barycenter', 'check_listener_inside', 'check_normals',
           'check_aperture', 'check_opening', 'characteristic_ambisonic_order'):
    _geom(_n)


@reg
def get_hull(spa, v):
    return spa.decoder.get_hull, tuple(sig_(v, 3, 9)), {}


@reg
def sort_vertices(spa, v):
    return spa.decoder.sort_vertices, (layout(spa, v).simplices.copy(),), {}


@reg
def nearest_loudspeaker(spa, v):
    return spa.decoder.nearest_loudspeaker, (sig_(v == 1, 5, 3),
                                             layout(spa, v)), {}


@reg
def from_sph(spa, v):
    return spa.decoder.LoudspeakerSetup.from_sph, (*dirs(v, 9), 2.), {}


@reg
def binauralize(spa, v):
    ls = layout(spa)
    return ls.binauralize, (sig_(v == 1, 8, 9), 48000), dict(
        orientation=(.3, .1 * (v == 2)), hrirs=hset(spa))


@reg
def loudspeaker_signals(spa, v):
    ls = layout(spa)
    return ls.loudspeaker_signals, (np.abs(sig_(v == 1, 6, 8)),), \
        dict(sig_in=sig_(2 * (v == 2), 6))


@reg
def sh2bin(spa, v):
    return spa.decoder.sh2bin, (sig_(v == 1, 4, 9),
                                sig_(2 * (v == 2), 2, 4, 5)), {}


@reg
def magls_bin(spa, v):
    return spa.decoder.magls_bin, (hset(spa, v == 1), 2), \
        dict(hf_cont='angle' if v == 2 else 'avg')


@reg
def mono(spa, v):
    return spa.sig.MonoSignal, (sig_(v == 1, 9), [48000, 44100][v == 2]), {}


@reg
def multi(spa, v):
    return spa.sig.MultiSignal, (list(sig_(v == 1, 2, 9)),), \
        dict(fs=[48000, 44100][v == 2])


@reg
def ambib(spa, v):
    return spa.sig.AmbiBSignal, (list(sig_(v == 1, 4, 9)),), \
        dict(fs=[48000, 44100][v == 2])


@reg
def b_to_stereo(spa, v):
    s = spa.sig.AmbiBSignal(list(sig_(v, 4, 9)), fs=48000)
    return spa.process.b_to_stereo, (s,), {}


@reg
def ambeo(spa, v):
    s = spa.sig.MultiSignal(list(sig_(v, 4, 9)), fs=48000)
    return spa.process.ambeo_a2b, (s,), {}


@reg
def sh_to_b_signal(spa, v):
    s = spa.sig.MultiSignal(list(sig_(v, 4, 9)), fs=48000)
    return spa.sig.AmbiBSignal.sh_to_b, (s,), {}


@reg
def signal_copy(spa, v):
    s = spa.sig.MultiSignal(list(sig_(v, 3, 9)), fs=48000)
    return s.copy, (), {}


@reg
def get_signals(spa, v):
    s = spa.sig.MultiSignal(list(sig_(v, 3, 9)), fs=48000)
    return s.get_signals, (), {}


@reg
def hrirs(spa, v):
    azi, zen = dirs(v, 5)
    return spa.sig.HRIRs, (sig_(0, 5, 8), sig_(1, 5, 8), azi, zen, 48000), {}


@reg
def hrirs_copy(spa, v):
    return hset(spa, v).copy, (), {}


@reg
def nearest_hrirs(spa, v):
    return hset(spa).nearest_hrirs, (.3 + v, 1.), {}


@reg
def nearest_idx(spa, v):
    return hset(spa, v == 2).nearest_idx, dirs(v == 1, 4), {}


@reg
def load_hrirs(spa, v):
    return spa.io.load_hrirs, ([48000, 44100, 96000][v], 'dummy'), {}


@reg
def hrirs_ctf(spa, v):
    return spa.process.hrirs_ctf, (hset(spa, v == 1),), \
        dict(MIN_PHASE=v != 2)


@reg
def ilds(spa, v):
    return spa.process.ilds_from_hrirs, (hset(spa, v == 1),), \
        dict(TODB=v != 2)


@reg
def itds(spa, v):
    return spa.process.itds_from_hrirs, (hset(spa, v == 1),), \
        dict(upsample=4 if v != 2 else 2)


@reg
def beamformer(spa, v):
    return spa.parsa.sh_beamformer_from_pattern, (
        ['cardioid', 'hypercardioid', 'cardioid'][v], 2 + (v == 2), .3, 1.), {}


@reg
def pseudo_intensity(spa, v):
    s = spa.sig.AmbiBSignal(list(sig_(v == 1, 4, 60)), fs=48000)
    return spa.parsa.pseudo_intensity, (s,), dict(
        win_len=9, smoothing_order=3, f_bp=(500, 5000) if v == 2 else None)


@reg
def render_bsdm(spa, v):
    return spa.parsa.render_bsdm, (sig_(v == 1, 6), *dirs(v == 2, 6),
                                   hset(spa)), {}


@reg
def sdm_eq(spa, v):
    return spa.parsa.sdm_post_equalization, (
        sig_(v == 1, 8, 90), sig_(2, 90), [4000, 8000][v == 2],
        layout(spa)), {}


@reg
def sdm_eq2(spa, v):
    return spa.parsa.sdm_post_equalization2, (
        sig_(v == 1, 8, 500), sig_(2, 500), [48000, 44100][v == 2],
        layout(spa)), dict(blocksize=128)


@reg
def apply_blacklist(spa, v):
    return spa.decoder.apply_blacklist, (layout(spa), [[0], [1], [0, 2]][v]), \
        {}
