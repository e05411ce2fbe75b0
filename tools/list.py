INP = ['inputs', 'configurations']
SETUP_NOTE = ('Every recorded call on seeded layouts is judged by TLC against '
              'the geometric definition in Setup.tla; bounded to the layouts '
              'and sources executed.')

prop('C01', 'Panning is exact inside valid triangles and silent elsewhere',
     'For every loudspeaker layout and every source direction, VBAP drives at '
     'most three loudspeakers, all belonging to one triangle that is currently '
     'valid for rendering, with non-negative (distance compensated) gains of '
     'unit norm whose weighted sum of loudspeaker positions points exactly at '
     'the source; a source inside no valid triangle gets silence, one inside a '
     'valid triangle never does. Gains do not depend on the distance of the '
     'source.',
     INP, 'all layouts, refinements, norms, decay exponents and source '
     'positions, including vertices, edges and off-unit sources',
     'the tests only compare parallel with serial VBAP on one t-design',
     ['decoder.py'], ['vbap', '_invert_triplets', 'LoudspeakerSetup'],
     SETUP_NOTE)
prop('C02', 'Results depend on the setup as it is, not on earlier calls',
     'After any history of panning, triangle refinement, ambisonic setup, '
     'characteristic-order queries, copying and edits of the triangles it '
     'uses (also in place), every panning or decoding call '
     'on a loudspeaker setup returns what a freshly built setup in the same '
     'state would return. Explicitly passed triangles are honoured on every '
     'call, and a copy continues from exactly the state of its original.',
     ['histories', 'inputs'], 'all call histories over refine, setvalid, '
     'ambisonics setup, copy, deepcopy, VBAP, VBIP, order, ALLRAP',
     'tests call each function once on a fresh setup',
     ['decoder.py'], ['vbap', 'characteristic_ambisonic_order',
                      'LoudspeakerSetup.pop_triangles'],
     'TLC checks the design of the kept rendering base exhaustively (a stale '
     'variant is refuted), enumerates all call histories of length 3 '
     '(thorough: samples length 4), and validates their real executions.',
     'TLC state exploration, TLC-generated call histories, trace validation')
prop('C03', 'Triangle refinement removes exactly the offending triangles',
     'Popping triangles keeps precisely those previously valid triangles whose '
     'normal-to-listener angle, aperture seen from the listener and opening '
     'angles are within the limits given and that do not contain the '
     'blacklisted loudspeakers; a limit that is not given has no effect, '
     'removed triangles never come back, and loudspeakers and the triangulation '
     'itself stay as they were. Each limit examined on its own answers the '
     'same question for a listener anywhere and changes nothing.',
     ['inputs', 'histories'], 'all layouts and sequences of limits/blacklists',
     'no test refines a setup',
     ['decoder.py'], ['LoudspeakerSetup.pop_triangles', 'check_normals',
                      'check_aperture', 'check_opening', 'apply_blacklist'],
     SETUP_NOTE)
prop('C04', 'A setup is the convex, outward oriented hull of its loudspeakers',
     'Constructing a setup from Cartesian or spherical positions places the '
     'loudspeakers relative to the listener, triangulates them into the closed '
     'convex surface, reports distances, centroids, areas and outward normals '
     'of those triangles and normals of the vertices, and initially validates '
     'exactly the triangles facing '
     'the listener, in whatever unit of length. The arrays passed in are '
     'never modified.',
     INP, 'all layouts, listener positions and integer or float coordinates',
     'no test looks at the geometry',
     ['decoder.py'], ['LoudspeakerSetup.__init__', 'get_hull',
                      'calculate_centroids', 'calculate_face_areas',
                      'calculate_face_normals', 'check_listener_inside',
                      'calculate_barycenter', 'calculate_vertex_normals',
                      'sort_vertices'], SETUP_NOTE)
prop('C05', 'The ambisonic extension adds imaginary loudspeakers, never outputs',
     'The ambisonic setup keeps every real loudspeaker first and unchanged and '
     'appends exactly the given imaginary loudspeakers, or else the single one '
     'that closes the rim of the valid triangles (against their summed area '
     'weighted normals, scaled by the cubed mean distance). The characteristic order '
     'follows the energy vector spread, and panning and decoding on the extension '
     'never output an imaginary channel; calls needing a missing extension, or '
     'the rim of a closed surface, are refused.',
     ['inputs', 'histories'], 'all layouts, imaginary positions, orders and '
     'kernel orders',
     'one test runs ambisonics_setup on a closed t-design only',
     ['decoder.py'], ['LoudspeakerSetup.ambisonics_setup',
                      'find_imaginary_loudspeaker',
                      'characteristic_ambisonic_order'], SETUP_NOTE)
prop('C06', 'Intensity panning and nearest-loudspeaker selection',
     'VBIP gains are non-negative, confined to one valid triangle, of unit '
     'norm, and their squares pan exactly towards the source. Nearest-'
     'loudspeaker selection puts a single distance-compensated unit gain on a '
     'loudspeaker of smallest angle to the source.',
     INP, 'all layouts, norms, sources', 'neither is tested',
     ['decoder.py'], ['vbip', 'nearest_loudspeaker'], SETUP_NOTE)
prop('C07', 'All-round panning and decoding equal their band-limited design',
     'ALLRAP and ALLRAP2 gains and the ALLRAD and ALLRAD2 decoder matrices '
     'equal the max-rE tapered, band-limited panning function sampled on the '
     'kernel design and panned on the ambisonic hull, at the requested order '
     'or else the characteristic order. ALLRAP2 gains are normalised to unit '
     'energy on average, decoding is linear in the signals and refuses signals '
     'with fewer channels than the order needs.',
     INP, 'all layouts, kernel orders, orders and source directions',
     'tests only compare job counts',
     ['decoder.py'], ['allrap', 'allrap2', 'allrad', 'allrad2'],
     SETUP_NOTE)
prop('C08', 'Sampling, mode-matching and energy-preserving decoders',
     'SAD is the scaled SH matrix at the loudspeakers, MAD its scaled '
     'pseudo-inverse, and EPAD its scaled isometric factor, so that with at '
     'least as many loudspeakers as channels EPAD preserves energy exactly. '
     'All three are linear, use only the channels up to the decoding order, '
     'produce one signal per loudspeaker and refuse signals with too few '
     'channels.',
     INP, 'all layouts, orders and signals, more and fewer loudspeakers than '
     'channels', 'not tested',
     ['decoder.py'], ['sad', 'mad', 'epad'], SETUP_NOTE)
prop('C09', 'Parallel execution returns exactly what serial execution returns',
     'For every schedule of worker processes and every job count (1, several, '
     'all cores, more than tasks), binaural SDM rendering, pseudo-intensity, '
     'VBAP, VBIP, ALLRAP, ALLRAD, HRIR resampling and BRIR export return what '
     'the serial call returns; no contribution to overlapping output is ever '
     'lost or counted twice.',
     ['schedules', 'inputs'], 'all interleavings of the worker steps, job '
     'counts and task counts',
     'tests run whatever schedule happens, on three job counts, and the '
     'racy renderer is commented out',
     ['parsa.py', 'decoder.py', 'process.py', 'io.py'],
     ['render_bsdm', 'lock', 'pseudo_intensity', 'vbap', 'resample_hrirs',
      'write_ssr_brirs_loudspeaker'],
     'TLC explores every interleaving of the worker design (unlocked, '
     'privately locked and half locked variants are refuted); real runs use '
     'widened read/write windows and integer data checked exactly.',
     'TLC interleaving exploration plus trace validation of real runs')
HRIR_NOTE = ('Recorded calls on seeded HRIR sets are judged by TLC against '
             'Hrirs.tla; bounded to the sets, signals and directions executed.')
prop('C10', 'Binauralized loudspeakers equal the sum over their nearest HRIRs',
     'Binauralizing loudspeaker signals gives, for each ear, the sum over the '
     'loudspeakers of the distance attenuated signal convolved with the HRIR '
     'closest to the loudspeaker direction as seen by the rotated listener; '
     'only channels below the -100 dB gate are left out. Wrong rates and '
     'channel counts are refused, arguments stay untouched, and without a '
     'given set the default set of that rate is heard. Loudspeaker '
     'signals from gains are the signal times the gain of each loudspeaker.',
     INP, 'all setups, HRIR grids, signals, decay exponents, orientations',
     'one test multiplies a single setup; no oracle exists for the sum',
     ['decoder.py'], ['LoudspeakerSetup.binauralize',
                      'LoudspeakerSetup.loudspeaker_signals'], HRIR_NOTE)
prop('C11', 'HRIR sets stay consistent and answer with the nearest direction',
     'After any history of updating, equalizing, copying, editing and '
     'querying, an HRIR set holds one left and one right response per grid '
     'direction, its reported sizes are the sizes of its data, both ears are '
     'filtered alike (by given taps, or else by the common transfer function '
     'equalizer of the set), copies do not share data and inconsistent data are '
     'refused without any change. Nearest-direction queries return a grid '
     'direction of smallest angle and exactly its responses, also for wrapped '
     'azimuths and at the poles.',
     ['histories', 'inputs'], 'all histories of update, equalize, copy, edit, '
     'query; all grids and directions',
     'no test exercises histories or queries',
     ['sig.py'], ['HRIRs', 'HRIRs.nearest_idx', 'HRIRs.update_hrirs',
                  'HRIRs.apply_ctf_eq'],
     'TLC checks the design (four wrong variants refuted), enumerates all '
     'histories of length 3 and validates their real executions.',
     'TLC state exploration, TLC-generated call histories, trace validation')
prop('C12', 'Binaural decoding convolves and sums; MagLS keeps what SH can hold',
     'sh2bin returns for each ear the sum over channels of signal convolved '
     'with filter and refuses unequal channel counts. The magnitude least '
     'squares decoder returns filters of the HRIR length: below the '
     'transition frequency the least-squares fit of the HRTFs, above it the '
     'fit of their magnitudes with the phase of the chosen continuation. It '
     'reproduces order-limited HRIR gains with a common delay exactly for every high '
     'frequency continuation, swaps its outputs when ears are swapped, '
     'scales with the HRIRs and refuses unknown continuations.',
     INP, 'all orders, signals, HRIR sets and continuation methods',
     'the tests only compare shapes of one decode',
     ['decoder.py'], ['sh2bin', 'magls_bin'], HRIR_NOTE)
prop('C25', 'Signal objects follow their operations and share nothing',
     'After any history of constructing, copying, trimming, filtering, '
     'resampling, editing and querying, mono, multichannel and ambisonic '
     'B-format objects hold exactly what these operations define, report their '
     'true length and channel count, W, X, Y, Z always name the current '
     'channels, and no operation on one object changes another. Playback '
     'hands exactly these samples, scaled, to the device at their rate and '
     'waits if asked to. Impossible trims and inconsistent constructions are '
     'refused without any change.',
     ['histories', 'inputs'], 'all histories of the signal operations',
     'tests construct objects and read them once',
     ['sig.py'], ['MonoSignal', 'MultiSignal', 'AmbiBSignal', 'trim_audio', 'MonoSignal.play'],
     'TLC checks the design (wrong variants refuted), enumerates operation '
     'histories and validates their real executions.',
     'TLC state exploration, TLC-generated call histories, trace validation')
prop('C28', 'Audio written to disk is the audio read back',
     'Saving arrays or signals and loading them, alone or as one file per '
     'channel, gives the samples back to within the sample format, at the '
     'rate written, as a mono or a multichannel object according to the number '
     'of channels. Mismatched rates, missing rates, wrong channel counts and '
     'data that are not audio are refused; saving never changes the signal.',
     ['histories', 'inputs'], 'all signals, sample formats and sequences of '
     'save and load',
     'one test reads one fixed file', ['io.py', 'sig.py'],
     ['load_audio', 'save_audio', 'MultiSignal.from_file', 'MonoSignal.save'],
     'Histories of saves and loads on real files validated by TLC against '
     'SignalHistory/TraceSignals.',
     'TLC-generated call histories, trace validation')
prop('C29', 'Loudspeaker layouts survive their JSON files',
     'Saving a layout writes every loudspeaker of the ambisonic setup in '
     'channel order with azimuth, elevation and radius rounded to two '
     'decimals, marks exactly the imaginary ones and stores the gains, zero '
     'for imaginary ones; without an ambisonic setup it is refused and writes '
     'nothing. Loading a layout file gives its real loudspeakers and gains in '
     'file order relative to the listener, its imaginary ones appended, and '
     'the kernel order asked for. Round trips are stable, and optional fields '
     'may be missing.',
     ['histories', 'inputs'], 'all layouts, files and sequences of save, load, '
     'gain changes and edits of the file', 'no test writes a layout file',
     ['io.py'], ['save_layout', 'load_layout'],
     'TLC checks the gain bookkeeping design (a wrong variant is refuted), '
     'enumerates save/load/edit histories and validates their real executions '
     'and files.',
     'TLC state exploration, TLC-generated call histories, trace validation')
prop('C30', 'Exported BRIRs are the rendered ears of every head angle',
     'The SSR exports for loudspeakers and for SDM data write one wav file '
     'with 720 channels at the given rate, in the subtype asked: for every degree of head rotation '
     'the left and the right ear rendered for that rotation, all divided by '
     'one common factor only if the peak magnitude would exceed one. An HRIR '
     'rate that does not fit is refused. interleave_channels alternates two '
     'equally shaped channel sets exactly and refuses others.',
     INP, 'all setups, SDM data and HRIR sets', 'no test exports BRIRs',
     ['io.py', 'utils.py'],
     ['write_ssr_brirs_loudspeaker', 'write_ssr_brirs_sdm'],
     'Files written by the real export are read back and judged by TLC; '
     'bounded to the setups executed.')
prop('C31', 'HRIR and SDM files load as the data they hold',
     'Loading SOFA files, HRIR mat files and SDM mat files returns the stored '
     'responses, the same directions converted to azimuth and zenith, and the '
     'stored rate; a requested rate that is not the stored one is refused; '
     'missing SDM directions become the default only if asked. SH coefficients '
     'of a SOFA set are its least-squares ones and reproduce an order-limited '
     'set exactly. Single directions, '
     'taps and samples load like any other. The default sets are the inverse '
     'transform of the stored SH coefficients on the grid asked for, resampled '
     'to each default rate; other default rates are refused.',
     INP, 'all grids, rates and field names',
     'no test reads SOFA or SDM files', ['io.py'],
     ['load_sofa_hrirs', 'load_hrirs', 'load_sdm',
      'sofa_to_sh', 'load_sofa_data', 'get_default_hrirs'],
     'Synthetic files are written, loaded by the real loaders and judged by '
     'TLC.')
SPH_NOTE = ('Every recorded call on seeded orders, directions and signals is '
            'judged by TLC against the definition in Sph.tla/Sht.tla; bounded '
            'to the inputs executed.')
prop('C13', 'The SH basis is the orthonormal ACN basis in every direction',
     'sh_matrix evaluates the real (N3D, ACN) or the complex (with '
     'Condon-Shortley phase) orthonormal spherical harmonics of every order '
     'at every direction, including wrapped azimuths and the poles, and '
     'fulfils the addition theorem at high orders; other types are refused '
     'and arguments stay untouched.',
     INP, 'all orders, directions and both types',
     'tests compare one reference file', ['sph.py'], ['sh_matrix'], SPH_NOTE)
prop('C14', 'SH transforms are the quadrature or least-squares solution',
     'sht is the weighted (default 4pi/Q) projection on the conjugate basis, '
     'sht_lstsq the shortest least-squares solution, inverse_sht the synthesis '
     'up to the chosen order, each honouring a given basis matrix. On grids '
     'that integrate twice the order exactly, transforming a synthesised '
     'order-limited function gives its coefficients back.',
     INP, 'all functions, grids, weights, orders, real and complex',
     'tests transform one signal on one grid', ['sph.py'],
     ['sht', 'sht_lstsq', 'inverse_sht'], SPH_NOTE)
prop('C15', 'Rotating SH coefficients rotates the function they represent',
     'The SH rotation matrix is block diagonal per order and maps the basis at '
     'any direction to the basis at the direction rotated by rotation_euler; '
     'rotate_sh applies it to each signal, so that every chain of rotations '
     'acts like the product of its Cartesian rotations. Complex and unknown '
     'types and non-square channel counts are refused.',
     ['inputs', 'histories'], 'all orders, angles and chains of rotations',
     'tests compare one rotation per order with a least-squares fit',
     ['sph.py'], ['sh_rotation_matrix', 'rotate_sh'], SPH_NOTE)
prop('C16', 'Ambisonic format conversions carry the sound field exactly',
     'N3D/SN3D scaling along either axis, SH/B-format conversion with any W '
     'weight, tetrahedral microphone and A-format conversion and the stereo '
     'downmix are the defined linear maps, and any sequence of conversions '
     'and rotations still carries the plane wave it started with from the '
     'rotated direction.',
     ['histories', 'inputs'], 'all conversion and rotation sequences, signals, '
     'weights and axes', 'tests round trip one B-format signal',
     ['sph.py', 'process.py'],
     ['n3d_to_sn3d', 'sn3d_to_n3d', 'sh_to_b', 'b_to_sh', 'soundfield_to_b',
      'ambeo_a2b', 'b_to_stereo'],
     'TLC checks the channel shuffles exhaustively on quarter turns (wrong '
     'variants refuted), enumerates the conversion histories and validates '
     'their real executions.',
     'TLC state exploration, TLC-generated call histories, trace validation')
prop('C17', 'Encoding and multiplying in the SH domain',
     'src_to_sh encodes every source with the conjugate basis of its direction '
     'and sums them, src_to_b encodes one source to W, X, Y, Z; unequal source '
     'counts are refused. sh_mult returns, at the sum of the orders, the '
     'coefficients of the pointwise product for real and complex coefficients.',
     INP, 'all sources, orders (product order up to 10) and both types',
     'tests multiply one pair', ['sph.py'],
     ['src_to_sh', 'src_to_b', 'sh_mult'], SPH_NOTE)
prop('C18', 'Modal weights and beams have their defined patterns',
     'Cardioid, hypercardioid, max-rE, Butterworth and given modal weights '
     'produce beams of their defined axisymmetric pattern around every '
     'steering direction, with unit gain on axis where promised; the '
     'bandlimited Dirac, unit-gain scaling, per-order repetition, beamforming, '
     'energy vectors and projection on the sphere follow their definition; '
     'unknown patterns and wrong counts are refused.',
     INP, 'all orders, patterns, directions and signals',
     'tests check unit amplitude of a few patterns', ['sph.py', 'parsa.py'],
     ['cardioid_modal_weights', 'hypercardioid_modal_weights',
      'maxre_modal_weights', 'butterworth_modal_weights', 'unity_gain',
      'bandlimited_dirac', 'repeat_per_order', 'r_E', 'project_on_sphere'],
     SPH_NOTE)
prop('C19', 'Spherical filter banks reconstruct; sectors weight the field',
     'The analysis matrix holds the steered pattern of every sector; the '
     'perfect and pseudo-inverse designs reconstruct every SH signal exactly '
     'on sufficient designs, the energy design keeps the energy of every plane '
     'wave, each with its defined reconstruction factor. Sector beamformers '
     'are the sector pattern times 1, x, y and z in every direction. Unknown '
     'modes are refused.',
     INP, 'all orders, designs, modal weights, modes and types',
     'tests check two designs', ['sph.py', 'parsa.py'],
     ['design_sph_filterbank', 'sph_filterbank_reconstruction_factor',
      'sh_sector_beamformer'],
     SPH_NOTE)
GEO_NOTE = ('Every recorded call is judged by TLC against the definition in '
            'TraceGeo.tla; bounded to the seeded points, angles, degrees and '
            'orders executed.')
prop('C21', 'Coordinate conversions name the same point',
     'cart2sph, cart2dir and vec2dir name, within their angular ranges '
     '(positive azimuths on request, a defined zenith at the origin when '
     'steady), the point that sph2cart, dir2cart and matlab_sph2cart give '
     'back; degree and radian conversions keep the angle and wrap to one turn; '
     'angle_between, haversine (any radius, also for tiny and antipodal '
     'distances) and area_triangle return the geometric angle, arc and area. '
     'Arguments stay untouched.',
     INP, 'all points, angles, radii, shapes, lists and scalars',
     'tests convert six points', ['utils.py'],
     ['cart2sph', 'sph2cart', 'matlab_sph2cart', 'cart2dir', 'dir2cart',
      'vec2dir', 'deg2rad', 'rad2deg', 'angle_between', 'haversine',
      'area_triangle'], GEO_NOTE)
prop('C22', 'Rotation matrices rotate, compose and arrive',
     'rotation_euler, rotation_rodrigues and rotation_vecvec return proper '
     'rotations of the defined axis, angle and sense for every angle (signed, '
     'tiny, beyond a turn) and any axis or vector length; products of them '
     'act as the composed rotation; rotation_vecvec brings the first vector '
     'to the second, however close to parallel or opposite, and refuses '
     'vectors on one line.',
     ['inputs', 'histories'], 'all angles, axes, vector pairs and products',
     'tests compare two rotations', ['utils.py'],
     ['rotation_euler', 'rotation_rodrigues', 'rotation_vecvec'],
     'TLC checks the group structure exhaustively on quarter turns (wrong '
     'senses refuted), enumerates words of rotations and validates their real '
     'executions.',
     'TLC state exploration, TLC-generated call histories, trace validation')
prop('C23', 'Tabulated grids integrate up to the degree asked for',
     'load_t_design, load_n_design, load_lebedev and load_Fliege_Maier_nodes '
     'return unit vectors whose (equal or returned) weights sum to the sphere '
     'and integrate every polynomial up to the requested degree (order minus '
     'one for Fliege-Maier); degrees without a table get a grid of higher '
     'degree, degrees out of range are refused, and what a caller does to a '
     'returned grid does not show in the next. load_maxDet returns the '
     'table of the smallest degree available that is high enough, and the '
     'tetrahedron its four corners on the unit sphere.',
     INP, 'all degrees (quick: a sample above 30)',
     'tests load single grids', ['grids.py', 'sph.py'],
     ['load_t_design', 'load_n_design', 'load_lebedev',
      'load_Fliege_Maier_nodes', 'load_maxDet', 'platonic_solid'], GEO_NOTE)
prop('C24', 'Analytic and computed quadrature weights are exact',
     'equal_angle and gauss integrate every polynomial up to degree 2n+1 with '
     'positive weights, equal_polar_angle every trigonometric one up to 2n; '
     'calculate_grid_weights returns the shortest weights exact up to the '
     'given order, finds the order a design supports by itself and refuses '
     'points that support none; '
     'check_cond_sht is the ratio of the extreme eigenvalues of the Gram '
     'matrix.',
     INP, 'all orders and grids', 'tests compute weights of one design',
     ['grids.py', 'sph.py'],
     ['equal_angle', 'gauss', 'equal_polar_angle', 'calculate_grid_weights',
      'check_cond_sht'], GEO_NOTE)

PARSA_NOTE = ('Every recorded call is judged by TLC with TraceParsa.tla: '
              'optimal solutions by their constraints and stationarity, '
              'renderings by their defining sums; bounded to the seeded '
              'inputs executed.')
prop('C20', 'Source counting, subspaces and adaptive beams',
     'estimate_num_sources counts the eigenvalues above the first jump by '
     'more than the threshold (none if their variance is below it), whether '
     'given the covariance or the eigenvalues. separate_cov splits a (real or '
     'complex Hermitian) covariance into signal and noise parts that sum to it, the noise part '
     'levelled at the eigenvalue below the cut, for every cut from 0. '
     'sh_music is the inverse distance to the noise subspace. MVDR weights '
     'pass the steering direction with gain one at the least output power; '
     'LCMV weights meet all gain constraints at the least output power and '
     'refuse mismatching constraint lists.',
     INP, 'all covariances, directions and constraints',
     'tests call none of them', ['parsa.py'],
     ['estimate_num_sources', 'separate_cov', 'sh_music', 'sh_mvdr',
      'sh_lcmv'], PARSA_NOTE)
prop('C32', 'Pseudo intensity points at the source',
     'pseudo_intensity returns, per sample, the Hann weighted sum of W times '
     'X, Y, Z around it (zero where no full window fits), smoothed as asked; '
     'window and smoothing lengths must be odd. A plane wave is located where '
     'it comes from, also inside a band selected by f_bp and for every '
     'jobs_count.',
     INP, 'all signals, window and smoothing lengths, bands',
     'the test only compares parallel with serial', ['parsa.py'],
     ['pseudo_intensity'], PARSA_NOTE)
prop('C33', 'SDM rendering sends each sample its way',
     'render_stereo_sdm pans each sample by the sine law. render_bsdm is the '
     'sum of the nearest responses, one per sample, delayed to the sample and '
     'scaled by the pressure, for every jobs_count. '
     'render_binaural_loudspeaker_sdm feeds the pressure times the gains '
     'through the chosen post equaliser (with its keyword arguments) and '
     'binauralizes the result at the given rate; it refuses gains whose '
     'number differs from the samples.',
     INP, 'all pressures, directions, response sets, gains, equalisers',
     'the test only compares parallel with serial', ['parsa.py'],
     ['render_stereo_sdm', 'render_bsdm', 'render_binaural_loudspeaker_sdm'],
     PARSA_NOTE)
prop('C34', 'SDM post equalisation restores the reference spectrum',
     'sdm_post_equalization scales each octave band by the ratio of the '
     'reference magnitude to the loudspeaker magnitudes at the listener '
     '(distance attenuated), summed coherently in the lowest band, by power '
     'from the fourth band on and blended in between, with boosts soft '
     'limited unless disabled. sdm_post_equalization2 applies the band gains '
     'it returns: level ratios per block, blended alike, never above one, '
     'smoothed over past blocks. Both keep shape, leave silence silent, '
     'follow a common scaling and an exchange of loudspeakers, work at every '
     'usual sampling rate and never modify their arguments.',
     INP, 'all loudspeaker signals, references, layouts, decay exponents',
     'no test calls them', ['parsa.py'],
     ['sdm_post_equalization', 'sdm_post_equalization2'], PARSA_NOTE)
PROC_NOTE = ('Every recorded call is judged by TLC with TraceProc.tla against '
             'the definitions in Proc.tla (band edges, smoothing windows, tone '
             'and pulse waveforms, levels, spherical Bessel functions by '
             'series and recurrence); bounded to the seeded inputs executed.')
prop('C35', 'Fractional octave bands are complete and sit where they should',
     'frac_octave_filterbank returns non-negative band gains whose squares '
     '(mode energy) or plain values (amplitude, pressure) add up to one at '
     'every frequency line, with edges half a band around f_low * 2^(b/n) up '
     'to f_high or half the sampling rate, the asked overlap and slope, and '
     'the matching frequency table; unknown modes and overlaps above one half '
     'are refused. frac_octave_smoothing replaces each value by the (Hamming '
     'weighted, unless switched off) mean over the octave fraction around '
     'it, for integer, real and complex input alike; a constant stays.',
     INP, 'all fractions, rates, sizes, limits, overlaps, slopes, spectra',
     'tests use it inside one SDM comparison only', ['process.py'],
     ['frac_octave_filterbank', 'frac_octave_smoothing'], PROC_NOTE)
prop('C36', 'Resampling keeps the waveform at the new rate',
     'resample_signal, resample_hrirs and resample_spectrum return, along the '
     'axis asked and with the number of samples (lines) of the new rate, the '
     'same band limited waveform sampled at that rate: amplitude, frequency, '
     'phase, channel and ear stay; every response of a set is resampled as if '
     'it were alone, whatever jobs_count is; arguments are not modified.',
     INP, 'all rate pairs, axes, channels, worker counts',
     'no test resamples', ['process.py'],
     ['resample_signal', 'resample_hrirs', 'resample_spectrum'], PROC_NOTE)
prop('C37', 'Levels, decay, loudness and gain limits follow their definition',
     'db and from_db are mutually inverse level conversions (20 log10, or 10 '
     'log10 for powers; silence is minus infinity), rms is the root mean '
     'square along the axis asked (also of complex signals), subband_levels '
     'normalises energy by bandwidth (and length) along the axis asked, '
     'energy_decay is the '
     'backward integrated energy in dB starting at 0 dB and never rising, '
     'match_loudness gives the input the loudest channel rms of the target '
     'unless that exceeds full scale, when it is scaled to peak one, and '
     'gain_clipping leaves gains up to the threshold alone and bends larger '
     'ones smoothly below twice the threshold. All take lists, scalars where '
     'sensible, and arrays.',
     INP, 'all signals, levels, axes, thresholds',
     'no test calls them', ['process.py', 'utils.py'],
     ['subband_levels', 'energy_decay', 'match_loudness', 'gain_clipping'],
     PROC_NOTE)
prop('C38', 'Delays, tapers, test signals and array helpers',
     'lagrange_delay(N, d) is the order N interpolator that delays all '
     'polynomials up to degree N by exactly d samples. half_sided_Hann '
     '(orders from 3) is one up to the middle and then falls along half a '
     'Hann window. pulsed_noise has the asked number of pulses, pauses, '
     'raised-cosine fades, a 1/f spectrum if pink and peak one if normalised. '
     'stack joins vectors along the matching dimension, asarray_1d strips '
     'singleton dimensions, interleave_channels alternates left and right '
     'channels, test_diff returns the summed difference; all refuse what '
     'does not fit and keep their arguments.',
     INP, 'all orders, delays, durations, shapes',
     'tests touch stack and test_diff only', ['process.py', 'utils.py'],
     ['lagrange_delay', 'half_sided_Hann', 'pulsed_noise'], PROC_NOTE)
prop('C39', 'Interaural differences and the common transfer function',
     'ilds_from_hrirs gives per direction the level of the left over the '
     'right ear within the cutoff frequencies (dB, or the difference of rms '
     'values), itds_from_hrirs the time by which the left ear leads within '
     'its band on the upsampled grid; exchanging the ears negates both, '
     'scaling and sorting the set changes nothing else. hrirs_ctf returns a '
     'filter of the response length that flattens the common (weighted over '
     'the sphere, both ears alike) magnitude between the frequency limits, '
     'leaves 1 kHz and what lies outside the limits alone, and is a unit '
     'impulse for flat sets; it ignores level, sign and order of the set.',
     INP, 'all response sets, lags, gains, bands, weights',
     'no test calls them', ['process.py'],
     ['ilds_from_hrirs', 'itds_from_hrirs', 'hrirs_ctf'], PROC_NOTE)
prop('C40', 'Scattering on the rigid sphere',
     'spherical_hn2 is j_n - i y_n (or its derivative), mode_strength the '
     'open or rigid sphere radial coefficient 4 pi i^n b_n(kr) (other types '
     'are refused), pressure_on_sphere the order limited, weighted diffuse '
     'field pressure at every kr (scalar, list or array), and '
     'binaural_coloration_compensation the ratio of the full order to the '
     'order limited, tapered pressure, one at 0 Hz, whatever the order of '
     'the frequencies.',
     INP, 'all orders, kr, weights, radii, frequency lists',
     'tests call none of them', ['sph.py'],
     ['spherical_hn2', 'mode_strength', 'pressure_on_sphere',
      'binaural_coloration_compensation'], PROC_NOTE)
prop('C26', 'Calls depend on their arguments only and leave no trace',
     'Within a session, every call of a library function with the same '
     'arguments returns the same result as in a process of its own: whatever '
     'was called before, whatever the caller wrote into earlier results, '
     'whatever state the global random generator is in, and however the '
     'arguments are held in memory (strided, backwards, read only, column '
     'major, byte swapped, as lists and tuples where array_like is documented, '
     'as integers, in single precision). No call modifies '
     'its arguments, results returned earlier, or global state (random '
     'generator, NumPy error and print settings, warnings, working '
     'directory, environment, plot settings).',
     ['histories', 'inputs'], 'all interleavings of calls, overwritten '
     'results and reseeding, over about 130 public calls',
     'tests call each function once with fresh arrays',
     ['decoder.py', 'sph.py', 'utils.py', 'process.py', 'grids.py', 'sig.py',
      'parsa.py', 'io.py'],
     ['get_hull', 'load_n_design', 'from_sph', 'MonoSignal'],
     'TLC checks the design (shared or coarse memories, drawn results and '
     'moved global state are refuted), enumerates all histories of 4 and 5 '
     'steps, and validates sampled ones executed on every registered call; '
     'bounded to the registered argument sets.',
     'TLC state exploration, TLC-generated call histories, trace validation')
prop('C27', 'Figures show the data they are given',
     'Every plot function shows what its arguments say: spectra and '
     'responses at their frequencies with the documented scaling, smoothing, '
     'decibels, limits and labels (magnitude and unwrapped phase of complex '
     'responses included); zeros and poles of the polynomials; the signals '
     'of both formats; spherical functions, harmonic expansions and their '
     'overlays as surfaces whose radius is the magnitude and whose colour is '
     'the phase; rms, function and interaural maps with the value of the '
     'nearby direction in the colour of the right level, azimuths wrapped '
     'into [-pi, pi]; the hull with its valid and invalid simplices, each in '
     'its own colour; face and vertex normals at their places; polar values '
     'split by sign; the measures of a decoder on its grid; directions of '
     'arrival with size and colour of their own.',
     INP, 'all data, argument forms, options, lists and single values, '
     'signals longer than the memory block',
     'tests draw no figure at all', ['plot.py', 'process.py', 'sph.py'],
     ['spectrum', 'freq_resp', 'transfer_function', 'zeropole',
      'compare_ambi', 'spherical_function', 'sh_coeffs', 'sh_rms_map',
      'spherical_function_map', 'sh_bar', 'hull', 'hull_normals', 'polar',
      'decoder_performance', 'doa', 'hrirs_ild_itd', 'set_aspect_equal3d'],
     'Data is read back from the figure\'s artists and judged by TLC against '
     'fixed-point arithmetic; bounded to sampled inputs; map values are '
     'judged to the contour level.')
prop('C41', 'Drawing is confined to what it is given and follows from arguments',
     'In any session with several figures, a plot function draws into the '
     'axes (or figure) it is given, whichever is current, or into one new '
     'figure, and changes nothing else: no other axes, title, grid or '
     'figure, no stray figure (axes need not belong to a pyplot figure), not '
     'the current figure, no argument, no plot setting. What it shows there '
     'is what the same calls show when drawn alone, whatever was drawn '
     'elsewhere before.',
     ['histories', 'inputs'], 'all histories of drawing into two given axes '
     'or new figures, with the user switching between them, over all plot '
     'functions',
     'tests draw no figure at all', ['plot.py'],
     ['spherical_function', 'sh_coeffs', 'sh_coeffs_subplot', 'sh_rms_map',
      'hull', 'doa', 'freq_resp', 'hrirs_ild_itd'],
     'TLC checks the design (decorating the current axes, wrapping the '
     'caller\'s array and shared defaults are refuted), enumerates all '
     'histories of 3 and 4 steps, and validates sampled ones executed with '
     'every plot function; bounded to the registered argument sets.',
     'TLC state exploration, TLC-generated drawing sessions, trace validation')
