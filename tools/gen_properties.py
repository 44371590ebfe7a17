#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is its output)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=['spaudiopy/' + f for f in files],
                          mechanism=[dict(name=n, where='spaudiopy/' + w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where='spaudiopy/' + w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)

# ---------------------------------------------------------------- claimed
p('C01', 'Panning and All-Round decoding do not depend on parallel execution',
  'For every source set, loudspeaker setup and option, VBAP, VBIP, AllRAP(2) and AllRAD(2) return the same gains and '
  'signals whatever number of jobs is requested (including "use all CPUs"), whatever the machine\'s CPU count and '
  'process start method, and however the operating system schedules the workers. The parallel result equals the '
  'sequential one to floating-point rounding, with one gain row per source in source order.',
  ['schedules', 'inputs', 'configurations'],
  'every worker interleaving, chunking, CPU count and start method; every setup (flat, irregular, with imaginary '
  'loudspeakers), source set (any size, including sources no triangle covers), norm, valid_simplices and retain_outside',
  'tests/test_parallel.py compares one setup with one job count on whatever schedule the machine happened to produce; '
  'no interleaving, start method, CPU count or source that no loudspeaker triplet covers is ever forced.',
  ['decoder.py'],
  [('shared gain matrix written row-wise by pool workers', 'decoder.py:_vbap_gains_single_source'),
   ('pool creation and argument iterator', 'decoder.py:vbap'),
   ('shared array allocation and per-process initialisation', 'decoder.py:_create_shared_array,_init_shared_array')],
  [('shared_array', 'module-global view of the shared gain matrix inside a worker', 'decoder.py:shared_array')],
  ['return values of vbap/vbip/allrap/allrap2/allrad/allrad2'])
p('C02', 'Pseudo-intensity directions do not depend on parallel execution',
  'The direction-of-arrival estimate of a B-format signal is the same array, sample for sample, for every number of '
  'jobs, CPU count, start method and worker schedule, and for every analysis window it fills exactly the samples that '
  'the sequential computation fills.',
  ['schedules', 'inputs', 'configurations'],
  'every interleaving, chunking, CPU count, start method, signal length, block length and band limit',
  'tests/test_parallel.py runs one 10k-sample-type signal with one window and one job count under one arbitrary '
  'schedule of the host.',
  ['parsa.py'],
  [('per-sample worker writing one row of a shared array', 'parsa.py:_intensity_sample'),
   ('window loop and pool', 'parsa.py:pseudo_intensity')],
  [('shared_array', 'shared intensity matrix', 'parsa.py:shared_array')],
  ['return value of pseudo_intensity'])
p('C03', 'Parallel BSDM rendering counts every contribution exactly once',
  'The binaural SDM impulse response rendered with any number of jobs equals the sequential overlap-add of every '
  'pressure sample with its head-related impulse response: no contribution is lost, doubled, misplaced or put in the '
  'wrong ear. This holds for every worker schedule, CPU count and process start method.',
  ['schedules', 'inputs', 'configurations'],
  'every interleaving of overlapping read-modify-write accumulations by any number of workers, under fork, spawn and '
  'forkserver, for every input length and HRIR set',
  'tests/test_parallel.py renders once under fork on the host scheduler; an unprotected accumulation loses updates only '
  'under rare interleavings, and other start methods are never tried.',
  ['parsa.py'],
  [('lock around the shared accumulation', 'parsa.py:_render_bsdm_sample'),
   ('lock hand-over to workers', 'parsa.py:_init_shared_array'),
   ('pool and reshaping of the shared result', 'parsa.py:render_bsdm')],
  [('lock', 'mutual exclusion for the accumulation', 'parsa.py:lock')],
  ['return value of render_bsdm'])
p('C04', 'Parallel HRIR resampling keeps every direction and ear in place',
  'Resampling a set of head-related impulse responses gives, for every direction and ear, the resampling of that very '
  'response at its own position with the matching new sampling rate, identically for every number of jobs, CPU count, '
  'start method and worker schedule. Requesting the rate the set already has returns equal data.',
  ['schedules', 'inputs', 'configurations'],
  'every completion order of the resampling tasks, chunking, CPU count, start method, direction count and rate pair',
  'tests/test_parallel.py uses one set and one rate pair; completion order of the tasks is never controlled.',
  ['process.py'],
  [('pool with ordered results and ear split', 'process.py:resample_hrirs')], None,
  ['return value of resample_hrirs'])
p('C05', 'SSR BRIR files hold the right response for every angle and ear',
  'A written SSR BRIR file has 720 channels in which channel 2a is the left and 2a+1 the right ear response of head '
  'orientation a degrees, at the given sampling rate, with one common normalisation only if the peak exceeds one. The '
  'file is the same for every job count, CPU count, start method and worker schedule, for loudspeaker and SDM input, '
  'and a call that reports success has written it completely.',
  ['schedules', 'inputs', 'configurations', 'fault_sequences'],
  'every completion order of the 360 rendering tasks, job count, setup, HRIR set, file format, and every failure while '
  'the file is written',
  'no test writes a BRIR file; ordering of the parallel results and write failures are never exercised.',
  ['io.py', 'decoder.py', 'parsa.py'],
  [('pooled rendering and channel interleaving', 'io.py:write_ssr_brirs_loudspeaker'),
   ('rotated SDM rendering', 'io.py:write_ssr_brirs_sdm'),
   ('audio writing', 'io.py:save_audio')], None,
  ['the written WAV file'])
p('C06', 'A parallel call that cannot run as asked never returns wrong numbers',
  'When a worker process cannot be started, shared memory or a lock cannot be allocated, a task raises, or a '
  'nonsensical job count (zero or negative) is given, every function taking a job count raises an error or still returns the '
  'right data, never incomplete or zero data, leaves no worker running, and gives the right answer when called again. A '
  'worker that dies mid-way never makes a call return a wrong result, and without such deaths every call finishes.',
  ['fault_sequences', 'schedules', 'crash_points', 'configurations'],
  'every combination of failing process start, allocation, task and worker death at any point of any schedule',
  'no test injects a failure into the worker pool.',
  ['decoder.py', 'parsa.py', 'process.py', 'io.py'],
  [('pool context manager (termination on every path)', 'decoder.py:vbap'),
   ('pool context manager', 'parsa.py:pseudo_intensity,render_bsdm'),
   ('job count validation', 'process.py:resample_hrirs'),
   ('job count validation', 'io.py:write_ssr_brirs_loudspeaker')], None,
  ['return value or exception of every function taking jobs_count', 'set of live workers after the call'])
p('C07', 'Loudspeaker setup answers depend only on its current configuration',
  'Panning, decoding, characteristic order, the Ambisonic setup and binauralisation of a loudspeaker setup depend only '
  'on its current configuration (positions, triangulation, exponent, Ambisonic hull) and the arguments, never on which '
  'queries were made before, with which options, on copies made of it, or on queries that failed. Repeating a '
  'configuration step with the same arguments changes nothing further, and a configuration step interrupted by an error and '
  'then repeated leads to the same setup as if it had not been interrupted.',
  ['histories', 'fault_sequences', 'inputs'],
  'every sequence of triangulation edits, Ambisonic setups, queries with explicit simplices, copies and failed calls',
  'tests/test_algo.py and tests/test_parallel.py build a fresh setup per test and query it once; a stale cached vector base needs a '
  'query, then an edit, then another query.',
  ['decoder.py'],
  [('inverse vector base cached on the setup', 'decoder.py:vbap'),
   ('triangle pruning', 'decoder.py:LoudspeakerSetup.pop_triangles'),
   ('Ambisonic and kernel hulls', 'decoder.py:LoudspeakerSetup.ambisonics_setup'),
   ('shallow copy of the setup', 'decoder.py:characteristic_ambisonic_order')],
  [('inverted_vbase', 'cached inverse loudspeaker triplets', 'decoder.py:LoudspeakerSetup.inverted_vbase'),
   ('valid_simplices', 'triangles used for rendering', 'decoder.py:LoudspeakerSetup.valid_simplices'),
   ('ambisonics_hull, kernel_hull', 'derived setups', 'decoder.py:LoudspeakerSetup')],
  ['return values of all decoders and setup methods'])
p('C08', 'Concurrent callers get the results they would get alone',
  'When several threads of one program call the library at the same time, also on the same setups, HRIR sets, signals '
  'and input arrays as long as nobody modifies those, every call returns what it returns when it runs alone.',
  ['schedules', 'programs', 'inputs'],
  'every interleaving, down to single bytecode instructions, of any two or three public calls',
  'no test starts a thread.',
  ['decoder.py', 'sph.py', 'sig.py', 'parsa.py', 'process.py', 'grids.py', 'io.py', 'utils.py'],
  [('no shared mutable module state outside worker processes', 'decoder.py:vbap'),
   ('cache on the setup object', 'decoder.py:LoudspeakerSetup.inverted_vbase'),
   ('module globals used by workers only', 'parsa.py:shared_array')],
  [('shared_array / lock', 'module globals', 'parsa.py, decoder.py')],
  ['return values of concurrent calls'])
p('C09', 'Calls leave the caller\'s data alone, even when they fail',
  'No library function, constructor or query changes the arrays, lists, dictionaries, signals, HRIR sets or loudspeaker '
  'setups it is given (methods documented to update their own object excepted), whether it returns or fails at any '
  'point. Repeating the same call with the same arguments gives the same result, even after the caller has overwritten '
  'the previously returned arrays.',
  ['inputs', 'histories', 'fault_sequences'],
  'every public call, argument shape, memory layout and dtype, and a failure injected at any point inside the call',
  'tests pass freshly built arguments and never look at them again.',
  ['decoder.py', 'sph.py', 'sig.py', 'parsa.py', 'process.py', 'grids.py', 'utils.py', 'plot.py', 'io.py'],
  [('array coercion without copy', 'utils.py:asarray_1d'),
   ('listener offset', 'decoder.py:LoudspeakerSetup.__init__'),
   ('in-place clean-up of NaN and phases', 'parsa.py, process.py, sph.py')], None,
  ['the argument objects before and after each call'])
p('C10', 'Signal objects stay coherent through every history of operations',
  'After any history of trimming, convolving, resampling, applying functions, copying, converting and assigning on mono, '
  'multichannel, B-format and HRIR objects, the channels, lengths, sampling rate and B-format components agree with '
  'a direct computation on plain arrays; copies stay independent. An operation that raises leaves the object as it was.',
  ['histories', 'inputs', 'fault_sequences'],
  'every sequence of operations on up to a few objects, any channel count including one, any rates, with failures '
  'injected into the convolution, resampling and file reading they rely on',
  'the suite performs no operation on a signal object beyond building it; a component going stale after an earlier operation '
  'or a half-done failure is not visible to it.',
  ['sig.py', 'process.py', 'sph.py'],
  [('channel list and derived accessors', 'sig.py:MultiSignal'),
   ('W/X/Y/Z components', 'sig.py:AmbiBSignal'),
   ('HRIR update', 'sig.py:HRIRs'), ('resampling', 'process.py:resample_signal')],
  [('channels', 'list of mono signals', 'sig.py:MultiSignal.channels')],
  ['all public accessors after every operation'])
p('C11', 'Audio files round-trip and failed saves are reported',
  'Signals saved to an audio file and loaded back have the same channels in the same order, the same sampling rate and '
  'the same samples within the resolution of the chosen sample format, also when several files are combined, whatever '
  'else was loaded or saved before. A sampling-rate conflict is rejected; if the file cannot be written completely the '
  'save raises, and if a file cannot be opened the load raises and returns nothing.',
  ['histories', 'fault_sequences', 'inputs'],
  'every history of saves and loads over several files, formats and channel counts, with open and write failures (full '
  'disk, I/O error, no descriptors, missing directory) at any point',
  'the suite never writes or reads an audio file through the library.',
  ['io.py', 'sig.py'],
  [('save path and type dispatch', 'io.py:save_audio'), ('load, channel splitting, rate checks', 'io.py:load_audio'),
   ('constructors from file', 'sig.py:MonoSignal.from_file,MultiSignal.from_file')], None,
  ['file contents', 'returned signals', 'exceptions'])
p('C12', 'Saved loudspeaker layouts load back complete or not at all',
  'A layout saved to JSON and loaded again has the same real loudspeakers in the same order with positions within the '
  'stored resolution, their gains, and the same imaginary loudspeakers, at whatever time it is saved. Loading a file '
  'left behind by an interrupted save yields the complete new or old layout or an error, never a partial layout, and a '
  'save that fails because the layout cannot be stored leaves an existing file untouched.',
  ['crash_points', 'fault_sequences', 'histories', 'inputs'],
  'every layout with any placement of imaginary loudspeakers and gain type, every write failure, short write or process '
  'crash point during the save, any clock',
  'the suite neither saves nor loads a layout.',
  ['io.py', 'decoder.py'],
  [('JSON serialisation', 'io.py:save_layout'), ('JSON parsing and hull rebuilding', 'io.py:load_layout')], None,
  ['the JSON file', 'the loaded LoudspeakerSetup'])
p('C13', 'The default HRIR cache is never wrong and always recovers',
  'Asking for the default HRIRs returns the correct set for the requested sampling rate or raises, however many '
  'processes ask at once and however earlier generations were interrupted by a crash, a failed download or a disk error. '
  'Once such faults stop, the next request succeeds without manual clean-up.',
  ['crash_points', 'fault_sequences', 'schedules', 'histories'],
  'every interleaving of concurrent requests at 44.1, 48 and 96 kHz, every crash point and disk or network failure '
  'during download, extraction, resampling and the three cache writes',
  'the suite needs no default HRIRs; there is no network and no crash injection in it.',
  ['io.py', 'process.py'],
  [('download and extraction', 'io.py:get_default_hrirs'), ('cache file writing', 'io.py:get_default_hrirs'),
   ('cache lookup and fallback', 'io.py:load_hrirs')],
  [('HRIRs_default_*.mat', 'on-disk cache', 'io.py:get_default_hrirs')],
  ['return value or exception of load_hrirs', 'cache files'])
p('C14', 'Grid loaders return exactly the requested design or an error',
  'For every degree the bundled grid loaders return exactly the bundled design of that degree, or of the next defined '
  'higher degree if it is not defined (with a warning), with its quadrature weights on the documented scale. A missing or '
  'unreadable grid file raises and never yields another design, a later call succeeds, and no earlier caller\'s changes '
  'to returned arrays are visible in later results.',
  ['inputs', 'fault_sequences', 'histories', 'schedules'],
  'all degrees of all five loaders, any sequence of calls by several threads, any open or read failure, callers writing '
  'into the arrays they received',
  'the suite loads a handful of t-designs with no fault and never modifies a result.',
  ['grids.py'],
  [('mat-file lookup with fallback to the next degree', 'grids.py:load_n_design,load_lebedev,load_maxDet'),
   ('direct lookup', 'grids.py:load_t_design,load_Fliege_Maier_nodes')], None,
  ['returned vectors and weights'])
p('C15', 'Measurement files load exactly or not at all',
  'SDM, HRIR and SOFA (spherical coordinates) files load into exactly the stored responses, directions and sampling rate (missing SDM directions '
  'replaced only on request), for both supported naming schemes. A missing, truncated or unreadable file, a file without '
  'one of the needed entries or with another sampling rate than asked for raises, the file is closed again on every path, and the next load is correct.',
  ['inputs', 'fault_sequences', 'histories'],
  'every stored data set, load sequence, truncation point, missing entry and open/read failure',
  'the suite loads no SDM or SOFA file, and injects no I/O failure.',
  ['io.py'],
  [('SDM loading', 'io.py:load_sdm'), ('HRIR loading', 'io.py:load_hrirs'),
   ('SOFA loading', 'io.py:load_sofa_data,load_sofa_hrirs,sofa_to_sh')], None,
  ['returned arrays', 'exceptions', 'open file handles'])
p('C16', 'Playback sends exactly the signal, at its rate, and waits when asked',
  'Playing a signal delivers gain times its samples, channels in order, at its sampling rate to the audio device exactly '
  'once. With waiting on, the call returns only when the playback has finished, and with waiting off it returns at once; '
  'a device error reaches the caller and leaves the signal unchanged and playable again.',
  ['histories', 'fault_sequences', 'schedules'],
  'every sequence of plays (mono, multichannel, B-format) with gains and waiting modes, on slow, busy or failing devices',
  'there is no audio device in a test environment; play is never called by a test.',
  ['sig.py'],
  [('play', 'sig.py:MonoSignal.play,MultiSignal.play')], None,
  ['frames received by the device', 'virtual time at return'])
p('C17', 'The package imports and works without optional parts of its environment',
  'Importing the package succeeds and all computations work when git is missing, cannot be started, fails or prints '
  'rubbish, and when no audio back end can be loaded or initialised. Only playback is then unavailable (it raises), and '
  'the reported version is always a string.',
  ['fault_sequences', 'configurations'],
  'every failure of the git subprocess and the audio back end at import time, in any combination',
  'the suite imports the package in the one environment it runs in.',
  ['__init__.py', 'sig.py'],
  [('git version lookup', '__init__.py'), ('optional audio back end', 'sig.py')], None,
  ['import outcome', '__version__', 'results of computations afterwards'])
p('C18', 'Results depend on the arguments and nothing else',
  'Every function documented as a computation returns the same values whatever the state of the global random generator, '
  'the clock, the CPU count, the working directory, the hash seed, the contents of fresh memory and the calls made '
  'before, and it does not advance the global random generator or leave global numeric settings changed.',
  ['configurations', 'histories', 'inputs'],
  'every public computation under every simulated environment and after any history of other calls',
  'the suite runs each call once, in one process environment, in one order.',
  ['decoder.py', 'sph.py', 'sig.py', 'parsa.py', 'process.py', 'grids.py', 'utils.py', 'plot.py', 'io.py'],
  [('seed-free computations', 'sph.py, process.py, decoder.py, grids.py'),
   ('accumulators initialised before use', 'sph.py, parsa.py, process.py')], None,
  ['return values', 'global random state and numeric settings before and after'])
p('C19', 'Noise test signals have the documented structure for every random stream',
  'Pulsed noise consists of exactly the requested number of bursts and pauses with the requested durations, faded and '
  'normalised as documented, silent in the pauses, for white and pink noise and every random stream. The same state of '
  'the random generator gives the same signal, and different states give different noise.',
  ['inputs', 'configurations', 'histories'],
  'every state of the random generator, duration, pause, fade, repetition count, rate and normalisation',
  'no test calls the generator; even if one did it would see one random stream.',
  ['process.py'],
  [('noise synthesis', 'process.py:pulsed_noise')], None,
  ['the returned signal'])

# ------------------------------------------------------- not applicable
def na(id, title, statement, files, mech, over=('inputs',), text='every input'):
    p(id, title, statement, list(over), text,
      'tests sample a handful of orders, grids and signals; the statement is for every input', files, mech)
na('C20', 'Spherical harmonics are orthonormal',
   'The real and complex spherical harmonics matrices are orthonormal under exact quadrature for every order and grid.',
   ['sph.py'], [('SH matrix', 'sph.py:sh_matrix')])
na('C21', 'Spherical harmonic transform and its inverse are inverse operations',
   'An order-limited function sampled on a sufficient grid is recovered exactly by transform and inverse transform.',
   ['sph.py'], [('transforms', 'sph.py:sht,inverse_sht,sht_lstsq')])
na('C22', 'SH rotation rotates the sound field and keeps its energy',
   'Rotating coefficients equals encoding the rotated directions, is orthogonal, and composes.',
   ['sph.py'], [('rotation matrices', 'sph.py:sh_rotation_matrix,rotate_sh')])
na('C23', 'Ambisonic format conversions are exact and invertible',
   'Conversions between N3D and SN3D, B-format and SH channels and real and complex coefficients invert each other.',
   ['sph.py'], [('conversions', 'sph.py:n3d_to_sn3d,sn3d_to_n3d,b_to_sh,sh_to_b,sh_to_cplx..')])
na('C24', 'Panning gains are non-negative, normalised and point at the source',
   'VBAP and VBIP gains are non-negative, have unit norm where a triangle covers the source, use at most three '
   'loudspeakers and reproduce the source direction.', ['decoder.py'], [('panning', 'decoder.py:vbap,vbip')])
na('C25', 'Ambisonic decoders preserve amplitude or energy as documented',
   'SAD, MAD, EPAD, NearestLoudspeaker, AllRAD and AllRAD2 decode panned sources as documented, and AllRAD applied to an encoded source equals '
   'AllRAP.', ['decoder.py'], [('decoders', 'decoder.py:sad,mad,epad,nearest_loudspeaker,allrad,allrad2')])
na('C26', 'Filter banks reconstruct perfectly',
   'The SH filter banks and the fractional octave filter bank sum to the documented amplitude or energy response.',
   ['sph.py', 'process.py'], [('filter banks', 'sph.py:design_sph_filterbank; process.py:frac_octave_filterbank')])
na('C27', 'Binaural rendering is linear and time-invariant',
   'Binauralisation and decoding are linear in the signals and shift with them.',
   ['decoder.py'], [('binauralisation', 'decoder.py:LoudspeakerSetup.binauralize,sh2bin')])
na('C28', 'Quadrature grids integrate their degree exactly',
   'Gauss, equal-angle, t-design, Lebedev, Fliege-Maier and maximum-determinant grids integrate polynomials of their '
   'degree exactly.', ['grids.py'], [('grids', 'grids.py')])
na('C29', 'Coordinate conversions invert each other',
   'Cartesian/spherical, degree/radian and decibel conversions are inverse to each other over their whole range.',
   ['utils.py'], [('conversions', 'utils.py')])
na('C30', 'Parametric estimators find ideal sources',
   'DOA, pseudo-intensity, MUSIC-type spectra, separation and post-filters behave as documented on ideal plane waves.',
   ['parsa.py'], [('estimators', 'parsa.py')])
na('C31', 'SDM post equalisation restores the reference spectrum',
   'Post-equalised loudspeaker signals have the short-time magnitude spectrum of the reference pressure.',
   ['parsa.py'], [('post equalisation', 'parsa.py:post_equalization,post_equalization2')])
na('C32', 'HRTF processing keeps magnitude and delay as documented',
   'MagLS, common transfer function, ITD and ILD computations equal their definitions for every HRIR set.',
   ['process.py', 'decoder.py'], [('HRTF processing', 'process.py; decoder.py:magls_bin')])
na('C33', 'The convex hull encloses the listener with outward normals',
   'Triangulations of a loudspeaker setup are closed, consistently oriented, and pruning removes exactly the faces over '
   'the given limits.', ['decoder.py'], [('hull', 'decoder.py:get_hull,check_*')])
na('C34', 'Plots show the data they are given',
   'Every plotting function draws exactly the values passed, on the labelled axes.', ['plot.py'], [('plots', 'plot.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
print(len(P))
