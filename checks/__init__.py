"""Registry of the checks: what they do, how much they run, what is real and what is simulated."""

STUB_MP = ['multiprocessing (pools, processes, shared arrays, locks; simulated processes with separate module images)',
           'thread and process scheduler']
REAL = ['spaudiopy (unmodified source from /repo)', 'numpy', 'scipy']
ASSUME_MP = ['a real process pool behaves like the simulated one: chunks are handed to any worker in submission order, '
             'results and exceptions are pickled, shared memory is sequentially consistent at the granularity of array '
             'reads and writes',
             'statements that do not touch shared memory, locks, pools or files are atomic unless line tracing is on']

REGISTRY = {}


def reg(cid, technique, note, runs, rule, real=(), stub=(), assume=()):
    REGISTRY[cid] = dict(technique=technique, note=note, runs=dict(quick=runs[0], thorough=runs[1]), rule=rule,
                         real=REAL + list(real), stub=list(stub), assume=list(assume))


reg('C03', 'seeded schedules of the worker pool over split shared-memory accumulations, compared with an overlap-add '
    'reference', 'Sampled schedules; signals up to 25 samples and HRIR sets up to 9 directions, 1-6 workers.',
    (6000, 150000), 'distinct (scenario, schedule) pairs with more than one sample and more than two context switches',
    stub=STUB_MP, assume=ASSUME_MP)
reg('C01', 'seeded schedules of the worker pool behind vbap/vbip/allrap(2)/allrad(2), compared with the sequential '
    'computation and with single-source calls', 'Sampled setups of 5-15 loudspeakers, up to 43 sources, 1-7 workers.',
    (5000, 120000), 'distinct (scenario, schedule) pairs in which a pool ran and more than two context switches happened',
    stub=STUB_MP, assume=ASSUME_MP)
reg('C02', 'seeded schedules of the worker pool behind pseudo_intensity, compared with the sequential computation',
    'Sampled signals up to 75 samples, six window lengths, 1-6 workers.', (6000, 150000),
    'distinct (scenario, schedule) pairs with at least two window positions and more than two context switches',
    stub=STUB_MP, assume=ASSUME_MP)
reg('C04', 'seeded schedules of the resampling pool, compared row by row with the resampler itself',
    'Sampled sets up to 34 directions, 1-6 workers.', (3600, 90000),
    'distinct (scenario, schedule) pairs with more than one direction and more than two context switches',
    real=['resampy'], stub=STUB_MP, assume=ASSUME_MP)
STUB_FS = ['disk below the scratch directory (real files, operations are fault and crash sites)']
reg('C05', 'seeded schedules of the rendering pool and failing disk, processes and allocations; the written file is '
    'compared with an independent binaural model for all 720 channels', 'Sampled responses up to 8 samples, 3-12 HRIR '
    'directions, 5-15 loudspeakers, 1-5 workers, one fault per run.', (330, 8000),
    'distinct (scenario, faults, schedule) with a worker pool, a fired fault or SDM input',
    real=['soundfile/libsndfile'], stub=STUB_MP + STUB_FS, assume=ASSUME_MP + [
        'libsndfile reports a failing write() to its caller as a short count'])
reg('C06', 'failing process starts, allocations, tasks, killed workers and bad job counts injected into every function '
    'with a job count under seeded schedules', 'Sampled small workloads of ten functions, up to two faults per run.',
    (1600, 40000), 'distinct (scenario, faults, schedule) with a fired fault or a job count below one',
    real=['resampy', 'soundfile/libsndfile'], stub=STUB_MP + STUB_FS, assume=ASSUME_MP)
REAL_FS = ['disk below the scratch directory (real files, operations are fault and crash sites)']
reg('C07', 'seeded histories of configuration steps, queries, copies and injected failures on loudspeaker setups, compared '
    'with a fresh setup of the same configuration in another process image', 'Sampled histories of up to 11 operations '
    'on up to 3 setups of 6-14 loudspeakers; one injected failure per run.', (2400, 60000),
    'distinct (scenario, faults, schedule) with a configuration step and more than one query', stub=STUB_MP + STUB_FS,
    assume=['a fresh setup built by the same configuration steps without queries defines the right answer'])
reg('C09', 'every public call of a catalogue on arguments of many memory layouts, with failures injected at any line, file '
    'operation, task or process start; the arguments are compared bit for bit afterwards and the call is repeated after '
    'overwriting its results', 'Sampled catalogue calls (about 170 functions and methods), layouts, special values and failure '
    'points.', (6000, 120000), 'distinct (scenario, faults) in which the call returned or was made to fail',
    real=['resampy', 'soundfile/libsndfile', 'matplotlib'], stub=STUB_MP + STUB_FS,
    assume=['constructors and coercions that keep the array they are given are not counted as changing it'])
reg('C08', 'seeded interleavings, line by line and bytecode by bytecode, of two or three threads calling the library on the same '
    'objects, with a failing neighbour in some; compared with each call alone in another process image',
    'Sampled catalogue calls on small inputs; two or three threads with one or two calls each.', (2400, 60000),
    'distinct (scenario, faults, schedule) in which at least two calls were in progress at the same time',
    real=['resampy'], stub=STUB_MP + STUB_FS, assume=['numpy and scipy calls are atomic with respect to other threads '
                                                     '(preemption at Python lines and bytecodes of the package)'])
reg('C10', 'seeded histories of operations on signal objects with failing convolution, resampling, user functions and files, '
    'compared after every step with a plain-array model', 'Sampled histories of up to 9 operations on up to 5 objects with 1-4 '
    'channels, up to two injected failures per run.', (8000, 200000),
    'distinct (scenario, faults) with more than one operation that changed an object', real=['resampy', 'soundfile/libsndfile'],
    stub=STUB_MP + STUB_FS + ['failure points in front of scipy.signal.convolve, resampy.resample and numpy.convolve'],
    assume=['resampy.resample and numpy.convolve define the right samples'])
reg('C11', 'seeded histories of audio saves and loads by one or two threads on a failing disk, compared with a model of the files; '
    'every file reported as saved is read back independently', 'Sampled histories of up to 8 operations per thread on four files, '
    'up to 9 channels and 5000 samples, up to two faults and disks of bounded size.', (8000, 240000),
    'distinct (scenario, faults, schedule) in which at least one load returned a signal', real=['soundfile/libsndfile'],
    stub=STUB_MP + STUB_FS, assume=['libsndfile reports a failing write() to its caller as a short count',
                                   'rewriting a file header in place at close needs no space'])
reg('C12', 'seeded histories of layout saves and loads by crashing processes on failing disks with concurrent readers and '
    'jumping clocks; every load must give one complete saved layout', 'Sampled layouts of 6-40 loudspeakers with up to three '
    'imaginary ones, histories of up to 6 operations, up to two faults or crashes per run.', (600, 14000),
    'distinct (scenario, faults, schedule) in which at least one load returned a layout', stub=STUB_MP + STUB_FS,
    assume=['a crash ends the process, not the operating system: what write() accepted is kept'])
reg('C13', 'seeded requests for the default HRIRs by one to three processes at once over several rounds, with crashes at file '
    'operations, failing downloads and failing or full disks; every set returned is compared with its definition, and requests '
    'after the last fault must succeed', 'Sampled histories of up to 3 rounds of 3 processes, up to three faults; measurement files '
    'of low order (4-16 coefficients) in archives of several layouts.', (400, 12000),
    'distinct (scenario, faults, schedule) in which a set was returned or a fault hit', real=['resampy', 'zipfile'],
    stub=STUB_MP + STUB_FS + ['download (requests.get)'],
    assume=['a crash ends the process, not the operating system: what write() accepted is kept'])
reg('C14', 'seeded histories of grid loads by up to three threads with failing, missing and damaged grid files and callers writing '
    'into their results; compared with an independent reading of the bundled files', 'Sampled histories of up to ten loads over '
    'all degrees (also outside the range), up to two faults.', (2400, 60000),
    'distinct (scenario, faults, schedule) in which at least one design was returned', stub=STUB_MP + STUB_FS,
    assume=['scipy.io.loadmat reads an intact file correctly', 'the maximum determinant file, which is not shipped, has one '
            'variable maxDet_NNN per degree'])
reg('C15', 'seeded histories of SDM, HRIR and SOFA loads from intact, damaged, incomplete and failing files, compared with what was '
    'stored; open file handles counted while the exception is still held', 'Sampled histories of up to 8 operations on three files, '
    'up to two faults; small data sets (2-300 directions).', (4000, 100000),
    'distinct (scenario, faults) in which at least one load returned data', stub=STUB_MP + STUB_FS, real=['h5py/HDF5'],
    assume=['scipy.io and h5py read an intact file correctly', 'damage that a format without checksums cannot show (changed bytes) '
            'is not claimed'])
reg('C16', 'seeded histories of playback on a simulated device with virtual time: busy, slow, refusing and interrupted; frames, rate, '
    'channel order and waiting time compared with the signal', 'Sampled histories of up to 7 operations on three signals of up to 16 '
    'channels, up to two faults.', (6000, 150000), 'distinct (scenario, faults) in which at least one signal was played',
    stub=['sounddevice/PortAudio'] + STUB_FS, assume=['the device reads the array handed to sounddevice.play while it plays'])
reg('C17', 'seeded states of git and of the audio back end at import (failing in every phase, printing rubbish), followed by catalogue '
    'calls, saves and playback; compared with the same calls in a healthy environment', 'Sampled environments (16 states of git, 14 '
    'outputs, 15 states of the audio back end) with up to five calls each, also in worker processes importing the package.',
    (2400, 60000), 'distinct scenarios in which git or the audio back end was not in order', real=['resampy'],
    stub=['git', 'sounddevice/PortAudio'] + STUB_MP + STUB_FS,
    assume=['a git that never ends is not claimed', 'numpy, scipy, soundfile, h5py, resampy and matplotlib are not optional'])
reg('C18', 'seeded states of the global random generators, clock, CPU count, working directory, error handling and fresh memory, and '
    'histories of earlier (also failing) calls in front of a catalogue call; compared with the same call made alone by another '
    'interpreter with another hash seed', 'Sampled calls of a catalogue of about 150 computations on small inputs, up to three calls '
    'before.', (6000, 120000), 'distinct (scenario, faults) in which the call returned a result', real=['resampy'],
    stub=STUB_MP + STUB_FS + ['numpy.empty and empty_like called by the package return poisoned memory'],
    assume=['file contents and what is passed in count as arguments'])
reg('C19', 'seeded states and scripted streams of the random generator under histories of noise requests, also from two threads and with '
    'injected failures; structure, level, fades and colour checked against relations between variants on the same stream',
    'Sampled durations up to 720 samples per burst, up to 10 bursts, nine rates, 14 kinds of stream, one injected failure.', (6000, 150000),
    'distinct (scenario, faults, schedule) in which a signal was returned', stub=['random streams (scripted in some runs)', 'thread scheduler'],
    assume=['the fades are squared sines and the pink spectrum is white noise divided by the square root of the bin number, as now'])
