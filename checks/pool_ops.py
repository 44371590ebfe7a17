"""The functions that take a job count, with small workloads and their sequential results."""
import os
from .common import *
from simkit import fs as simfs

NAMES = ['vbap', 'vbip', 'allrap', 'allrap2', 'allrad', 'allrad2', 'pseudo_intensity', 'render_bsdm', 'resample_hrirs',
         'write_ssr_brirs_loudspeaker']


def hull_of(spa, rng, ambi=False):
    pts = setup_points(rng)
    h = spa.decoder.LoudspeakerSetup(*[c.copy() for c in pts.T])
    if ambi:
        h.ambisonics_setup(update_hull=True, imaginary_ls=[[0, 0, -1.4]], N_kernel=2, characteristic_order=1)
    return h


def workload(spa, name, seed, n):
    """-> f(jobs) that makes the call on one set of objects and returns plain results."""
    rng = rng_of(seed)
    if name in ('vbap', 'vbip', 'allrap', 'allrap2'):
        h = hull_of(spa, rng, name.startswith('all'))
        src = sphere_points(rng, 10 + n)
        return lambda jobs: plain(getattr(spa.decoder, name)(src, h, jobs_count=jobs))
    if name in ('allrad', 'allrad2'):
        h = hull_of(spa, rng, True)
        F = rng.normal(size=(4, n + 1))
        return lambda jobs: plain(getattr(spa.decoder, name)(F, h, jobs_count=jobs))
    if name == 'pseudo_intensity':
        b = spa.sig.AmbiBSignal(list(rng.normal(size=(4, 6 + n))), fs=44100)
        return lambda jobs: plain(spa.parsa.pseudo_intensity(b, win_len=3, smoothing_order=0, jobs_count=jobs))
    h = hrir_data(rng, 5, 3 if name != 'resample_hrirs' else 16)
    hr = spa.sig.HRIRs(h['left'], h['right'], h['azi'], h['zen'], 44100)
    if name == 'render_bsdm':
        azi, zen = to_sph(sphere_points(rng, n + 2))
        p = rng.normal(size=n + 2)
        return lambda jobs: plain(spa.parsa.render_bsdm(p, azi, zen, hr, jobs_count=jobs))
    if name == 'resample_hrirs':
        return lambda jobs: plain(spa.process.resample_hrirs(hr.left, hr.right, 44100, 48000, jobs_count=jobs)[:2])
    ls = hull_of(spa, rng)
    irs = rng.normal(size=(ls.npoints, 2))
    path = os.path.join(simfs.scratch(), 'out.wav')

    def brirs(jobs):
        import soundfile as sf
        spa.io.write_ssr_brirs_loudspeaker(path, irs, ls, 44100, hrirs=hr, jobs_count=jobs)
        s = S.ACTIVE
        on = s.faults.enabled
        s.faults.enabled = False
        try:
            return sf.read(path)[0]
        finally:
            s.faults.enabled = on
    return brirs
