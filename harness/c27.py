"""C27: point-spread functions."""
import cmath
import itertools
import math
from engine.common import H
from .util import simul_params, step, rejects
from .zoo import efield

BOUNDS = ('pupils of 1x1 to 3x3 pixels with arbitrary phases and amplitudes (dark pixels included), images of 1x1 to 6x6 pixels; up to 4 steps with an '
          'arbitrary start time; every pupil size, pitch, wavelength and pixel size within an instrument-like range for the image geometry')
OUTSIDE = 'non-square pupils (rejected by the code); larger images (the FFT of the array library is encoded by the definition of the transform)'
ASSUMPTIONS = ['numpy.fft.fft2 is encoded by the definition of the discrete Fourier transform', 'cos and sin obey the addition theorems',
               'pupil illumination does not change during the run (the reference image is taken at the first step)']
NS = 10 ** 9


def dft(c, A, ph, w):
    """|sum of A exp(i ph) exp(-2 pi i k.x / w)|^2 with frequency zero at pixel w//2"""
    n, m = A.shape
    co = [[A[i, j] * c.cos(ph[i, j]) for j in range(m)] for i in range(n)]
    si = [[A[i, j] * c.sin(ph[i, j]) for j in range(m)] for i in range(n)]
    out = []
    for u in range(w):
        row = []
        for v in range(w):
            re, im = 0, 0
            for i in range(n):
                for j in range(m):
                    e = cmath.exp(-2j * math.pi * (i * (u - w // 2) + j * (v - w // 2)) / w)
                    re = re + co[i][j] * e.real - si[i][j] * e.imag
                    im = im + si[i][j] * e.real + co[i][j] * e.imag
            row.append(re * re + im * im)
        out.append(row)
    return c.xp.array(out)


def h_image(c, n=2, w=4, normalize=False, nocenter=False):
    from specula.lib.calc_psf import calc_psf
    A, ph = c.arr('A', (n, n), 0, 2), c.arr('P', (n, n), -3, 3)
    keep = A.copy(), ph.copy()
    if normalize:
        c.assume(A[0, 0] >= 0.1)
    r, tot = calc_psf(ph, A, imwidth=w if w != n else None, normalize=normalize, nocenter=nocenter, return_total=True, xp=c.xp,
                      complex_dtype=c.xp.complex128)
    e = dft(c, A, ph, w)
    if nocenter:
        s = [(i + w // 2) % w for i in range(w)]
        e = e[s][:, s]
    c.check(r.shape == (w, w), 'shape of the image')
    t = w * w * (A * A).sum()
    c.close(tot, t, 'total light is that of the pupil', 1e-3)
    c.close(r * tot if normalize else r, e, 'squared modulus of the transform, origin at the centre', 1e-3)
    c.equal(A, keep[0], 'the amplitude is left alone')
    c.equal(ph, keep[1], 'the phase is left alone')


def h_norm(c, n=2, w=4):
    from specula.lib.calc_psf import calc_psf
    A, ph = c.arr('A', (n, n), 0, 2), c.arr('P', (n, n), -3, 3)
    c.assume(A[0, 0] >= 0.1)
    r = calc_psf(ph, A, imwidth=w, normalize=True, xp=c.xp, complex_dtype=c.xp.complex128)
    c.close(r.sum(), 1.0, 'a normalised image sums to one', 1e-4)
    if n > 1:
        return
    r2 = calc_psf(ph, A, imwidth=w, xp=c.xp, complex_dtype=c.xp.complex128)
    for i in range(w):
        for j in range(w):
            c.check(r2[i, j] >= -1e-6, 'no negative light')


def psf(c, n=2, nd=2, start=0.0, pitch=1.0, wl=1000.0, **k):
    from specula.processing_objects.psf import PSF
    o = PSF(simul_params(pixel_pupil=n, pixel_pitch=pitch), wavelengthInNm=wl, nd=nd, start_time=start, verbose=False, target_device_idx=-1,
            precision=0, **k)
    f = efield(c, 'f', n, lo=-2000, hi=2000)
    o.inputs['in_ef'].set(f)
    return o, f


def show(o, f, t):
    f.generation_time = t
    step([o], t)


def h_object(c, n=2, nd=2, wl=1000.0):
    """image and Strehl ratio of one step"""
    w = int(n * nd)
    o, f = psf(c, n, nd, wl=wl)
    c.assume(f.A[0, 0] >= 0.1)
    o.setup()
    keep = f.A.copy(), f.phaseInNm.copy()
    show(o, f, 5)
    ph = f.phaseInNm * (2 * math.pi / wl)
    e, t = dft(c, f.A, ph, w), w * w * (f.A * f.A).sum()
    q, sr = o.outputs['out_psf'], o.outputs['out_sr']
    c.check(q.value.shape == (w, w), 'shape of the image')
    c.close(q.value * t, e, 'the image is that of the phase at its wavelength', 1e-3)
    s = f.A.sum()
    c.close(sr.value * s * s, e[w // 2, w // 2], 'Strehl ratio: the central pixel against that of a flat phase', 1e-3)
    c.check(q.generation_time == 5 and sr.generation_time == 5, 'marked as of this step')
    c.equal(f.A, keep[0], 'the amplitude is left alone')
    c.equal(f.phaseInNm, keep[1], 'the phase is left alone')


def h_limits(c, n=2, nd=2):
    """the Strehl ratio: one when flat, whatever the level, and never more"""
    o, f = psf(c, n, nd)
    c.assume(f.A[0, 0] >= 0.1)
    k = c.real('level', -2000, 2000)
    o.setup()
    P = f.phaseInNm.copy()
    P[0, 0] = P[0, 0] * 0.0
    f.phaseInNm = k + 0.0 * P
    show(o, f, 1)
    c.close(o.outputs['out_sr'].value, 1.0, 'a flat wavefront has Strehl ratio one', 1e-4)
    c.close(o.outputs['out_psf'].value, dft(c, f.A, 0.0 * P, o.out_size[0]) / (o.out_size[0] ** 2 * (f.A * f.A).sum()), 'image of a flat phase', 1e-4)


def h_max(c, n=2):
    o, f = psf(c, n, 1)
    c.assume(f.A[0, 0] >= 0.1)
    o.setup()
    show(o, f, 1)
    if c.symbolic:
        # sum over pairs a_i a_j (1 - cos(p_i - p_j)) >= 0: each pair is proved, then used
        ph = f.phaseInNm * (2 * math.pi / 1000.0)
        px = [(f.A[i, j], c.cos(ph[i, j]), c.sin(ph[i, j])) for i in range(n) for j in range(n)]
        for (a, p, q), (b, r, s) in itertools.combinations(px, 2):
            c.check(p * r + q * s <= 1 + 1e-9, 'two unit vectors')
            d = 1 - p * r - q * s
            c.assume(a * b * d >= -1e-9)
    s = f.A.sum()
    c.check(o.outputs['out_sr'].value * s * s <= s * s + 1e-4, 'the Strehl ratio never exceeds one')


def h_piston(c, n=2, nd=2):
    """a constant added to the phase changes nothing"""
    from specula.lib.calc_psf import calc_psf
    w = n * nd
    A, ph = c.arr('A', (n, n), 0, 2), c.arr('P', (n, n), -3, 3)
    k = c.real('piston', -3, 3)
    if c.symbolic:
        for x in ph.ravel():
            c.assume(c.cos(x + k) == c.cos(x) * c.cos(k) - c.sin(x) * c.sin(k))
            c.assume(c.sin(x + k) == c.sin(x) * c.cos(k) + c.cos(x) * c.sin(k))
    a = calc_psf(ph, A, imwidth=w, xp=c.xp, complex_dtype=c.xp.complex128)
    b = calc_psf(ph + k, A, imwidth=w, xp=c.xp, complex_dtype=c.xp.complex128)
    c.close(a, b, 'a uniform change of phase leaves the image unchanged', 1e-3)


def h_average(c, steps=3, n=1, nd=2, dt=1.0, profile=False):
    """time averages over exactly the steps from the start time on"""
    start = c.real('start', -1, steps + 1)
    o, f = psf(c, n, nd, start=start, compute_profile_metrics=profile)
    for a in f.A.ravel():
        c.assume(a >= 0.1)
    o.setup()
    w = o.out_size[0]
    seen = []
    for s in range(steps):
        # any image at all: the averages must not depend on where it came from
        f.phaseInNm = c.arr(f'P{s}', (n, n), -2000, 2000)
        show(o, f, s * NS)
        if c.decide(s * dt >= start):
            seen.append((o.psf.value.copy(), o.sr.value))
    o.finalize()
    k = len(seen)
    P, S, D = o.outputs['out_int_psf'], o.outputs['out_int_sr'], o.outputs['out_std_psf']
    c.check(P.value.shape == (w, w) and D.value.shape == (w, w), 'shapes')
    for x in (P, S, D):
        c.check(x.generation_time == (steps - 1) * NS, 'marked as of the last step')
    if not k:
        c.equal(P.value, 0 * P.value, 'no step yet: no image')
        c.equal(S.value, 0, 'no step yet: no Strehl ratio')
        return
    m = sum(p for p, _ in seen) / k
    c.close(P.value, m, 'average image', 1e-4)
    c.close(S.value, sum(s for _, s in seen) / k, 'average Strehl ratio', 1e-4)
    v = sum((p - m) ** 2 for p, _ in seen) / k
    for i in range(w):
        for j in range(w):
            c.check(D.value[i, j] >= 0, 'a standard deviation is not negative')
            c.close(D.value[i, j] ** 2, v[i, j], 'standard deviation around the average image', 1e-4)


def h_arbitrary(c, steps=3):
    """the averages for arbitrary images: the transform is replaced"""
    from specula.processing_objects import psf as mod
    start = c.real('start', -1, steps + 1)
    o, f = psf(c, 1, 2, start=start)
    o.setup()
    imgs = [c.arr(f'I{s}', (2, 2), 0, 1) for s in range(steps)]
    ref = c.arr('R', (2, 2), 0, 1)
    c.assume(ref[1, 1] >= 0.1)
    cur = {}

    def calc(phase, amp, imwidth=None, return_total=False, **k):
        return (cur['i'].copy(), 1.0) if return_total else ref.copy()
    old, mod.calc_psf = mod.calc_psf, calc
    try:
        seen = []
        for s in range(steps):
            cur['i'] = imgs[s]
            show(o, f, s * NS)
            c.equal(o.outputs['out_psf'].value, imgs[s], 'the image of this step')
            c.close(o.outputs['out_sr'].value * ref[1, 1], imgs[s][1, 1], 'Strehl ratio at the centre pixel', 1e-5)
            if c.decide(s >= start):
                seen.append(imgs[s])
        o.finalize()
    finally:
        mod.calc_psf = old
    P, S, D = o.outputs['out_int_psf'].value, o.outputs['out_int_sr'].value, o.outputs['out_std_psf'].value
    if not seen:
        c.equal(P, 0 * ref, 'no step yet: no image')
        return
    k = len(seen)
    m = sum(seen) / k
    c.close(P, m, 'average image', 1e-5)
    c.close(S * ref[1, 1], m[1, 1], 'average Strehl ratio', 1e-4)
    v = sum((p - m) ** 2 for p in seen) / k
    for i in range(2):
        for j in range(2):
            c.check(D[i, j] >= 0, 'a standard deviation is not negative')
            c.close(D[i, j] ** 2, v[i, j], 'standard deviation around the average image', 1e-4)


def h_geometry(c, n=4):
    from specula.lib.calc_psf import calc_psf_geometry
    pitch, wl = c.real('pitch', 0.01, 1), c.real('wl', 300, 10000)
    mas = wl * 1e-9 / (n * pitch) * (180 * 3600 * 1000 / math.pi)
    g = calc_psf_geometry(n, pitch, wl)
    c.check(g.nd == 1, 'without request: one pixel per lambda/D')
    c.close(g.pixel_size_mas, mas, 'lambda/D', 1e-3)
    nd = c.real('nd', 0.5, 10)
    g = calc_psf_geometry(n, pitch, wl, nd=nd)
    c.equal(g.nd, nd, 'the requested sampling')
    c.close(g.pixel_size_mas * nd, mas, 'pixels per lambda/D', 1e-3)
    c.check(rejects(lambda: calc_psf_geometry(n, pitch, wl, nd=2.0, pixel_size_mas=1.0), ValueError), 'two requests are rejected')


def h_sampling(c, n=4, lo=1.0, hi=3.0):
    """a requested pixel size: the nearest one with a whole number of pixels"""
    from specula.lib.calc_psf import calc_psf_geometry
    from .util import quiet
    pitch, wl = 0.1, 1000.0
    mas = wl * 1e-9 / (n * pitch) * (180 * 3600 * 1000 / math.pi)
    k = c.real('sampling', lo, hi)
    ask = mas / k
    with quiet():
        g = calc_psf_geometry(n, pitch, wl, pixel_size_mas=ask)
    size = g.nd * n
    r = c.pickint('size', int(lo * n) - 1, int(hi * n) + 1)
    if c.decide(c.And(size > r - 1e-6, size < r + 1e-6)):
        c.close(g.pixel_size_mas * size, mas * n, 'pixels per lambda/D', 1e-2)
        for o in (r - 1, r + 1):
            if o > 0:
                c.check(c.abs(mas * n / r - ask) <= c.abs(mas * n / o - ask) + 1e-6, 'no other whole size comes nearer')
    c.check(size >= 0.999, 'at least one pixel')
    c.close(size, c.floor(size + 0.5), 'a whole number of pixels', 1e-6)


def h_reject(c):
    w = c.real('wl', -10, 0)
    c.check(rejects(lambda: psf(c, wl=w), ValueError), 'a wavelength that is not positive is rejected')
    from specula.lib.calc_psf import calc_psf_geometry
    c.check(rejects(lambda: calc_psf_geometry(4, 0.1, 1000.0, pixel_size_mas=c.real('big', 600, 1000)), ValueError), 'pixels larger than lambda/D are rejected')


def harnesses(tier):
    r = []
    T = tier == 'thorough'
    for n, w in [(1, 1), (1, 2), (2, 2), (2, 3), (2, 4), (3, 4)] + ([(2, 5), (2, 6), (3, 6)] if T else []):
        r.append(H(f'image n={n} w={w}', h_image, n=n, w=w, budget=90, assert_timeout=20000))
    for n, w in [(2, 4), (2, 3)]:
        r.append(H(f'image uncentred n={n} w={w}', h_image, n=n, w=w, nocenter=True, budget=90))
        r.append(H(f'image normalised n={n} w={w}', h_image, n=n, w=w, normalize=True, budget=90))
    for n, w in [(1, 2), (2, 2), (2, 4)]:
        r.append(H(f'sums to one n={n} w={w}', h_norm, n=n, w=w, budget=90))
    for n, nd, wl in [(1, 2, 1000.0), (2, 1, 500.0), (2, 2, 1000.0)] + ([(2, 3, 2200.0), (3, 1, 750.0)] if T else []):
        r.append(H(f'object n={n} nd={nd} wl={wl}', h_object, n=n, nd=nd, wl=wl, budget=120))
    for n, nd in [(1, 2), (2, 1), (2, 2)]:
        r.append(H(f'flat n={n} nd={nd}', h_limits, n=n, nd=nd, budget=90))
    r.append(H('Strehl at most one', h_max, n=2, budget=120, assert_timeout=30000))
    for n, nd in [(1, 2), (2, 1), (2, 2)]:
        r.append(H(f'piston n={n} nd={nd}', h_piston, n=n, nd=nd, budget=90))
    r.append(H('averages of arbitrary images', h_arbitrary, steps=3, budget=120))
    if T:
        r.append(H('averages of arbitrary images, 5 steps', h_arbitrary, steps=5, budget=240))
    r.append(H('averages of real images', h_average, steps=2, n=1, nd=2, budget=90))
    r.append(H('image geometry', h_geometry, budget=60))
    r.append(H('image geometry n=7', h_geometry, n=7, budget=60))
    r.append(H('requested pixel size', h_sampling, budget=90))
    r.append(H('requests that make no sense', h_reject))
    return r
