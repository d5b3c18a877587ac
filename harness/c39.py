"""C39: coronagraphs."""
import cmath
import contextlib
import io
import math
from engine.common import H
from .c27 import dft, NS
from .util import simul_params, step, rejects
from .zoo import efield

BOUNDS = ('pupils of 2x2 to 4x4 pixels with arbitrary phases and amplitudes in one to four of the pixels (all of them with 2x2 pixels), focal planes of 4x4 to 12x12 pixels; Lyot masks with '
          'inner and outer working angles, knife edges, four quadrants with any delay of a list, vortices of charge 1 to 4 with an inner vortex, apodised '
          'pupils; pupil stops; up to 4 steps of the perfect coronagraph with an arbitrary start time')
OUTSIDE = ('fields interpolated before the coronagraph; the convergence of the apodiser search (the phase plate is taken as computed); larger pupils '
           '(the FFT of the array library is encoded by the definition of the transform)')
ASSUMPTIONS = ['numpy.fft.fft2 and ifft2 are encoded by the definition of the discrete Fourier transform', 'cos and sin obey the addition theorems',
               'the coronagraph receives light']
WL = 500.0


def mean(x):
    return sum(x[1:], x[0]) / len(x)


def quietly(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def beam(c, n, phases, amps, name='f', lit=0.0):
    f = efield(c, name, n, lo=-200, hi=200, alo=lit, ahi=2.0, pitch=0.05)
    A, P = f.A.copy(), f.phaseInNm.copy()
    for i in range(n):
        for j in range(n):
            if amps is not None and (i, j) not in amps:
                A[i, j] = 0.0 * A[i, j] + (1.0 if (i + j) % 3 else 0.5)
            if phases is not None and (i, j) not in phases:
                P[i, j] = 0.0 * P[i, j] + 30.0 * ((7 * i + 3 * j) % 5)
    f.A, f.phaseInNm = A, P
    f.S0 = c.real(name + 'S0', 0.5, 500)
    return f


def make(c, kind, n, **k):
    from specula.processing_objects import lyot_coronagraph, four_quadrant_coronagraph, vortex_coronagraph
    cls = {'lyot': lyot_coronagraph.LyotCoronagraph, 'quad': four_quadrant_coronagraph.FourQuadrantCoronagraph,
           'vortex': vortex_coronagraph.VortexCoronagraph}[kind]
    return quietly(cls, simul_params(pixel_pupil=n, pixel_pitch=0.05), wavelengthInNm=WL, target_device_idx=-1, precision=0, **k)


# ---- what the masks should be, from the position (x, y) in lambda/D of a focal plane pixel

def lyot(x, y, iwaInLambdaOverD, owaInLambdaOverD=None, knife_edge=False, half=None, **k):
    if knife_edge:
        return float(x >= iwaInLambdaOverD)
    r = math.hypot(x, y)
    return float(iwaInLambdaOverD <= r < (half if owaInLambdaOverD is None else owaInLambdaOverD))


def quad(x, y, phase_delay=math.pi, **k):
    return cmath.exp(1j * phase_delay) if (x > 0) != (y > 0) else 1.0


def vortex(x, y, vortexCharge, addInVortex=False, inVortexRadInLambdaOverD=None, inVortexCharge=None, inVortexShift=None, **k):
    th = math.atan2(y, x) % (2 * math.pi)
    if addInVortex and math.hypot(x, y) <= (0.6 if inVortexRadInLambdaOverD is None else inVortexRadInLambdaOverD):
        q = vortexCharge if inVortexCharge is None else inVortexCharge
        return cmath.exp(1j * (q * th + (math.pi if inVortexShift is None else inVortexShift)))
    return cmath.exp(1j * vortexCharge * th)


MASK = {'lyot': lyot, 'quad': quad, 'vortex': vortex}
CENTRE = {'lyot': 0.5, 'quad': 0.5, 'vortex': 0.0}


def stop(n, innerStopAsRatioOfPupil=0.0, outerStopAsRatioOfPupil=1.0, **k):
    g = lambda i, j: math.hypot(i - (n - 1) / 2, j - (n - 1) / 2) / (n / 2)
    return [[float(innerStopAsRatioOfPupil <= g(i, j) < outerStopAsRatioOfPupil) for j in range(n)] for i in range(n)]


def kernel(kind, n, fft_res, **k):
    """contribution of a unit field to the field after the focal plane mask, as a function of the distance"""
    N = int(round(n * fft_res / 2)) * 2
    lod, h = N / n, CENTRE[kind]                       # pixels per lambda/D; offset of the axis
    out = {}
    for di in range(-n + 1, n):
        for dj in range(-n + 1, n):
            s = 0
            for u in range(N):
                for v in range(N):
                    fy, fx = u - N // 2 + h, v - N // 2 + h
                    s += MASK[kind](fx / lod, fy / lod, half=N / 2 / lod, **k) * cmath.exp(2j * math.pi * (fy * di + fx * dj) / N)
            s /= N * N
            out[di, dj] = complex(round(s.real, 14), round(s.imag, 14))
    return out


def parts(c, f):
    ph = f.phaseInNm * (2 * math.pi / WL)
    n = f.A.shape[0]
    return [[(f.A[i, j] * c.cos(ph[i, j]), f.A[i, j] * c.sin(ph[i, j])) for j in range(n)] for i in range(n)]


def expected(c, f, kind, fft_res=2.0, **k):
    n = f.A.shape[0]
    z, K, st = parts(c, f), kernel(kind, n, fft_res, **k), stop(n, **k)
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            re = im = 0
            for a in range(n):
                for b in range(n):
                    q = K[i - a, j - b]
                    re = re + z[a][b][0] * q.real - z[a][b][1] * q.imag
                    im = im + z[a][b][1] * q.real + z[a][b][0] * q.imag
            row.append((re * st[i][j], im * st[i][j]))
        out.append(row)
    return out


def see(o, f, t=1, setup=True):
    if setup:
        o.inputs['in_ef'].set(f)
        quietly(o.setup)
    f.generation_time = t
    step([o], t)
    return o.outputs['out_ef']


def judge(c, o, f, g, e, t, tol=1e-6):
    n = f.A.shape[0]
    c.check(g.A.shape == (n, n) and g.phaseInNm.shape == (n, n), 'shape of the field')
    got = parts(c, g)
    c.close(c.xp.array([[x[0] for x in r] for r in got]), c.xp.array([[x[0] for x in r] for r in e]), 'field after the masks (real part)', tol)
    c.close(c.xp.array([[x[1] for x in r] for r in got]), c.xp.array([[x[1] for x in r] for r in e]), 'field after the masks (imaginary part)', tol)
    tot, left = (f.A * f.A).sum(), 0
    for r in e:
        for x in r:
            left = left + x[0] * x[0] + x[1] * x[1]
    c.close(g.S0 / f.S0 * tot, left, 'the flux is scaled by the fraction of light transmitted', tol * 10)
    c.check(g.generation_time == t, 'marked as of this step')


def h_field(c, kind, n=4, phases=(), amps=(), steps=1, **k):
    """the whole chain: focal plane mask and pupil stop"""
    o = make(c, kind, n, **{'fft_res': 2.0, **k})
    f = beam(c, n, list(phases), list(amps))
    keep = f.A.copy(), f.phaseInNm.copy()
    for t in range(1, steps + 1):
        g = see(o, f, t, t == 1)
        judge(c, o, f, g, expected(c, f, kind, **k), t)
        c.equal(f.A, keep[0], 'the amplitude received is left alone')
        c.equal(f.phaseInNm, keep[1], 'the phase received is left alone')
        if t < steps:
            f2 = beam(c, n, list(phases), list(amps), name=f'f{t}')
            f.A, f.phaseInNm, f.S0 = f2.A, f2.phaseInNm, f2.S0
            keep = f.A.copy(), f.phaseInNm.copy()


def h_pass(c, kind, n=4, phases=((0, 1), (1, 1)), amps=((0, 2),), **k):
    """a coronagraph that removes nothing gives back what it receives"""
    o = make(c, kind, n, fft_res=2.0, outerStopAsRatioOfPupil=2.0, **k)
    f = beam(c, n, list(phases), list(amps))
    g = see(o, f)
    a, b = parts(c, f), parts(c, g)
    for p, q in zip(sum(a, []), sum(b, [])):
        c.close(q[0], p[0], 'the field comes back (real part)', 1e-6)
        c.close(q[1], p[1], 'the field comes back (imaginary part)', 1e-6)
    c.close(g.S0, f.S0, 'all the light comes back', 1e-6)


def h_loss(c, kind, n=2, amps=((0, 0), (0, 1)), **k):
    """never more light than received"""
    o = make(c, kind, n, **{'fft_res': 2.0, **k})
    f = beam(c, n, [], list(amps))
    g = see(o, f)
    c.check(g.S0 <= f.S0 * (1 + 1e-6), 'never more light than received')
    c.check(g.S0 >= -1e-9, 'never less than none')


def h_level(c, kind, n=2, phases=(), amps=((0, 1), (1, 1)), **k):
    """proportional to the field received, piston included"""
    o = make(c, kind, n, **{'fft_res': 2.0, **k})
    f = beam(c, n, list(phases), list(amps))
    s, p = c.real('scale', 0.2, 5), c.real('piston', -200, 200)
    g = see(o, f)
    a, s0 = parts(c, g), g.S0
    f.A, f.phaseInNm = f.A * s, f.phaseInNm + p
    g = see(o, f, 2, setup=False)
    b = parts(c, g)
    co, si = c.cos(p * (2 * math.pi / WL)), c.sin(p * (2 * math.pi / WL))
    for x, y in zip(sum(a, []), sum(b, [])):
        c.close(y[0], s * (x[0] * co - x[1] * si), 'a brighter field comes out brighter by as much (real part)', 1e-6)
        c.close(y[1], s * (x[1] * co + x[0] * si), 'a brighter field comes out brighter by as much (imaginary part)', 1e-6)
    c.close(g.S0, s0, 'the transmission does not depend on the level', 1e-6)


# ---- apodised pupils

def app(c, n=4, cls='APPCoronagraph', pupil=None, **k):
    from specula.processing_objects import apodizer_coronagraph as m
    import numpy as np
    pup = c.const(pupil if pupil is not None else [[float(x) for x in r] for r in stop(n)])
    kw = dict(contrastInDarkHole=0.05, iwaInLambdaOverD=0.5, owaInLambdaOverD=1.5, fft_res=2.0)
    kw.update(k)
    return quietly(getattr(m, cls), simul_params(pixel_pupil=n, pixel_pitch=0.05), wavelengthInNm=WL, pupil=pup, target_device_idx=-1, precision=0, **kw), pup


def h_plate(c, n=4, phases=((0, 1),), amps=((1, 1),), lo=0.5, hi=1.5, res=2.0, sym=False):
    """an apodised pupil only changes phases, and makes the dark hole where it is asked"""
    o, pup = app(c, n, iwaInLambdaOverD=lo, owaInLambdaOverD=hi, fft_res=res, make_symmetric=sym)
    N = int(round(n * res / 2)) * 2
    lod = N / n
    for u in range(N):
        for v in range(N):
            y, x = (u - N // 2 + 0.5) / lod, (v - N // 2 + 0.5) / lod
            hole = lo <= math.hypot(x, y) < hi and (sym or x >= lo)
            c.close(o.target_contrast[u, v], 0.05 if hole else 1.0, 'the dark hole is where it is asked', 1e-9)
    f = beam(c, n, list(phases), list(amps), lit=0.5)
    f.A = f.A * pup
    g = see(o, f)
    b = parts(c, g)
    c.close(g.A, f.A, 'the amplitude is left as it is', 1e-6)
    c.close(g.S0, f.S0, 'no light is lost', 1e-6)
    # the same phase plate whatever the field
    d = see(o, flat(c, n, pup), 2).phaseInNm * (2 * math.pi / WL)
    a = parts(c, f)
    for i in range(n):
        for j in range(n):
            if float(pup[i, j]):
                co, si = c.cos(d[i, j]), c.sin(d[i, j])
                p, q = a[i][j], b[i][j]
                c.close(q[0], p[0] * co - p[1] * si, 'the phase plate is added to the phase (real part)', 1e-6)
                c.close(q[1], p[1] * co + p[0] * si, 'the phase plate is added to the phase (imaginary part)', 1e-6)


def flat(c, n, pup):
    f = beam(c, n, [], [], name='flat')
    f.A, f.phaseInNm = pup * 1.0, pup * 0.0
    return f


def h_papl(c, n=4, **k):
    """apodiser, focal plane mask and pupil stop of a PAPL coronagraph"""
    o, pup = app(c, n, 'PAPLCoronagraph', **k)
    st = stop(n, **k)
    f = beam(c, n, [(1, 1)], [(1, 2)], lit=0.5)
    f.A = f.A * pup
    p, _ = app(c, n)
    z = parts(c, see(p, f))
    knife = k.get('knife_edge', True)
    K = kernel('lyot', n, 2.0, iwaInLambdaOverD=k['fpmIWAInLambdaOverD'], owaInLambdaOverD=k.get('fpmOWAInLambdaOverD'), knife_edge=knife)
    g = see(o, f)
    got = parts(c, g)
    for i in range(n):
        for j in range(n):
            re = im = 0
            for a in range(n):
                for b in range(n):
                    q = K[i - a, j - b]
                    re = re + z[a][b][0] * q.real - z[a][b][1] * q.imag
                    im = im + z[a][b][1] * q.real + z[a][b][0] * q.imag
            c.close(got[i][j][0], re * st[i][j], 'apodised, masked and stopped field (real part)', 1e-6)
            c.close(got[i][j][1], im * st[i][j], 'apodised, masked and stopped field (imaginary part)', 1e-6)


def h_reject(c):
    for kind, k in (('lyot', dict(iwaInLambdaOverD=1.0)), ('quad', {}), ('vortex', dict(vortexCharge=2))):
        for i, o in ((-0.1, 1.0), (0.9, 0.5), (0.0, -1.0)):
            c.check(rejects(lambda: make(c, kind, 4, innerStopAsRatioOfPupil=i, outerStopAsRatioOfPupil=o, **k), ValueError), 'impossible pupil stops are rejected')
    c.check(rejects(lambda: make(c, 'lyot', 4, iwaInLambdaOverD=1.0, owaInLambdaOverD=2.0, knife_edge=True), ValueError), 'a knife edge has no outer angle')
    c.check(rejects(lambda: make(c, 'vortex', 4, vortexCharge=2, inVortexCharge=1), ValueError), 'inner vortex parameters without an inner vortex')
    c.check(rejects(lambda: app(c, beta=1.5), ValueError), 'beta between 0 and 1')


# ---- the perfect coronagraph

def perfect(c, n=2, nd=2, start=0.0, avg=True, **k):
    from specula.processing_objects.psf_coronagraph import PsfCoronagraph
    o = PsfCoronagraph(simul_params(pixel_pupil=n, pixel_pitch=0.05), wavelengthInNm=WL, nd=nd, start_time=start, use_average_field=avg, verbose=False,
                       target_device_idx=-1, precision=0, **k)
    return o


def look(o, f, t):
    f.generation_time = t
    step([o], t)
    return o.outputs['out_coronagraph_psf']


def residual(c, f, avg=True):
    """amplitude and phase of the field after a perfect coronagraph"""
    n = f.A.shape[0]
    lit = [(i, j) for i in range(n) for j in range(n) if c.decide(f.A[i, j] > 0)]
    z = parts(c, f)
    if avg:
        re, im = (sum(z[i][j][q] for i, j in lit) / len(lit) for q in (0, 1))
        return [[(z[i][j][0] - re, z[i][j][1] - im) if (i, j) in lit else z[i][j] for j in range(n)] for i in range(n)]
    ph = f.phaseInNm * (2 * math.pi / WL)
    m = sum(ph[i, j] for i, j in lit) / len(lit)
    v = sum((ph[i, j] - m) ** 2 for i, j in lit) / len(lit)
    s = c.sqrt(c.exp(-v))
    re, im = s * c.cos(m), s * c.sin(m)
    return [[(z[i][j][0] - re * f.A[i, j], z[i][j][1] - im * f.A[i, j]) for j in range(n)] for i in range(n)]


def transform(c, z, w):
    n = len(z)
    out = []
    for u in range(w):
        row = []
        for v in range(w):
            re = im = 0
            for i in range(n):
                for j in range(n):
                    e = cmath.exp(-2j * math.pi * (i * (u - w // 2) + j * (v - w // 2)) / w)
                    re = re + z[i][j][0] * e.real - z[i][j][1] * e.imag
                    im = im + z[i][j][0] * e.imag + z[i][j][1] * e.real
            row.append(re * re + im * im)
        out.append(row)
    return c.xp.array(out)


def h_perfect(c, n=2, nd=2, avg=True, phases=None, amps=(), dark=()):
    o = perfect(c, n, nd, avg=avg)
    f = beam(c, n, phases, list(amps), lit=0.5)
    for i, j in dark:
        f.A[i, j] = 0.0 * f.A[i, j]
    o.inputs['in_ef'].set(f)
    o.setup()
    keep = f.A.copy(), f.phaseInNm.copy()
    q = look(o, f, 7)
    w = int(n * nd)
    t = w * w * (f.A * f.A).sum()
    c.close(q.value * t, transform(c, residual(c, f, avg), w), 'image of what is left when the coherent part is removed', 1e-5)
    c.check(q.generation_time == 7, 'marked as of this step')
    ph = f.phaseInNm * (2 * math.pi / WL)
    c.close(o.outputs['out_psf'].value * t, dft(c, f.A, ph, w), 'and the image without it', 1e-5)
    c.equal(f.A, keep[0], 'the amplitude is left alone')
    c.equal(f.phaseInNm, keep[1], 'the phase is left alone')


def h_dark(c, n=2, nd=2, avg=True, dark=()):
    """a flat wavefront leaves nothing, whatever its level and piston"""
    o = perfect(c, n, nd, avg=avg)
    f = beam(c, n, [], [], lit=0.5)
    a, p = c.real('a', 0.3, 3), c.real('p', -400, 400)
    f.A, f.phaseInNm = 0.0 * f.A + a, 0.0 * f.phaseInNm + p
    for i, j in dark:
        f.A[i, j] = 0.0 * a
    o.inputs['in_ef'].set(f)
    o.setup()
    c.close(look(o, f, 1).value, 0.0, 'a flat wavefront leaves nothing', 1e-7)


def h_average(c, steps=3, start=None):
    """mean and deviation over the steps from the start time on"""
    n = 2
    s = c.real('start', 0.0, 4.0) if start is None else start
    o = perfect(c, n, 1, start=s)
    f = beam(c, n, [(0, 1)], [])
    o.inputs['in_ef'].set(f)
    o.setup()
    seen = []
    for t in range(1, steps + 1):
        if t > 1:
            P = f.phaseInNm.copy()
            P[0, 1] = c.real(f'p{t}', -200, 200)
            f.phaseInNm = P
        v = look(o, f, t * NS).value.copy()
        if c.decide(t >= s):
            seen.append(v)
    o.finalize()
    i, d = o.outputs['out_int_coronagraph_psf'], o.outputs['out_std_coronagraph_psf']
    c.check(i.generation_time == steps * NS and d.generation_time == steps * NS, 'marked as of the last step')
    if not seen:
        c.close(i.value, 0.0, 'nothing before the start time', 1e-12)
        return
    m = mean(seen)
    c.close(i.value, m, 'mean of the images', 1e-6)


def h_deviation(c, steps=3):
    """mean and deviation of arbitrary images: the transform is replaced"""
    s = c.real('start', 0.0, steps + 1)
    o = perfect(c, 1, 2, start=s)
    if not hasattr(type(o), 'calc_coronagraph_psf'):
        return
    f = beam(c, 1, [], [], lit=0.5)
    o.inputs['in_ef'].set(f)
    imgs = [c.arr(f'I{t}', (2, 2), 0, 1) for t in range(steps)]
    o.calc_coronagraph_psf = lambda *a, **k: imgs[now].copy()
    now = 0
    o.setup()
    seen = []
    for now in range(steps):
        c.equal(look(o, f, (now + 1) * NS).value, imgs[now], 'the image of this step')
        if c.decide(now + 1 >= s):
            seen.append(imgs[now])
    o.finalize()
    i, d = o.outputs['out_int_coronagraph_psf'], o.outputs['out_std_coronagraph_psf']
    if not seen:
        c.close(i.value, 0.0, 'nothing before the start time', 1e-12)
        return
    m = mean(seen)
    c.close(i.value, m, 'mean of the images', 1e-6)
    v = mean([(x - m) * (x - m) for x in seen])
    for x, y in zip(d.value.ravel(), v.ravel()):
        c.check(x >= 0, 'a deviation is not negative')
        c.close(x * x, y, 'deviation of the images', 1e-5)


def harnesses(tier):
    hs = []
    add = lambda name, fn, **k: hs.append(H(name, fn, **k))
    one = dict(phases=((0, 1), (2, 1)), amps=((1, 1),))
    add('lyot', h_field, kind='lyot', iwaInLambdaOverD=1.0, **one)
    add('lyot with an outer angle', h_field, kind='lyot', iwaInLambdaOverD=0.5, owaInLambdaOverD=1.8, **one)
    add('lyot with stops', h_field, kind='lyot', iwaInLambdaOverD=0.6, innerStopAsRatioOfPupil=0.5, outerStopAsRatioOfPupil=0.9, **one)
    add('knife edge', h_field, kind='lyot', iwaInLambdaOverD=0.6, knife_edge=True, **one)
    add('knife edge on the axis', h_field, kind='lyot', iwaInLambdaOverD=0.0, knife_edge=True, **one)
    add('four quadrants', h_field, kind='quad', **one)
    add('four quadrants, other delay', h_field, kind='quad', phase_delay=1.0, innerStopAsRatioOfPupil=0.4, outerStopAsRatioOfPupil=1.2, **one)
    add('vortex', h_field, kind='vortex', vortexCharge=2, **one)
    add('vortex, charge 1 and stops', h_field, kind='vortex', vortexCharge=1, innerStopAsRatioOfPupil=0.4, outerStopAsRatioOfPupil=1.1, **one)
    add('two vortices', h_field, kind='vortex', vortexCharge=2, addInVortex=True, **one)
    add('two vortices, all given', h_field, kind='vortex', vortexCharge=4, addInVortex=True, inVortexRadInLambdaOverD=1.1, inVortexCharge=1, inVortexShift=0.7, **one)
    add('finer focal plane', h_field, kind='lyot', iwaInLambdaOverD=0.5, owaInLambdaOverD=1.2, fft_res=3.0, **one)
    add('odd pupil', h_field, kind='quad', n=3, phases=((0, 1), (2, 1)), amps=((1, 1),))
    two = dict(phases=((0, 1),), amps=((1, 1),), steps=2, n=2)
    add('lyot twice', h_field, kind='lyot', iwaInLambdaOverD=0.6, **two)
    add('quadrants twice', h_field, kind='quad', **two)
    add('vortex twice', h_field, kind='vortex', vortexCharge=1, **two)
    add('knife edge twice', h_field, kind='lyot', iwaInLambdaOverD=0.2, knife_edge=True, **two)
    al = [(i, j) for i in range(2) for j in range(2)]
    for kind, k in (('lyot', dict(iwaInLambdaOverD=0.4)), ('quad', {}), ('vortex', dict(vortexCharge=1))):
        add(f'{kind}, every pixel', h_field, kind=kind, n=2, phases=al, amps=al[1:], **k)
    add('no delay', h_pass, kind='quad', phase_delay=0.0)
    add('no charge', h_pass, kind='vortex', vortexCharge=0)
    for kind, k in (('lyot', dict(iwaInLambdaOverD=0.4)), ('quad', {}), ('vortex', dict(vortexCharge=2))):
        add(f'loss of {kind}', h_loss, kind=kind, **k)
        add(f'level of {kind}', h_level, kind=kind, outerStopAsRatioOfPupil=2.0, **k)
    add('phase plate', h_plate)
    add('phase plate, finer', h_plate, res=3.0)
    add('phase plate, symmetric', h_plate, sym=True, lo=0.8, hi=1.4)
    add('papl', h_papl, fpmIWAInLambdaOverD=0.3, outerStopAsRatioOfPupil=0.9)
    add('papl with a round mask', h_papl, fpmIWAInLambdaOverD=0.5, fpmOWAInLambdaOverD=1.6, knife_edge=False, innerStopAsRatioOfPupil=0.4)
    add('rejected', h_reject)
    add('perfect', h_perfect)
    add('perfect, amplitudes', h_perfect, phases=[(0, 1)], amps=((1, 0), (1, 1)))
    add('perfect, dark pixel', h_perfect, dark=((0, 0),))
    add('perfect, formula', h_perfect, avg=False, phases=[(0, 1), (1, 1)])
    add('perfect, formula, dark', h_perfect, avg=False, phases=[(0, 1)], amps=((1, 1),), dark=((1, 0),))
    add('nothing left', h_dark)
    add('nothing left, dark pixel', h_dark, dark=((0, 1),), n=3)
    add('nothing left, formula', h_dark, avg=False)
    add('average', h_average)
    add('average, all', h_average, start=0.0, steps=2)
    add('deviation', h_deviation, budget=120)
    if tier != 'quick':
        many = dict(phases=((0, 1), (2, 1), (1, 1), (3, 2)), amps=((1, 1), (2, 2)))
        al = [(i, j) for i in range(4) for j in range(4)]
        add('lyot, everything', h_field, kind='lyot', iwaInLambdaOverD=1.0, budget=300, phases=al[:8], amps=al[3:7])
        add('quadrants, everything', h_field, kind='quad', budget=300, phases=al[:8], amps=al[3:7])
        add('lyot, more', h_field, kind='lyot', iwaInLambdaOverD=1.0, budget=200, **many)
        add('vortex, more', h_field, kind='vortex', vortexCharge=3, budget=200, **many)
        add('quadrants, more', h_field, kind='quad', fft_res=3.0, budget=200, **many)
        add('average, more', h_average, steps=4, budget=200)
    return hs
