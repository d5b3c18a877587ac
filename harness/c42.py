"""C42: interferometer and derivative sensors."""
import cmath
import math
from engine.common import H
from .util import simul_params, step, rejects
from .zoo import efield
from .c35 import flux
from .c40 import detect, same

BOUNDS = ('pupils of 2x2 to 4x4 pixels with arbitrary phases (and amplitudes where nothing is rotated), any tilt and share of the light; rotations by quarter and '
          'eighth turns, shifts, magnifications; interferograms of 3x3 to 5x5 pixels with arbitrary content; subapertures of 2x2 pixels under fully, '
          'partly and not illuminated pupils')
OUTSIDE = ('phase unwrapping; the interpolation and extrapolation of fields themselves (C26); the counts given by the CiaoCiao slope computer beyond the '
           'mean flux of the pupil')
ASSUMPTIONS = ['numpy.fft.fft2 and ifft2 are encoded by the definition of the discrete Fourier transform', 'cos and sin obey the addition theorems',
               'the sensor receives light']
ARC = 3600 * 180 / math.pi
MASKS = {'full': None, 'corner': [[0, 1, 1, 1], [1, 1, 1, 1], [1, 1, 1, 1], [1, 1, 1, 0]], 'half': [[1, 1, 1, 1], [1, 1, 1, 1], [1, 1, 0, 0], [1, 1, 0, 0]],
         'ell': [[1, 1, 0, 0], [1, 1, 1, 1], [1, 1, 1, 1], [0, 0, 1, 1]], 'gray': [[.25, 1, 1, .5], [1, .7, 1, 1], [1, 1, .2, 1], [.4, 1, 1, 1]]}


def field(c, n, free, mask=None, amps=(), pitch=0.1, name='f'):
    """a field with arbitrary phases in the given pixels and fixed ones elsewhere"""
    f = efield(c, name, n, lo=-200, hi=200, alo=0.0, ahi=2.0, pitch=pitch)
    A, P = f.A.copy(), f.phaseInNm.copy()
    m = MASKS.get(mask)
    for i in range(n):
        for j in range(n):
            if (i, j) not in amps:
                A[i, j] = 0.0 * A[i, j] + (m[i][j] if m else 1.0)
            if (i, j) not in free:
                P[i, j] = 0.0 * P[i, j] + 40.0 * ((5 * i + 3 * j) % 4)
    f.A, f.phaseInNm = A, P
    f.S0 = c.real(name + 'S0', 0.5, 500)
    return f


def sensor(c, n=2, px=None, **k):
    from specula.processing_objects.ciao_ciao_sensor import CiaoCiaoSensor
    return CiaoCiaoSensor(500.0, px or n, target_device_idx=-1, precision=0, **k)


def run(o, f, t=1, setup=True, inp='in_ef'):
    if setup:
        o.inputs[inp].set(f)
        o.setup()
    f.generation_time = t
    step([o], t)


def moved(f, rot=0, x=0, y=0, mag=1.0):
    """the field rotated, shifted and magnified by an interpolator of its own"""
    from specula.lib.extrapolation_2d import EFInterpolator
    p = EFInterpolator(f, f.size, rotAnglePhInDeg=rot, xShiftPhInPixel=x, yShiftPhInPixel=y, magnification=mag, target_device_idx=-1, precision=0)
    p.interpolate()
    return p.interpolated_ef()


def fringes(c, one, two, share, tilt, n, pitch, wl=500.0):
    """squared modulus of the sum of both arms"""
    a, b = c.sqrt(2 * share), c.sqrt(2 * (1 - share))
    k = 2 * math.pi / wl
    rows = []
    for i in range(n):
        row = []
        for j in range(n):
            t = ((j - n // 2) * tilt[0] + (i - n // 2) * tilt[1]) * pitch * 1e9 / ARC * k
            p, q = one.phaseInNm[i, j] * k, two.phaseInNm[i, j] * k
            re = a * one.A[i, j] * c.cos(p) + b * two.A[i, j] * (c.cos(q) * c.cos(t) - c.sin(q) * c.sin(t))
            im = a * one.A[i, j] * c.sin(p) + b * two.A[i, j] * (c.sin(q) * c.cos(t) + c.cos(q) * c.sin(t))
            row.append(re * re + im * im)
        rows.append(row)
    return rows


def h_sheared(c, n=2, px=None, free=((0, 0), (1, 0)), amps=(), mask=None, tilt=(0.0, 0.0), share=0.5, norm=True, steps=1, rot=180.0, base={}, diff={}, scalar=False):
    px = px or n
    s = c.real('share', 0, 1) if share is None else share
    tl = [c.real('tilt%d' % d, -0.2, 0.2) if tilt[d] is None else tilt[d] for d in (0, 1)]
    k = dict(rotAnglePhInDeg=base.get('rot', 0.0), xShiftPhInPixel=base.get('x', 0.0), yShiftPhInPixel=base.get('y', 0.0),
             magnification=base.get('mag', 1.0), xShiftDiffPhInPixel=diff.get('x', 0.0), yShiftDiffPhInPixel=diff.get('y', 0.0),
             magnificationDiff=diff.get('mag', 1.0))
    o = sensor(c, n, px, diffRotAngleInDeg=rot, tiltInArcsec=tl[0] if scalar else tuple(tl), channel_flux=s, normalize_flux=norm, **k)
    f = field(c, n, free, mask, amps)
    c.assume(f.A.sum() >= 0.5)
    for t in range(1, steps + 1):
        if t > 1:
            f.phaseInNm = f.phaseInNm + c.xp.array([[7.0 * t * (i - j) * (i + 1) for j in range(n)] for i in range(n)])
        keep = f.A.copy(), f.phaseInNm.copy()
        run(o, f, t, setup=t == 1)
        out = o.outputs['out_i']
        c.check(out.generation_time == t, 'marked as of this step')
        c.equal(f.A, keep[0], 'the amplitude of the input is left alone')
        c.equal(f.phaseInNm, keep[1], 'the phase of the input is left alone')
        one = moved(f, **base)
        e = detect(fringes(c, one, moved(one, rot, **diff), s, tl, n, f.pixel_pitch), px)
        if norm:
            same(c, out.i, e, flux(f), 'interference of the field with its rotated copy')
        else:
            c.check(out.i.shape == (px, px), 'shape of the image')
            for i in range(px):
                for j in range(px):
                    c.close(out.i[i, j], e[i][j], 'interference of the field with its rotated copy, not normalised', 1e-4)


def h_flat(c, n=3, t=None):
    """without any rotation the arms differ by their tilt only"""
    tx = c.real('tx', -0.3, 0.3)
    s = c.real('share', 0, 1)
    o = sensor(c, n, diffRotAngleInDeg=0.0, tiltInArcsec=tx, channel_flux=s, normalize_flux=False)
    f = field(c, n, [(0, 0), (1, 2)], amps=[(1, 1)])
    run(o, f)
    for i in range(n):
        for j in range(n):
            p = c.cos(tx * ((j - n // 2) * 0.1 / ARC * 1e9 * 2 * math.pi / 500.0))
            c.close(o.outputs['out_i'].i[i, j], f.A[i, j] ** 2 * (2 + 2 * c.sqrt(2 * s) * c.sqrt(2 * (1 - s)) * p), 'two beams of the given shares and tilt', 1e-4)


def h_sensor_bad(c, kind='share'):
    if kind == 'share':
        s = c.real('share', -2, 3)
        c.check(c.decide(c.Or(s < 0, s > 1)) == rejects(lambda: sensor(c, channel_flux=s), ValueError), 'shares of the light outside of 0 to 1 are refused')
    elif kind == 'px':
        n = c.pickint('px', -2, 3)
        c.check((n <= 0) == rejects(lambda: sensor(c, channel_flux=0.5, px=n) if n else sensor_px(c, 0), ValueError), 'null or negative sizes are refused')
    elif kind in ('magnification', 'magnificationDiff'):
        m = c.real('mag', -1, 2)
        c.check(c.decide(m < 1e-6) == rejects(lambda: sensor(c, **{kind: m}), ValueError), 'null or negative magnifications are refused')
    elif kind == 'tilt':
        k = c.pickint('len', 1, 4)
        c.check((k != 2) == rejects(lambda: sensor(c, tiltInArcsec=[0.1] * k), ValueError), 'tilts of other than two elements are refused')
    else:
        from specula.data_objects.electric_field import ElectricField
        o = sensor(c)
        o.inputs['in_ef'].set(ElectricField(2, 3, 0.1, target_device_idx=-1))
        c.check(rejects(o.setup, ValueError), 'fields that are not square are refused')


def sensor_px(c, px):
    from specula.processing_objects.ciao_ciao_sensor import CiaoCiaoSensor
    return CiaoCiaoSensor(500.0, px, target_device_idx=-1, precision=0)


# --- CiaoCiao slopes ---------------------------------------------------------------------------

def h_opd(c, n=4, at=(1, 3), sigma=1.0, mask=None, rot=0.0, free=3, wl=None, steps=1, pix=None, null=False, m=None):
    """the phase of the sideband of the interferogram, in units of the wavelength"""
    from specula.processing_objects.ciao_ciao_slopec import CiaoCiaoSlopec
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.pupilstop import Pupilstop
    m = m or n
    w = c.real('wl', 300, 3000) if wl is None else wl
    pup, on = None, [[True] * m for _ in range(n)]
    if mask:
        rows = MASKS[mask]
        pup = Pupilstop(simul_params(pixel_pupil=len(rows)), input_mask=c.xp.array([[float(x) for x in r] for r in rows]), target_device_idx=-1, precision=0)
        on = [[x > 0.5 for x in r] for r in rows]
        if rot:
            f = efield(c, 'mask', n)
            f.A = c.xp.array([[float(x) for x in r] for r in on])
            f.phaseInNm = c.xp.zeros((n, n))
            two = moved(f, rot)
            on = [[on[i][j] and bool(two.A[i, j] > 0.5) for j in range(n)] for i in range(n)]
    k = {}
    if null:
        from specula.data_objects.slopes import Slopes
        k['sn'] = Slopes(slopes=c.arr('sn', n * m, -100, 100), target_device_idx=-1, precision=0)
    o = CiaoCiaoSlopec(w, at[1], at[0], sigma, pup, diffRotAngleInDeg=rot, target_device_idx=-1, precision=0, **k)
    p = Pixels(m, n, target_device_idx=-1, precision=0)
    u0 = [round(at[0]), round(at[1])]
    for t in range(1, steps + 1):
        v = c.arr('v%d' % t, (n, m), 0, 10)
        x = v.copy()
        for q in range(free, n * m):
            x[q // m, q % m] = 0.0 * x[q // m, q % m] + (3 * q % 7 + t)
        p.pixels = x
        run(o, p, t, setup=t == 1, inp='in_pixels')
        s = o.outputs['out_slopes']
        c.check(s.generation_time == t, 'marked as of this step')
        c.check(len(s.slopes) == n * m, 'one value for each pixel')
        # Fourier transform, frequencies counted from the centre of the window
        F = {}
        for u in range(n):
            for q in range(m):
                g = math.exp(-(((u - at[0]) ** 2 + (q - at[1]) ** 2) / (2 * sigma ** 2)) ** 2)
                F[u, q] = [(g * cmath.exp(-2j * math.pi * ((u - n // 2) * i / n + (q - m // 2) * j / m)), i, j) for i in range(n) for j in range(m)]
        lit = [x[i, j] for i in range(n) for j in range(m) if on[i][j]]
        mean = sum(lit) / len(lit)
        c.close(o.outputs['out_flux_per_subaperture'].value[0], mean, 'mean flux of the pupil')
        for i in range(n):
            for j in range(m):
                d = s.slopes[i * m + j]
                if null:
                    d = d + k['sn'].slopes[i * m + j]
                if not on[i][j]:
                    c.close(d, 0, 'no phase outside of the pupil')
                    continue
                if pix and (i, j) not in pix:
                    continue
                re = im = 0
                for u in range(n):
                    for q in range(m):
                        z = cmath.exp(2j * math.pi * ((u - u0[0]) * i / n + (q - u0[1]) * j / m))
                        for g, a, b in F[u, q]:
                            g = g * z / (n * m) ** 1.5
                            re, im = re + g.real * x[a, b], im + g.imag * x[a, b]
                ph = d * (2 * math.pi) / w
                co, si = c.cos(ph), c.sin(ph)
                r = c.sqrt(re * re + im * im)
                c.assume(r >= 0.01)
                c.close(co * r, re, 'cosine of the phase of the sideband', 1e-4)
                c.close(si * r, im, 'sine of the phase of the sideband', 1e-4)
                c.check(c.And(d <= w * 0.50001 + 1e-3, d >= -w * 0.50001 - 1e-3), 'within half a wavelength')


# --- ideal derivative sensor -------------------------------------------------------------------

def subaps(c, n, lens, which):
    from specula.data_objects.subap_data import SubapData
    s = n // lens
    idx = [[(a * s + i) * n + b * s + j for i in range(s) for j in range(s)] for a, b in which]
    return SubapData(c.xp.array(idx), c.xp.array([a * lens + b for a, b in which]), lens, lens, target_device_idx=-1, precision=0)


def ideal(c, n=4, lens=2, which=((0, 0), (0, 1), (1, 0), (1, 1)), fov=2.0, pitch=0.1):
    from specula.processing_objects.ideal_derivative_sensor import IdealDerivativeSensor
    return IdealDerivativeSensor(simul_params(pixel_pupil=n, pixel_pitch=pitch), subaps(c, n, lens, which), fov, target_device_idx=-1, precision=0)


def scale(fov, pitch, s):
    return 1e-9 * ARC / (pitch * fov / 2) * (s - 1) / s


def h_slopes(c, n=4, lens=2, which=((0, 0), (0, 1), (1, 0), (1, 1)), dark=(), fov=None, steps=1, half=(), gray=0):
    """mean of the central differences of the phase over the lit pixels of each subaperture, all of them away from dark pixels"""
    fv = c.real('fov', 0.5, 10) if fov is None else fov
    o = ideal(c, n, lens, which, fv)
    f = efield(c, 'f', n, lo=-300, hi=300, pitch=0.1)
    f.A = c.xp.array([[0.0 if (i, j) in dark else 0.4 if (i, j) in half else 1.0 - 0.05 * gray * ((i + j) % 3) for j in range(n)] for i in range(n)])
    s = n // lens
    lit = {(i, j): (i, j) not in dark and (i, j) not in half for i in range(n) for j in range(n)}
    for t in range(1, steps + 1):
        if t > 1:
            f.phaseInNm = c.arr('g%d' % t, (n, n), -300, 300)
        keep = f.A.copy(), f.phaseInNm.copy()
        run(o, f, t, setup=t == 1)
        P = f.phaseInNm
        c.equal(P, keep[1], 'the phase is left alone')
        c.equal(f.A, keep[0], 'the amplitude is left alone')
        out = o.outputs['out_slopes']
        c.check(out.generation_time == t, 'marked as of this step')
        k = scale(fv, 0.1, s)
        for q, (a, b) in enumerate(which):
            for axis, got in ((1, out.xslopes[q]), (0, out.yslopes[q])):
                tot, num, known = 0, 0, True
                for i in range(a * s, a * s + s):
                    for j in range(b * s, b * s + s):
                        if not lit[i, j]:
                            continue
                        num += 1
                        at = j if axis else i
                        lo, hi = max(at - 1, 0), min(at + 1, n - 1)
                        ends = [(i, x) if axis else (x, j) for x in (lo, hi)]
                        known = known and all(e not in dark for e in ends)
                        tot = tot + (P[ends[1]] - P[ends[0]]) / (hi - lo)
                if num == 0:
                    c.close(got, 0, 'no slope without light')
                elif known:
                    c.close(got, tot / num * k, 'mean derivative of the phase over the lit pixels', 1e-4)
    c.equal(o.outputs['out_slopes'].single_mask.sum(), len(which), 'map of the subapertures')


def h_ramp(c, n=4, lens=2, dark=(), which=((0, 0), (0, 1), (1, 0), (1, 1))):
    """a tilted wavefront gives its tilt in all subapertures that receive light, wherever the edge of the pupil is"""
    o = ideal(c, n, lens, which)
    f = efield(c, 'f', n, pitch=0.1)
    f.A = c.xp.array([[0.0 if (i, j) in dark else 1.0 for j in range(n)] for i in range(n)])
    tx, ty, p = c.real('tx', -50, 50), c.real('ty', -50, 50), c.real('p', -100, 100)
    f.phaseInNm = c.xp.array([[tx * j + ty * i + p if (i, j) not in dark else 0 * tx for j in range(n)] for i in range(n)])
    run(o, f)
    s = n // lens
    k = scale(2.0, 0.1, s)
    out = o.outputs['out_slopes']
    for q, (a, b) in enumerate(which):
        some = any((i, j) not in dark for i in range(a * s, a * s + s) for j in range(b * s, b * s + s))
        c.close(out.xslopes[q], tx * k if some else 0, 'tilt in x', 1e-4)
        c.close(out.yslopes[q], ty * k if some else 0, 'tilt in y', 1e-4)


def h_ideal_bad(c):
    v = c.real('fov', -2, 2)
    c.check(c.decide(v <= 0) == rejects(lambda: ideal(c, fov=v), ValueError), 'null and negative fields of view are refused')


def harnesses(tier):
    T = tier == 'thorough'
    r = []

    def add(name, fn, **k):
        r.append(H(name, fn, **k))
    add('interference', h_sheared, rot=0.0, amps=((0, 1), (1, 1)), share=None, norm=False)
    add('interference, tilts', h_sheared, rot=0.0, amps=((1, 1),), tilt=(None, None), norm=False)
    add('interference, one tilt', h_sheared, rot=0.0, amps=((1, 1),), tilt=(None, 0.0), scalar=True, norm=False)
    add('interference, normalised', h_sheared, rot=0.0, amps=((0, 1),), free=((0, 0),), tilt=(0.15, -0.1), share=None)
    add('interference of half a turn', h_sheared, free=((0, 0), (1, 0)), tilt=(0.2, 0.05), norm=False)
    add('interference of half a turn, normalised', h_sheared, free=((0, 0),), tilt=(0.2, 0.05))
    add('interference of half a turn, steps', h_sheared, free=((0, 0), (0, 1)), tilt=(0.1, 0.0), norm=False, steps=2)
    add('interference of a quarter turn, 3 pixels', h_sheared, n=3, rot=90.0, free=((0, 0), (1, 2)), norm=False, share=0.3)
    add('interference of an eighth of a turn', h_sheared, n=4, rot=45.0, free=((1, 1), (2, 1)), mask='corner', norm=False, share=0.3)
    add('interference of a quarter turn, pupil', h_sheared, n=4, rot=90.0, free=((1, 1), (2, 1)), mask='half', norm=False)
    add('interference, gray pupil', h_sheared, n=4, rot=180.0, free=((1, 1), (2, 1)), mask='gray', norm=False)
    add('interference, binned', h_sheared, n=4, px=2, rot=180.0, free=((1, 1), (2, 1)), norm=False, tilt=(0.1, 0.1))
    add('interference, binned and normalised', h_sheared, n=4, px=2, rot=90.0, free=((1, 1),), tilt=(0.1, 0.1), share=0.7)
    add('interference, 4 to 3 pixels', h_sheared, n=4, px=3, rot=0.0, free=((1, 1),), amps=((2, 2),), tilt=(0.1, 0.1), norm=False)
    add('interference, turned input', h_sheared, n=4, rot=180.0, base=dict(rot=90.0), free=((1, 1), (0, 2)), mask='half', norm=False)
    add('interference, turned input, steps', h_sheared, n=3, rot=180.0, base=dict(rot=90.0), free=((1, 1),), norm=False, steps=2)
    add('interference, shifted input', h_sheared, n=4, rot=180.0, base=dict(x=1.0, y=0.5), free=((1, 1), (0, 2)), mask='corner', norm=False)
    add('interference, magnified input', h_sheared, n=4, rot=180.0, base=dict(mag=1.5), free=((1, 1), (0, 2)), norm=False)
    add('interference, shifted copy', h_sheared, n=4, rot=180.0, diff=dict(x=1.0, y=-0.5), free=((1, 1), (0, 2)), mask='corner', norm=False)
    add('interference, magnified copy', h_sheared, n=4, rot=90.0, diff=dict(mag=0.8), free=((1, 1), (0, 2)), norm=False)
    add('interference, all moved', h_sheared, n=4, rot=180.0, base=dict(rot=45.0, x=0.5), diff=dict(y=0.5, mag=1.2), free=((1, 1),), mask='corner', norm=False)
    add('two beams', h_flat)
    for k in ('share', 'px', 'magnification', 'magnificationDiff', 'tilt', 'size'):
        add('refused: ' + k, h_sensor_bad, kind=k)
    for q, at in enumerate(((0, 1), (2, 3), (3, 0))):
        add('sideband, %d' % q, h_opd, pix=[at], free=2)
        add('sideband, narrow, %d' % q, h_opd, at=(2, 3), sigma=0.7, pix=[at], free=2)
        add('sideband, other side, %d' % q, h_opd, at=(3, 0), sigma=1.5, pix=[at], free=2)
        add('sideband, between pixels, %d' % q, h_opd, at=(1.3, 2.8), sigma=1.2, pix=[at], free=2)
        add('sideband, odd size, %d' % q, h_opd, n=3, at=(1, 2), pix=[(q, 2 - q)], free=2)
        add('sideband, odd size 5, %d' % q, h_opd, n=5, at=(1, 3), pix=[at], free=2)
    add('sideband, rectangular', h_opd, n=4, m=2, at=(1, 1))
    add('sideband, steps', h_opd, n=2, at=(0, 1), steps=2, free=2)
    add('sideband, reference', h_opd, n=2, at=(0, 1), null=True)
    add('sideband, pupil', h_opd, mask='half', free=2, pix=[(0, 0), (1, 2)])
    add('sideband, gray pupil', h_opd, mask='gray', free=2, pix=[(0, 1), (1, 2)])
    for rot in (90.0, -90.0, 180.0, 30.0):
        add('sideband, pupil turned by %g' % rot, h_opd, mask='half', free=2, pix=[(0, 0), (2, 1)], rot=rot)
    add('ideal slopes', h_slopes)
    add('ideal slopes, steps', h_slopes, steps=2, fov=2.0)
    add('ideal slopes, 3x3 pixels', h_slopes, n=6, which=((1, 0), (0, 1)), fov=2.0)
    add('ideal slopes, some subapertures', h_slopes, n=6, lens=3, which=((2, 1), (1, 1), (0, 2)), fov=1.0)
    add('ideal slopes, dark pixels', h_slopes, dark=((0, 0), (0, 1), (1, 0), (1, 1), (3, 3)), fov=2.0)
    add('ideal slopes, faint pixels', h_slopes, half=((0, 1), (2, 2), (3, 3)), fov=2.0, gray=1)
    add('ideal slopes of a tilt', h_ramp)
    add('ideal slopes of a tilt, corner', h_ramp, dark=((0, 0), (3, 3), (0, 3)))
    add('ideal slopes of a tilt, dark subaperture', h_ramp, n=6, lens=3, dark=((4, 4), (4, 5), (5, 4), (5, 5), (0, 0)), which=((0, 0), (1, 1), (2, 2), (1, 2)))
    add('ideal sensor refused', h_ideal_bad)
    return r
