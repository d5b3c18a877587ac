"""C36: masks, coordinates and image statistics."""
import itertools
import math
from engine.common import H
from .util import simul_params, rejects

BOUNDS = ('grids of 2-8 points with an arbitrary extent and every option; masks of 2x2 to 6x6 pixels with arbitrary diameter, obstruction and centre; '
          'images of up to 5x6 pixels with arbitrary content, profile centres anywhere in the image (3x3) or at the default and some other positions; '
          'profiles of up to 5 bins with arbitrary values, distances and query distances; arbitrary indices in shapes up to 5x7; block averages of '
          'up to 5x6 pixels')
OUTSIDE = 'spider arms; images above these sizes; pixels exactly on the edge of a mask within rounding'
ASSUMPTIONS = []


# ------------------------------------------------------------------ coordinates

def h_xy(c, n, zero=False, quarter=False, fft=False, polar=False, vector=False):
    from specula.lib.make_xy import make_xy
    ratio = c.real('ratio', 0.1, 50)
    got = make_xy(n, ratio, c.xp, zero_sampled=zero, quarter=quarter, fft=fft, polar=polar, vector=vector)
    # pixel centres of n pixels that cover [-ratio, ratio], or their lower edges
    v = [(2 * i + 1 - n) / n for i in range(n)]
    if zero and n % 2 == 0:
        v = [a - 1 / n for a in v]
    if quarter:
        v = [a for a in v if a > -1e-9]
    elif fft:
        v = [a for a in v if a > -1e-9] + [a for a in v if a <= -1e-9]
    m = len(v)
    if vector:
        c.check(got.shape == (m,), 'as many points as requested')
        for i in range(m):
            c.close(got[i], v[i] * ratio, 'pixel centres', 1e-4)
        return
    a, b = got
    c.check(a.shape == (m, m) and b.shape == (m, m), 'as many points as requested')
    for i in range(m):
        for j in range(m):
            if polar:
                r = math.hypot(v[i], v[j])
                c.close(a[i, j], r * ratio, 'distance from the centre', 1e-4)
                if r > 0:
                    c.close(c.cos(b[i, j]) * r, v[j], 'the angle is counted from the x axis', 1e-4)
                    c.close(c.sin(b[i, j]) * r, v[i], 'the angle is counted from the x axis', 1e-4)
            else:
                c.close(a[i, j], v[j] * ratio, 'x runs along columns', 1e-4)
                c.close(b[i, j], v[i] * ratio, 'y runs along rows', 1e-4)


# ------------------------------------------------------------------------ masks

def grid(n):
    return [(i, j, (2 * j + 1 - n) / n, (2 * i + 1 - n) / n) for i in range(n) for j in range(n)]


def inside(c, x, y, xc, yc, dia, obs, square):
    dx, dy = x - xc, y - yc
    if square:
        ax, ay = c.abs(dx), c.abs(dy)
        d = c.ite(ax > ay, ax, ay)
        return d <= dia, d >= dia * obs, (d - dia, d - dia * obs)
    d = dx * dx + dy * dy
    return d < dia * dia, d >= dia * dia * obs * obs, (d - dia * dia, d - dia * dia * obs * obs)


def h_mask(c, n=3, square=False, inverse=False, centre=False, idx=False, obs=True):
    from specula.lib.make_mask import make_mask
    dia = c.real('dia', 0.1, 1.6)
    ob = c.real('obs', 0, 0.9) if obs else 0.0
    xc, yc = (c.real('xc', -0.8, 0.8), c.real('yc', -0.8, 0.8)) if centre else (0.0, 0.0)
    want = {}
    for i, j, x, y in grid(n):
        a, b, edges = inside(c, x, y, xc, yc, dia, ob, square)
        for e in edges:
            c.assume(c.abs(e) > 1e-6)
        want[i, j] = c.And(a, b)
    m = make_mask(n, obsratio=ob, diaratio=dia, xc=xc, yc=yc, square=square, inverse=inverse, get_idx=idx, xp=c.xp)
    if idx:
        m, where = m
        pairs = list(zip(*[list(w) for w in where]))
    c.check(m.shape == (n, n), 'shape of the mask')
    for i, j, x, y in grid(n):
        w = c.Not(want[i, j]) if inverse else want[i, j]
        c.equal(int(m[i, j]), c.ite(w, 1, 0), 'pixels whose centre is inside the outer and not inside the inner edge')
        if idx:
            c.check(((i, j) in [(int(a), int(b)) for a, b in pairs]) == bool(m[i, j] == 1), 'the list of pixels is that of the mask')
    if idx:
        c.check(len(pairs) == len(set((int(a), int(b)) for a, b in pairs)), 'each pixel once')


def h_onpixel(c, n=4, square=False):
    """the centre moves to the nearest corner between pixels"""
    from specula.lib.make_mask import make_mask
    xc, yc = c.real('xc', -0.99, 0.99), c.real('yc', -0.99, 0.99)
    dia = [0.4, 0.7, 1.1][c.pickint('d', 0, 2)]
    m = make_mask(n, diaratio=dia, xc=xc, yc=yc, square=square, centeronpixel=True, xp=c.xp)
    edges = [-1 + 2 * k / n for k in range(n + 1)]
    ok = []
    for ex in edges:
        for ey in edges:
            near = c.And(c.abs(xc - ex) <= 1 / n + 1e-6, c.abs(yc - ey) <= 1 / n + 1e-6)
            ref = make_mask(n, diaratio=dia, xc=ex, yc=ey, square=square, xp=c.xp)
            same = c.And(*[m[i, j] == int(ref[i, j]) for i in range(n) for j in range(n)])
            ok.append(c.And(near, same))
    c.check(c.Or(*ok), 'the mask centred on the nearest corner of the pixels')


def h_circular(c, n=3, m=4, rad=False):
    from specula.lib.mask import CircularMask
    r = c.real('r', 0.2, 3)
    cy, cx = c.real('cy', 0, n), c.real('cx', 0, m)
    for i in range(n):
        for j in range(m):
            c.assume(c.abs((j + 0.5 - cx) * (j + 0.5 - cx) + (i + 0.5 - cy) * (i + 0.5 - cy) - r * r) > 1e-6)
    k = CircularMask((n, m), maskRadius=r, maskCenter=[cy, cx], xp=c.xp)
    t = k.asTransmissionValue()
    where = [int(x) for x in k.in_mask_indices()]
    for i in range(n):
        for j in range(m):
            d = (j + 0.5 - cx) * (j + 0.5 - cx) + (i + 0.5 - cy) * (i + 0.5 - cy)
            c.equal(int(t[i, j]), c.ite(d <= r * r, 1, 0), 'light where the pixel centre is inside')
            c.check(bool(k.mask()[i, j]) == bool(t[i, j] == 0), 'masked where there is no light')
            c.check((i * m + j in where) == bool(t[i, j] == 1), 'the list of pixels is that of the mask')


def h_pupil(c, n=4):
    """the pupil of the telescope is the mask of its diameters"""
    from specula.data_objects.pupilstop import Pupilstop
    dia, ob = c.real('dia', 0.1, 1.5), c.real('obs', 0, 0.9)
    for i, j, x, y in grid(n):
        d = x * x + y * y
        c.assume(c.abs(d - dia * dia) > 1e-6)
        c.assume(c.abs(d - dia * dia * ob * ob) > 1e-6)
    p = Pupilstop(simul_params(pixel_pupil=n), mask_diam=dia, obs_diam=ob, target_device_idx=-1)
    for i, j, x, y in grid(n):
        d = x * x + y * y
        c.equal(p.A[i, j], c.ite(c.And(d < dia * dia, d >= dia * dia * ob * ob), 1.0, 0.0), 'lit between the two diameters')
        c.equal(p.phaseInNm[i, j], 0.0, 'no phase')


# --------------------------------------------------------------------- profiles

def rings(n, m, cy, cx):
    out = {}
    for i in range(n):
        for j in range(m):
            r = math.hypot(i - cy, j - cx)
            out.setdefault(int(r), []).append((i, j, r))
    return [out[k] for k in sorted(out)]


def h_profile(c, n, m, cy=None, cx=None):
    from specula.lib.radial_profile import compute_radial_profile
    img = c.arr('p', (n, m), -5, 5)
    k = {} if cy is None else dict(center_in_px_y=cy, center_in_px_x=cx)
    p, d, cnt = compute_radial_profile(img, xp=c.xp, dtype=c.xp.float64, return_counts=True, **k)
    rr = rings(n, m, n / 2 if cy is None else cy, m / 2 if cx is None else cx)
    c.check(len(p) == len(rr) and len(d) == len(rr) and len(cnt) == len(rr), 'one value for each ring with pixels')
    for q, pix in enumerate(rr):
        c.close(p[q] * len(pix), sum(img[i, j] for i, j, r in pix), 'mean of the pixels of the ring', 1e-4)
        c.close(d[q] * len(pix), sum(r for i, j, r in pix), 'mean distance of the pixels of the ring', 1e-4)
        c.equal(cnt[q], len(pix), 'number of pixels of the ring')
    p2, d2 = compute_radial_profile(img, xp=c.xp, dtype=c.xp.float64, **k)
    c.equal(p2, p, 'with or without counts')
    c.close((p * cnt).sum(), img.sum(), 'every pixel counts in exactly one ring', 1e-4)


def h_anywhere(c, n=2, m=2):
    """the profile centre is arbitrary: the light is split over the rings"""
    from specula.lib.radial_profile import compute_radial_profile
    img = c.arr('p', (n, m), -5, 5)
    cy, cx = c.real('cy', 0, n - 1), c.real('cx', 0, m - 1)
    p, d, cnt = compute_radial_profile(img, center_in_px_y=cy, center_in_px_x=cx, xp=c.xp, dtype=c.xp.float64, return_counts=True)
    c.close((p * cnt).sum(), img.sum(), 'every pixel counts in exactly one ring', 1e-4)
    c.equal(cnt.sum(), n * m, 'every pixel counts in exactly one ring')
    for q in range(1, len(d)):
        c.check(d[q] > d[q - 1], 'rings are ordered by distance')


def h_energy(c, k=4, counts=True, normalize=True):
    from specula.lib.radial_profile import compute_encircled_energy
    p = c.arr('p', (k,), 0, 10)
    c.assume(p[0] >= 0.1)
    if counts:
        w = c.arr('n', (k,), 1, 20)
        a = dict(n_px_in_radial_bin=w)
    else:
        d = c.arr('d', (k,), 0, 10)
        for q in range(1, k):
            c.assume(d[q] >= d[q - 1] + 0.2)
        a = dict(radial_distance=d)
        edges = [0.0] + [(d[q] + d[q - 1]) / 2 for q in range(1, k)]
        edges.append(d[k - 1] + (d[k - 1] - edges[-1]))
        w = [edges[q + 1] * edges[q + 1] - edges[q] * edges[q] for q in range(k)]
    ee = compute_encircled_energy(p, xp=c.xp, dtype=c.xp.float64, normalize=normalize, **a)
    c.check(ee.shape == (k,), 'one value for each ring')
    acc, tot = 0.0, sum(p[q] * w[q] for q in range(k))
    for q in range(k):
        acc = acc + p[q] * w[q]
        if normalize:
            c.close(ee[q] * tot, acc, 'light inside the ring as a fraction of the total', 1e-3)
        else:
            c.close(ee[q], acc, 'light inside the ring', 1e-3)


def h_never(c, k=4):
    from specula.lib.radial_profile import compute_encircled_energy
    p = c.arr('p', (k,), 0, 10)
    n = [1 + 3 * q for q in range(k)]
    c.assume(p[0] >= 0.1)
    ee = compute_encircled_energy(p, n_px_in_radial_bin=c.xp.array(n), xp=c.xp, dtype=c.xp.float64)
    for q in range(1, k):
        c.check(ee[q] >= ee[q - 1] - 1e-9, 'the encircled energy never decreases')
    c.check(c.And(ee[0] >= 0, ee[0] <= 1 + 1e-9), 'between zero and one')
    c.close(ee[k - 1], 1.0, 'one at the last ring', 1e-6)


def h_at(c, k=3, scalar=False):
    from specula.lib.radial_profile import get_encircled_energy_at_distance
    e, d = c.arr('e', (k,), 0, 1), c.arr('d', (k,), 0, 10)
    for q in range(1, k):
        c.assume(d[q] >= d[q - 1] + 0.2)
    x = c.real('x', -1, 12)
    got = get_encircled_energy_at_distance(e, d, x if scalar else c.xp.array([x]), xp=c.xp, dtype=c.xp.float64)
    got = got if scalar else got[0]
    for q in range(1, k):
        if c.decide(c.And(x >= d[q - 1], x <= d[q])):
            c.close((got - e[q - 1]) * (d[q] - d[q - 1]), (x - d[q - 1]) * (e[q] - e[q - 1]), 'interpolated between rings', 1e-3)
    if c.decide(x <= d[0]):
        c.close(got, e[0], 'the first value before the first ring', 1e-6)
    if c.decide(x >= d[k - 1]):
        c.close(got, e[k - 1], 'the last value after the last ring', 1e-6)


def h_fwhm(c, k=4, dist=True):
    """a profile that falls from its peak at the centre"""
    from specula.lib.radial_profile import compute_fwhm_from_profile
    p = c.arr('p', (k,), 0, 10)
    c.assume(p[0] >= 0.5)
    for q in range(1, k):
        c.assume(p[q] <= p[q - 1] - 0.01)
    a = {}
    d = list(range(k))
    if dist:
        a['radial_distance'] = d = c.arr('d', (k,), 0, 10)
        for q in range(1, k):
            c.assume(d[q] >= d[q - 1] + 0.2)
    c.assume(c.abs(p[k - 1] - p[0] / 2) > 1e-6)
    got = compute_fwhm_from_profile(p, xp=c.xp, dtype=c.xp.float64, **a)
    if c.decide(p[k - 1] > p[0] / 2):
        c.check(bool(got != got), 'no width when the profile never falls to half of its peak')
        return
    for q in range(1, k):
        if c.decide(c.And(p[q] <= p[0] / 2, p[q - 1] > p[0] / 2)):
            c.close((got / 2 - d[q - 1]) * (p[q] - p[q - 1]), (p[0] / 2 - p[q - 1]) * (d[q] - d[q - 1]), 'twice the radius of half maximum', 1e-3)


# ---------------------------------------------------------------------- helpers

def h_unravel(c, n, m, k=3):
    from specula.lib.utils import unravel_index_2d
    i = c.xp.array([c.int(f'i{q}', 0, n * m - 1) for q in range(k)])
    r, s = unravel_index_2d(i, (n, m), c.xp)
    for q in range(k):
        c.equal(r[q] * m + s[q], i[q], 'row and column of the index')
        c.check(c.And(r[q] >= 0, r[q] < n, s[q] >= 0, s[q] < m), 'inside the array')


def h_flatten(c):
    from specula.lib.utils import flatten
    v = [c.real(f'v{q}', -5, 5) for q in range(5)]
    for nest in (v, [v[0], [v[1], v[2]], v[3], [v[4]]], [[v[0]], [[v[1], [v[2]]], v[3]], v[4]], [[], v[0], [[]], [v[1], v[2], v[3], v[4]]]):
        got = list(flatten(nest))
        c.check(len(got) == 5, 'each item once')
        for a, b in zip(got, v):
            c.equal(a, b, 'in order')


def h_local(c, n, m, block, dark=()):
    from specula.lib.utils import local_mean_rebin
    a = c.arr('a', (n, m), -5, 5)
    keep = a.copy()
    import numpy as np
    mask = np.ones((n, m), dtype=bool)
    for p in dark:
        mask[p] = False
    r = local_mean_rebin(a, mask, c.xp, block_size=block)
    lit = [(i, j) for i in range(n) for j in range(m) if mask[i, j]]
    c.check(r.shape == (n, m), 'shape of the result')
    for i in range(n - n % block):
        for j in range(m - m % block):
            bl = [(y, x) for y, x in lit if y // block == i // block and x // block == j // block]
            bl = bl or lit
            c.close(r[i, j] * len(bl), sum(a[p] for p in bl), 'mean of the lit pixels of the block, or of the whole image', 1e-4)
    c.equal(a, keep, 'the input is left alone')


def h_shift(c, n=4):
    """a shift by whole pixels, as a phase ramp in Fourier space, moves every pixel"""
    from specula.lib.utils import make_subpixel_shift_phase
    a = c.arr('a', (n, n), -5, 5)
    dx, dy = c.pickint('dx', -2, 2), c.pickint('dy', -2, 2)
    ph = make_subpixel_shift_phase(n, c.xp, c.xp.complex128, shift_x=dx, shift_y=dy)
    b = c.xp.fft.ifft2(c.xp.fft.fft2(a) * ph)
    for i in range(n):
        for j in range(n):
            c.close(b[(i + dy) % n, (j + dx) % n].real, a[i, j], 'every pixel moves by the shift', 1e-4)
            c.close(b[i, j].imag, 0.0, 'the image stays real', 1e-4)


def h_unit(c, n=4, **k):
    from specula.lib.utils import make_subpixel_shift_phase
    s, t = c.real('s', -2, 2), c.real('t', -2, 2)
    ph = make_subpixel_shift_phase(n, c.xp, c.xp.complex128, shift_x=s, shift_y=0.0, **k)
    for x in ph.ravel():
        c.close(x.real * x.real + x.imag * x.imag, 1.0, 'a shift does not change the light', 1e-4)


def harnesses(tier):
    r = []
    for n in (2, 3, 4, 5, 8):
        r.append(H(f'xy {n}', h_xy, n=n))
        r.append(H(f'xy zero {n}', h_xy, n=n, zero=True))
        r.append(H(f'xy quarter {n}', h_xy, n=n, quarter=True))
        r.append(H(f'xy quarter zero {n}', h_xy, n=n, quarter=True, zero=True))
        r.append(H(f'xy fft {n}', h_xy, n=n, fft=True))
        r.append(H(f'xy fft zero {n}', h_xy, n=n, fft=True, zero=True))
        r.append(H(f'xy vector {n}', h_xy, n=n, vector=True, zero=n == 4))
    r.append(H('xy polar 3', h_xy, n=3, polar=True))
    r.append(H('xy polar 4', h_xy, n=4, polar=True))
    for sq in (False, True):
        s = 'square' if sq else 'round'
        for n in (2, 3, 4) + ((5, 6) if tier == 'thorough' else ()):
            r.append(H(f'mask {s} {n}', h_mask, n=n, square=sq))
        r.append(H(f'mask {s} inverse', h_mask, n=3, square=sq, inverse=True))
        r.append(H(f'mask {s} idx', h_mask, n=3, square=sq, idx=True))
        r.append(H(f'mask {s} centre', h_mask, n=2, square=sq, centre=True, obs=False))
        r.append(H(f'mask {s} onpixel', h_onpixel, n=4, square=sq))
        r.append(H(f'mask {s} onpixel odd', h_onpixel, n=3, square=sq))
    r.append(H('circular', h_circular, n=2, m=3))
    r.append(H('pupil', h_pupil, n=4))
    for n, m in ((2, 2), (4, 4), (3, 5), (5, 6)):
        r.append(H(f'profile {n}x{m}', h_profile, n=n, m=m))
    r.append(H('profile off', h_profile, n=4, m=5, cy=1.0, cx=3.25))
    r.append(H('profile far', h_profile, n=3, m=3, cy=-4.0, cx=1.0))
    r.append(H('profile anywhere', h_anywhere))
    for k in (1, 3, 4):
        r.append(H(f'energy {k}', h_energy, k=k))
    r.append(H('energy total', h_energy, k=3, normalize=False))
    r.append(H('energy distance', h_energy, k=3, counts=False, normalize=False))
    r.append(H('energy distance fraction', h_energy, k=3, counts=False))
    r.append(H('never', h_never, k=4))
    r.append(H('at 3', h_at, k=3))
    r.append(H('at scalar', h_at, k=3, scalar=True))
    r.append(H('fwhm', h_fwhm, k=4))
    r.append(H('fwhm index', h_fwhm, k=4, dist=False))
    for n, m in ((1, 4), (3, 4), (5, 7)):
        r.append(H(f'unravel {n}x{m}', h_unravel, n=n, m=m))
    r.append(H('flatten', h_flatten))
    r.append(H('local 2', h_local, n=4, m=4, block=2, dark=[(0, 0), (2, 2), (2, 3), (3, 2), (3, 3)]))
    r.append(H('local 3', h_local, n=5, m=6, block=3, dark=[(1, 1)]))
    r.append(H('local bright', h_local, n=2, m=4, block=2))
    r.append(H('shift', h_shift, n=4))
    r.append(H('shift odd', h_shift, n=3))
    r.append(H('shift unit', h_unit, n=4))
    r.append(H('shift unit quarter', h_unit, n=4, quarter=True, zero_sampled=True))
    return r
