"""C16: resampling between pixel grids."""

from engine.common import H
from .util import rejects

BOUNDS = ('arrays of up to 6x6 pixels with arbitrary real or complex content, all shape pairs of the list below including rectangular, '
          'enlarging, reducing and mixed ones (about 40 pairs, thorough: all pairs of shapes up to 5x5)')
OUTSIDE = 'GPU kernels; larger arrays'

PAIRS = [((1, 1), (2, 3)), ((2, 2), (1, 1)), ((2, 2), (3, 3)), ((3, 3), (2, 2)), ((4, 4), (2, 2)), ((4, 4), (3, 3)), ((4, 4), (6, 6)),
         ((2, 3), (3, 2)), ((3, 2), (2, 3)), ((2, 4), (3, 4)), ((2, 4), (2, 3)), ((4, 2), (3, 2)), ((1, 4), (1, 6)), ((4, 1), (6, 1)),
         ((2, 6), (4, 3)), ((6, 2), (3, 4)), ((2, 5), (3, 5)), ((5, 5), (2, 2)), ((6, 6), (4, 4)), ((2, 6), (3, 5)), ((1, 5), (3, 2))]


def overlap(i, n, j, m):
    """fraction of input pixel i (of n) that lies in output pixel j (of m)"""
    lo, hi = max(i * m, j * n), min((i + 1) * m, (j + 1) * n)
    return max(0, hi - lo) / m


def image(c, shape, cplx=False, lo=-10, hi=10):
    a = c.arr('a', shape, lo, hi)
    return a + 1j * c.arr('b', shape, lo, hi) if cplx else a


def total(a):
    return sum(a[y, x] for y in range(a.shape[0]) for x in range(a.shape[1]))



def h_toccd(c, src, dst, cplx=False, lo=-10, hi=10):
    from specula.lib.toccd import toccd
    a = image(c, src, cplx, lo, hi)
    a0 = a.copy()
    out = toccd(a, dst, xp=c.xp)
    c.check(out.shape == dst, 'the output has the requested shape')
    tol = 1e-5 if hi >= 1 else 1e-12
    for f in ((lambda v: v.real), (lambda v: v.imag)) if cplx else ((lambda v: v),):
        c.close(total(f(out)), total(f(a0)), 'the total is conserved', tol=tol)
        for y in range(dst[0]):
            for x in range(dst[1]):
                w = sum(f(a0)[j, k] * (overlap(j, src[0], y, dst[0]) * overlap(k, src[1], x, dst[1]))
                        for j in range(src[0]) for k in range(src[1]))
                c.close(f(out)[y, x], w, 'every output pixel collects the input it covers', tol=tol)
    c.equal(a, a0, 'the input is not altered')
    if not cplx and lo >= 0:
        t = toccd(a.T, dst[::-1], xp=c.xp)
        c.close(t, out.T, 'rows and columns are treated alike', tol=tol)


def h_total(c, src, dst):
    """a requested total is applied for every image with light"""
    from specula.lib.toccd import toccd
    a = image(c, src, lo=0.01, hi=10)
    tot = c.real('total', -5, 100)
    out = toccd(a, dst, set_total=tot, xp=c.xp)
    c.close(total(out), tot, 'the requested total is applied', tol=1e-4)
    s = total(a)
    for y in range(dst[0]):
        for x in range(dst[1]):
            w = sum(a[j, k] * (overlap(j, src[0], y, dst[0]) * overlap(k, src[1], x, dst[1])) for j in range(src[0]) for k in range(src[1]))
            c.close(out[y, x] * s, w * tot, 'a requested total only changes the scale', tol=1e-3)


def h_same(c):
    from specula.lib.toccd import toccd
    from specula.lib.rebin import rebin2d
    a = image(c, (2, 3))
    for nm, o in (('toccd', toccd(a, (2, 3), xp=c.xp)), ('toccd list', toccd(a, [2, 3], xp=c.xp)), ('mean', rebin2d(a, (2, 3), xp=c.xp)),
                  ('sample', rebin2d(a, (2, 3), sample=True, xp=c.xp))):
        c.equal(o, a, f'the same grid changes nothing: {nm}')


def h_mean(c, src, f):
    from specula.lib.rebin import rebin2d
    a = image(c, src)
    dst = (src[0] // f[0], src[1] // f[1])
    o = rebin2d(a, dst, xp=c.xp)
    c.check(o.shape == dst, 'the output has the requested shape')
    c.close(total(o) * (f[0] * f[1]), total(a), 'block averaging conserves the mean')
    for y in range(dst[0]):
        for x in range(dst[1]):
            c.close(o[y, x] * (f[0] * f[1]), sum(a[y * f[0] + j, x * f[1] + k] for j in range(f[0]) for k in range(f[1])),
                    'each block is averaged')


def h_sample(c, src, f):
    from specula.lib.rebin import rebin2d
    a = image(c, src)
    dst = (src[0] * f[0], src[1] * f[1])
    o = rebin2d(a, dst, sample=True, xp=c.xp)
    c.check(o.shape == dst, 'the output has the requested shape')
    for y in range(dst[0]):
        for x in range(dst[1]):
            c.equal(o[y, x], a[y // f[0], x // f[1]], 'sampling keeps the values')


def h_bad(c):
    """shapes that cannot be averaged are refused"""
    from specula.lib.rebin import rebin2d
    src = (c.pickint('sy', 1, 4), c.pickint('sx', 1, 4))
    dst = (c.pickint('dy', 1, 5), c.pickint('dx', 1, 5))
    a = c.xp.ones(src)
    ok = src[0] % dst[0] == 0 and src[1] % dst[1] == 0
    c.check(rejects(lambda: rebin2d(a, dst, xp=c.xp), ValueError) == (not ok), 'exactly the whole-number reductions are averaged')


def harnesses(tier):
    hs = [H('same grid', h_same), H('refused shapes', h_bad)]
    pairs = list(PAIRS)
    if tier == 'thorough':
        sh = [(y, x) for y in range(1, 6) for x in range(1, 6)]
        pairs += [(a, b) for a in sh for b in sh if a != b and (a, b) not in pairs]
    for s, d in pairs:
        nm = f'{s[0]}x{s[1]} to {d[0]}x{d[1]}'
        hs.append(H(f'resample {nm}', h_toccd, src=s, dst=d))
        if (s, d) in PAIRS:
            hs.append(H(f'resample faint {nm}', h_toccd, src=s, dst=d, lo=0, hi=1e-6))
            hs.append(H(f'resample light {nm}', h_toccd, src=s, dst=d, lo=0, hi=1000))
            hs.append(H(f'resample complex {nm}', h_toccd, src=s, dst=d, cplx=True))
    for s, d in (((2, 2), (1, 1)), ((2, 2), (3, 3)), ((2, 3), (3, 2)), ((2, 2), (2, 2)), ((3, 3), (2, 2))):
        hs.append(H(f'total {s[0]}x{s[1]} to {d[0]}x{d[1]}', h_total, src=s, dst=d))
    for s, f in (((2, 2), (2, 2)), ((4, 6), (2, 3)), ((2, 6), (1, 2)), ((6, 2), (2, 1)), ((1, 6), (1, 3)), ((6, 1), (3, 1)), ((3, 4), (3, 4)),
                 ((4, 2), (2, 1)), ((2, 4), (2, 1))):
        hs.append(H(f'average {s[0]}x{s[1]} by {f[0]}x{f[1]}', h_mean, src=s, f=f))
        hs.append(H(f'sample {s[0]}x{s[1]} by {f[0]}x{f[1]}', h_sample, src=s, f=f))
    return hs
