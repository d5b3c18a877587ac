"""C17: Shack-Hartmann slopes."""
from engine.common import H
from .util import simul_params, step  # noqa: F401

BOUNDS = ('2-3 subapertures of 2x2 or 3x3 pixels in frames of up to 4x7 pixels with arbitrary content (also negative), arbitrary thresholds, '
          'reference slopes, filter matrices and weighting windows (none, Gaussian, top-hat, powers of the coordinate, accumulated images over '
          '2 steps)')
OUTSIDE = ('more subapertures or pixels; quad-cell and pedestal options that no parameter can set; geometry built by the subaperture calibrator '
           'beyond the layouts used')
ASSUMPTIONS = ['subapertures holding less than a thousandth of the mean light count as dark']

# frames of 4 x 7 pixels, subapertures are squares given by their upper left corner
SHAPE = (4, 7)
CORNERS = [(0, 0), (1, 3), (2, 5)]


def pixels_of(corner, n):
    return [(corner[0] + j, corner[1] + k) for j in range(n) for k in range(n)]


def build(c, n=2, subs=2, **k):
    import numpy as np
    from specula.processing_objects.sh_slopec import ShSlopec
    from specula.data_objects.subap_data import SubapData
    from specula.data_objects.pixels import Pixels
    cs = CORNERS[:subs] if n == 2 else [(0, 0), (1, 4)][:subs]
    idx = np.array([[y * SHAPE[1] + x for y, x in pixels_of(cc, n)] for cc in cs])
    sd = SubapData(idx, np.arange(subs), 2, 2, target_device_idx=-1)
    o = ShSlopec(sd, target_device_idx=-1, **k)
    px = Pixels(SHAPE[1], SHAPE[0], target_device_idx=-1)
    o.inputs['in_pixels'].set(px)
    o.setup()
    return o, px, [pixels_of(cc, n) for cc in cs]


def run(c, o, px, img, t=1):
    px.pixels[:] = img
    px.generation_time = t
    step([o], t)
    s = o.outputs['out_slopes']
    return s.xslopes.copy(), s.yslopes.copy()


def coord(k, n):
    """centre of pixel k of n on [-1, 1]"""
    return (2 * k + 1 - n) / n


def centroid(c, o, img, ps, n, weight=None, fx=lambda x: x, thr=0):
    """numerators and denominator of the centroid of one subaperture"""
    tot = mx = my = 0
    for j in range(n):
        for k in range(n):
            v = img[ps[j * n + k]] - thr
            v = c.ite(v > 0, v, 0)
            w = weight[j * n + k] if weight is not None else 1
            tot = tot + v * w
            mx = mx + v * w * fx(coord(j, n))
            my = my + v * w * fx(coord(k, n))
    return mx, my, tot


def axes(c):
    """which of the two slopes measures the column"""
    return 0


def law(c, o, img, sx, sy, ps, i, n, tol=1e-3, **k):
    """x measures columns, y rows"""
    my, mx, tot = centroid(c, o, img, ps[i], n, **k)
    c.close(sx[i] * tot, mx, 'the x slope is the flux-weighted mean of the column', tol=tol)
    c.close(sy[i] * tot, my, 'the y slope is the flux-weighted mean of the row', tol=tol)
    return tot


def frame(c, name, lo=1, hi=100):
    return c.arr(name, SHAPE, lo, hi)


def sgnpow(p):
    return lambda x: (1 if x > 0 else -1) * abs(x) ** p


def h_centroid(c, n=2, subs=2, thr=None, lo=1, exp_weight=None, interleave=False):
    k = {}
    if thr:
        thr = c.real('thr', 0.1, 0.9 if lo >= 1 else 20)
        k['thr_value'] = thr
    if exp_weight:
        k['exp_weight'] = exp_weight
    o, px, ps = build(c, n, subs, interleave=interleave, **k)
    img = frame(c, 'p', lo)
    if lo < 1:
        # light in the first subaperture only needs to exceed a thousandth of the mean
        for q in ps:
            c.assume(sum(c.ite(img[p] - (thr or 0) > 0, img[p] - (thr or 0), 0) for p in q) > 1)
    sx, sy = run(c, o, px, img)
    for i in range(subs):
        law(c, o, img, sx, sy, ps, i, n, thr=thr or 0, fx=sgnpow(exp_weight) if exp_weight else (lambda x: x))
    c.equal(px.pixels, img, 'the frame is not altered')
    s = o.outputs['out_slopes'].slopes
    for i in range(subs):
        a, b = (2 * i, 2 * i + 1) if interleave else (i, subs + i)
        c.equal(s[a], sx[i], 'x slopes are stored where the layout says')
        c.equal(s[b], sy[i], 'y slopes are stored where the layout says')


def h_counts(c, subs=2):
    o, px, ps = build(c, 2, subs, thr_value=0.5)
    img = frame(c, 'p', 1)
    run(c, o, px, img)
    f = [sum(img[p] for p in q) for q in ps]
    out = o.outputs
    for i in range(subs):
        c.close(out['out_flux_per_subaperture'].value[i], f[i], 'the counts of a subaperture are the light in its pixels', tol=1e-3)
    c.close(out['out_total_counts'].value[0], sum(f), 'the total counts are the light in the valid pixels', tol=1e-3)
    c.close(out['out_subap_counts'].value[0] * subs, sum(f), 'the mean counts are the light per subaperture', tol=1e-3)
    for nm in ('out_slopes', 'out_flux_per_subaperture', 'out_total_counts', 'out_subap_counts', 'out_subapdata'):
        c.check(out[nm].generation_time == 1, 'every output is refreshed')


def h_scale(c):
    o, px, ps = build(c)
    img = frame(c, 'p', 1)
    k = c.real('k', 0.01, 100)
    a = run(c, o, px, img, 1)
    b = run(c, o, px, img * k, 2)
    for u, v in zip(a, b):
        c.close(u, v, 'slopes do not change when the frame is scaled')


def h_local(c):
    """only the pixels of a subaperture matter"""
    o, px, ps = build(c)
    a, b = frame(c, 'p', 1), frame(c, 'q', 1)
    for p in ps[0]:
        b[p] = a[p]
    u = run(c, o, px, a, 1)
    v = run(c, o, px, b, 2)
    for k in range(2):
        c.close(u[k][0], v[k][0], 'pixels of other subapertures and between them do not matter', tol=1e-5)


def h_dark(c, every, lo=0):
    o, px, ps = build(c)
    img = frame(c, 'p', 1)
    for q in ps[:1] if not every else ps:
        for p in q:
            img[p] = c.real(f'd{p}', lo, 0) if lo else 0.0
    sx, sy = run(c, o, px, img)
    for i in range(1 if not every else 2):
        c.close(sx[i], 0, 'slopes of a dark subaperture are zero')
        c.close(sy[i], 0, 'slopes of a dark subaperture are zero')
    if not every:
        law(c, o, img, sx, sy, ps, 1, 2)
    # light again
    img2 = frame(c, 'r', 1)
    sx, sy = run(c, o, px, img2, 2)
    law(c, o, img2, sx, sy, ps, 0, 2)


def h_reference(c, interleave, ref_interleave):
    from specula.data_objects.slopes import Slopes
    ref = Slopes(4, interleave=ref_interleave, target_device_idx=-1)
    rx, ry = c.arr('rx', 2, -1, 1), c.arr('ry', 2, -1, 1)
    ref.xslopes, ref.yslopes = rx, ry
    keep = ref.slopes.copy()
    o, px, ps = build(c, sn=ref, interleave=interleave)
    for t in (1, 2):
        img = frame(c, f'p{t}_', 1)
        sx, sy = run(c, o, px, img, t)
        for i in range(2):
            law(c, o, img, sx + rx, sy + ry, ps, i, 2)
    c.equal(ref.slopes, keep, 'the reference is not altered')


def h_filter(c):
    """slopes are projected on the filtered modes and back"""
    im, rm = c.arr('im', (4, 2), -1, 1), c.arr('rm', (4, 2), -1, 1)
    import numpy as np
    o, px, ps = build(c, filtmat=[im, rm])
    img = frame(c, 'p', 1)
    sx, sy = run(c, o, px, img)
    p2, q, _ = build(c)
    ux, uy = run(c, p2, q, img)
    u, s = list(ux) + list(uy), list(sx) + list(sy)
    for i in range(4):
        m = [sum(u[j] * rm[j, k] for j in range(4)) for k in range(2)]
        c.close(s[i], u[i] - sum(im[i, k] * m[k] for k in range(2)), 'the filtered modes are removed', tol=1e-3)


def window(n, radius, gauss):
    import numpy as np
    w = np.zeros(n * n)
    for j in range(n):
        for k in range(n):
            y, x = j - (n - 1) / 2, k - (n - 1) / 2
            r2 = y * y + x * x
            if gauss:
                s = 2 * radius / (2 * np.sqrt(2 * np.log(2)))
                w[j * n + k] = np.exp(-0.5 * r2 / s ** 2)
            else:
                w[j * n + k] = 1.0 if r2 < radius ** 2 else 0.0
    if gauss:
        w /= w.max()
    w[w < 1e-6] = 0
    return [float(x) for x in w]


def h_weighted(c, n, radius, gauss):
    o, px, ps = build(c, n, 2, weightedPixRad=radius, windowing=not gauss)
    img = frame(c, 'p', 1)
    sx, sy = run(c, o, px, img)
    w = window(n, radius, gauss)
    for i in range(2):
        law(c, o, img, sx, sy, ps, i, n, weight=w, tol=2e-2)


def h_schedule(c):
    """the weighting radius in force is the last one that is due"""
    sched = [[0.8, 2.0], [1.5, 4.0]]
    o, px, ps = build(c, 2, 2, vecWeiPixRadT=sched)
    T = o.seconds_to_t(1.0)
    for t in range(1, 7):
        img = frame(c, f'p{t}_', 1)
        sx, sy = run(c, o, px, img, t * T)
        due = [r for r, s in sched if t > s]
        w = window(2, due[-1], True) if due else None
        for i in range(2):
            law(c, o, img, sx, sy, ps, i, 2, weight=w, tol=2e-2)


def h_accumulated(c, hard, dark=False, order=0):
    """weights from the images accumulated over two steps"""
    k = dict(window_int_pixel=True, window_int_threshold=c.real('thr', 1, 50)) if hard else {}
    o, px, ps = build(c, 2, 1, weight_int_pixel_dt=2.0, **k)
    T = o.seconds_to_t(1.0)
    w = [1.0] * 4
    acc = [0.0] * 4
    for t in range(1, 5):
        img = frame(c, f'p{t}_', 10, 100)
        if not hard:
            # darkest and brightest pixel of the accumulated images at any place
            for i, p in enumerate(ps[0]):
                r = (i + order) % 4
                img[p] = c.real(f'p{t}_{i}', *((1, 10) if r == 0 else (60, 100) if r == 3 else (11, 59)))
        if dark and t <= 2:
            img = c.xp.zeros(SHAPE) + c.real(f'flat{t}', 0, 10)
        acc = [a + img[p] for a, p in zip(acc, ps[0])]
        if t % 2 == 0:
            lo = acc[0]
            for a in acc[1:]:
                lo = c.ite(a < lo, a, lo)
            d = [a - lo for a in acc]
            hi = d[0]
            for a in d[1:]:
                hi = c.ite(a > hi, a, hi)
            if c.decide(hi > 0):
                if hard:
                    th = k['window_int_threshold']
                    c.assume(c.Or(*[x > th for x in d]))
                    w = [c.ite(c.Or(d[i] >= th, d[3 - i] >= th), 1.0, 0.0) for i in range(4)]
                else:
                    w = [x / hi for x in d]
            else:
                w = [1.0] * 4
            acc = [0.0] * 4
        sx, sy = run(c, o, px, img, t * T)
        wi = c.xp.zeros(SHAPE)
        for p, x in zip(ps[0], w):
            wi[p] = x
        law(c, o, img * wi, sx, sy, ps, 0, 2, tol=1e-2)


def harnesses(tier):
    hs = [H('centroid', h_centroid), H('centroid of three', h_centroid, subs=3), H('centroid interleaved', h_centroid, interleave=True),
          H('centroid 3x3', h_centroid, n=3), H('centroid of squares', h_centroid, exp_weight=2.0), H('centroid of roots', h_centroid, exp_weight=0.5),
          H('centroid threshold', h_centroid, thr=True), H('centroid negative pixels', h_centroid, subs=1, lo=-20),
          H('centroid cutting threshold', h_centroid, subs=1, thr=True, lo=-20),
          H('counts', h_counts), H('counts of three', h_counts, subs=3), H('scaling', h_scale), H('locality', h_local),
          H('dark subaperture', h_dark, every=False), H('dark frame', h_dark, every=True), H('dark negative subaperture', h_dark, every=False, lo=-5),
          H('dark negative frame', h_dark, every=True, lo=-5),
          H('filter matrix', h_filter), H('radius schedule', h_schedule), *[H(f'accumulated weights {k}', h_accumulated, hard=False, order=k) for k in range(4)],
          H('accumulated window', h_accumulated, hard=True), H('accumulated flat images', h_accumulated, hard=False, dark=True)]
    for i in (False, True):
        for r in (False, True):
            hs.append(H(f'reference {"interleaved" if r else "split"} for {"interleaved" if i else "split"}', h_reference, interleave=i, ref_interleave=r))
    for n, r, g in ((2, 1.0, True), (2, 0.9, False), (3, 1.2, True), (3, 1.2, False)):
        hs.append(H(f'weighted {n}x{n} {"Gaussian" if g else "top-hat"}', h_weighted, n=n, radius=r, gauss=g))
    return hs
