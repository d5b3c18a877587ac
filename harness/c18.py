"""C18: pyramid slopes, and the related pupil-plane slope computers."""
from engine.common import H
from .util import step

BOUNDS = ('four pupils of 2-3 pixels in a 4x4 frame with arbitrary content (also negative), arbitrary thresholds, normalisation constants and '
          'reference slopes, both storage layouts; Zernike and curvature sensors with 4 pixels in a 4x4 frame')
OUTSIDE = 'more pixels; index tables padded with -1'

# quadrants: pupil 0 upper right, as the display mask expects
PUPILS = [[2, 3, 7], [0, 1, 4], [8, 9, 12], [11, 14, 15]]


def build(c, n=2, double=False, **k):
    import numpy as np
    from specula.processing_objects.pyr_slopec import PyrSlopec
    from specula.processing_objects.double_roof_slopec import DoubleRoofSlopec
    from specula.data_objects.pupdata import PupData
    from specula.data_objects.pixels import Pixels
    pd = PupData(ind_pup=np.array([p[:n] for p in PUPILS]).T, radius=[1.0] * 4, cx=[1.0] * 4, cy=[1.0] * 4, framesize=[4, 4], target_device_idx=-1)
    o = (DoubleRoofSlopec if double else PyrSlopec)(pd, target_device_idx=-1, **k)
    px = Pixels(4, 4, target_device_idx=-1)
    o.inputs['in_pixels'].set(px)
    o.setup()
    return o, px


def run(c, o, px, img, t=1):
    px.pixels[:] = img
    px.generation_time = t
    step([o], t)
    s = o.outputs['out_slopes']
    return s.xslopes.copy(), s.yslopes.copy()


def flux(c, img, n, thr=0):
    """light of pixel i of pupil q"""
    def f(q, i):
        v = img[PUPILS[q][i] // 4, PUPILS[q][i] % 4] - thr
        return c.ite(v > 0, v, 0)
    return [[f(q, i) for i in range(n)] for q in range(4)]


def expected(f, n, double):
    A, B, C, D = f
    if double:
        return [A[i] - B[i] for i in range(n)], [D[i] - C[i] for i in range(n)]
    return [A[i] + B[i] - C[i] - D[i] for i in range(n)], [B[i] + C[i] - A[i] - D[i] for i in range(n)]


def law(c, img, sx, sy, n, norm, thr=0, double=False, tol=1e-3):
    f = flux(c, img, n, thr)
    tot = sum(sum(q) for q in f)
    d = {'mean': tot / n, 'total': tot}.get(norm, norm)
    ex, ey = expected(f, n, double)
    for i in range(n):
        c.close(sx[i] * d, ex[i], 'the x slope is the normalised difference of left and right pupils', tol=tol)
        c.close(sy[i] * d, ey[i], 'the y slope is the normalised difference of upper and lower pupils', tol=tol)
    return tot


def h_slopes(c, n=2, mode='mean', thr=False, lo=1, double=False, interleave=False):
    k = {}
    norm = mode
    if mode == 'constant':
        norm = k['norm_factor'] = c.real('norm', 0.25, 8)
    elif mode == 'total':
        k['shlike'] = True
    if thr:
        thr = k['thr_value'] = c.real('thr', 0.1, 0.9 if lo >= 1 else 20)
    o, px = build(c, n, double, interleave=interleave, **k)
    img = c.arr('p', (4, 4), lo, 100)
    if lo < 1 and mode != 'constant':
        f = flux(c, img, n, thr or 0)
        c.assume(sum(sum(q) for q in f) > 1)
    sx, sy = run(c, o, px, img)
    law(c, img, sx, sy, n, norm, thr or 0, double, tol=1e-3)
    c.equal(px.pixels, img, 'the frame is not altered')
    s = o.outputs['out_slopes'].slopes
    for i in range(n):
        a, b = (2 * i, 2 * i + 1) if interleave else (i, n + i)
        c.equal(s[a], sx[i], 'x slopes are stored where the layout says')
        c.equal(s[b], sy[i], 'y slopes are stored where the layout says')


def h_intensity(c, n=2, thr=False, lo=1):
    k = {}
    if thr:
        thr = k['thr_value'] = c.real('thr', 0.1, 0.9)
    o, px = build(c, n, slopes_from_intensity=True, **k)
    img = c.arr('p', (4, 4), lo, 100)
    f = flux(c, img, n, thr or 0)
    if lo < 1:
        c.assume(sum(sum(q) for q in f) > 1)
    run(c, o, px, img)
    tot = sum(sum(q) for q in f)
    s = o.outputs['out_slopes'].slopes
    c.check(s.shape == (4 * n,), 'one value for each pixel of the four pupils')
    for q in range(4):
        for i in range(n):
            c.close(s[q * n + i] * tot, f[q][i] * 4 * n, 'the intensity divided by the mean intensity of the pupils, pupil by pupil', tol=1e-3)


def h_counts(c, n):
    o, px = build(c, n)
    img = c.arr('p', (4, 4), 1, 100)
    run(c, o, px, img)
    f = flux(c, img, n)
    out = o.outputs
    for i in range(n):
        c.close(out['out_flux_per_subaperture'].value[i], sum(f[q][i] for q in range(4)), 'the flux of a pixel is its light in the four pupils', tol=1e-3)
    tot = sum(sum(q) for q in f)
    c.close(out['out_total_counts'].value[0], tot, 'the total counts are the light in the pupils', tol=1e-3)
    c.close(out['out_subap_counts'].value[0] * n, tot, 'the mean counts are the light per pixel', tol=1e-3)
    for nm in ('out_slopes', 'out_flux_per_subaperture', 'out_total_counts', 'out_subap_counts', 'out_pupdata'):
        c.check(out[nm].generation_time == 1, 'every output is refreshed')


def h_scale(c, mode):
    k = {'total': dict(shlike=True), 'intensity': dict(slopes_from_intensity=True)}.get(mode, {})
    o, px = build(c, 2, **k)
    img = c.arr('p', (4, 4), 1, 100)
    f = c.real('k', 0.01, 100)
    a = run(c, o, px, img, 1)
    b = run(c, o, px, img * f, 2)
    for u, v in zip(a, b):
        c.close(u, v, 'slopes do not change when the frame is scaled')


def h_outside(c, mode):
    k = {'total': dict(shlike=True), 'intensity': dict(slopes_from_intensity=True)}.get(mode, {})
    o, px = build(c, 2, **k)
    a, b = c.arr('p', (4, 4), 1, 100), c.arr('q', (4, 4), -50, 100)
    for q in PUPILS:
        for p in q[:2]:
            b[p // 4, p % 4] = a[p // 4, p % 4]
    u, v = run(c, o, px, a, 1), run(c, o, px, b, 2)
    for x, y in zip(u, v):
        c.close(x, y, 'pixels outside the pupils do not matter', tol=1e-5)


def h_dark(c, mode, lo=0):
    k = {'total': dict(shlike=True), 'intensity': dict(slopes_from_intensity=True), 'constant': dict(norm_factor=2.0)}.get(mode, {})
    o, px = build(c, 2, **k)
    img = c.arr('p', (4, 4), lo, 0) if lo else c.xp.zeros((4, 4))
    sx, sy = run(c, o, px, img)
    for s in list(sx) + list(sy):
        c.close(s, 0, 'slopes are zero on a dark frame')
    img2 = c.arr('r', (4, 4), 1, 100)
    sx, sy = run(c, o, px, img2, 2)
    if mode != 'intensity':
        law(c, img2, sx, sy, 2, 2.0 if mode == 'constant' else mode)


def h_reference(c, interleave, ref_interleave, intensity=False):
    from specula.data_objects.slopes import Slopes
    m = 4 if intensity else 2
    ref = Slopes(2 * m, interleave=ref_interleave, target_device_idx=-1)
    rx, ry = c.arr('rx', m, -1, 1), c.arr('ry', m, -1, 1)
    ref.xslopes, ref.yslopes = rx, ry
    keep = ref.slopes.copy()
    o, px = build(c, 2, sn=ref, interleave=interleave, slopes_from_intensity=intensity)
    for t in (1, 2):
        img = c.arr(f'p{t}_', (4, 4), 1, 100)
        sx, sy = run(c, o, px, img, t)
        if not intensity:
            law(c, img, sx + rx, sy + ry, 2, 'mean')
        else:
            f = flux(c, img, 2)
            tot = sum(sum(q) for q in f)
            flat = [x for q in f for x in q]
            for i in range(4):
                c.close((sx[i] + rx[i]) * tot, flat[i] * 8, 'the reference is subtracted once', tol=1e-3)
                c.close((sy[i] + ry[i]) * tot, flat[4 + i] * 8, 'the reference is subtracted once', tol=1e-3)
    c.equal(ref.slopes, keep, 'the reference is not altered')


def h_zernike(c, thr=False, sn=False):
    from specula.processing_objects.zwfs_slopec import ZwfsSlopec
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.slopes import Slopes
    k = {}
    t0 = 0
    if thr:
        t0 = k['thr_value'] = c.real('thr', 0.1, 0.9)
    ref = c.arr('ref', 4, -1, 1) if sn else None
    if sn:
        k['sn'] = Slopes(slopes=ref.copy(), target_device_idx=-1)
    o = ZwfsSlopec(pup_diam=2, ccd_size=4, target_device_idx=-1, **k)
    px = Pixels(4, 4, target_device_idx=-1)
    o.inputs['in_pixels'].set(px)
    o.setup()
    for t in (1, 2):
        img = c.arr(f'p{t}_', (4, 4), 1, 100)
        run(c, o, px, img, t)
        v = [img[y, x] - t0 for y, x in ((1, 1), (1, 2), (2, 1), (2, 2))]
        s = o.outputs['out_slopes'].slopes
        for i in range(4):
            c.close((s[i] + (ref[i] if sn else 0)) * sum(v), v[i] * 4, 'a Zernike signal is the intensity over its mean', tol=1e-3)
        c.close(o.outputs['out_total_counts'].value[0], sum(v), 'the total counts are the light in the pupil', tol=1e-3)
        c.close(o.outputs['out_subap_counts'].value[0] * 4, sum(v), 'the mean counts are the light per pixel', tol=1e-3)
        c.equal(px.pixels, img, 'the frame is not altered')


def h_zernike_dark(c):
    from specula.processing_objects.zwfs_slopec import ZwfsSlopec
    from specula.data_objects.pixels import Pixels
    o = ZwfsSlopec(pup_diam=2, ccd_size=4, target_device_idx=-1)
    px = Pixels(4, 4, target_device_idx=-1)
    o.inputs['in_pixels'].set(px)
    o.setup()
    run(c, o, px, c.xp.zeros((4, 4)))
    for i in range(4):
        c.close(o.outputs['out_slopes'].slopes[i], 0, 'signals are zero on a dark frame')


def h_curvature(c, dark=False, sn=False):
    from specula.processing_objects.cur_wfs_slopec import CurWfsSlopec
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.slopes import Slopes
    k = {}
    ref = c.arr('ref', 4, -1, 1) if sn else None
    if sn:
        k['sn'] = Slopes(slopes=ref.copy(), target_device_idx=-1)
    o = CurWfsSlopec(diameter=2, ccd_size=(4, 4), target_device_idx=-1, **k)
    pp = [Pixels(4, 4, target_device_idx=-1) for _ in range(2)]
    o.inputs['in_pixels1'].set(pp[0])
    o.inputs['in_pixels2'].set(pp[1])
    o.setup()
    ids = ((1, 1), (1, 2), (2, 1), (2, 2))
    for t in (1, 2):
        im = [c.arr(f'p{t}{j}_', (4, 4), 1, 100) for j in range(2)]
        if dark:
            for j in range(2):
                im[j][1, 1] = 0.0
        for j in range(2):
            pp[j].pixels[:] = im[j]
            pp[j].generation_time = t
        step([o], t)
        s = o.outputs['out_slopes'].slopes
        for i, p in enumerate(ids):
            a, b = im[0][p], im[1][p]
            v = s[i] + (ref[i] if sn else 0)
            if dark and i == 0:
                c.close(v, 0, 'a dark pixel has no curvature signal')
            else:
                c.close(v * (a + b), a - b, 'the curvature signal is the normalised difference of the two images', tol=1e-3)
        tot = sum(im[0][p] + im[1][p] for p in ids)
        c.close(o.outputs['out_total_counts'].value[0], tot, 'the total counts are the light of both images', tol=1e-3)


def h_refused(c):
    import numpy as np
    from .util import rejects
    c.check(rejects(lambda: build(c, 2, shlike=True, slopes_from_intensity=True), ValueError), 'conflicting options are refused')
    c.check(rejects(lambda: build(c, 2, shlike=True, norm_factor=c.real('n', 0.25, 8)), ValueError), 'conflicting normalisations are refused')


def harnesses(tier):
    hs = [H('refused', h_refused)]
    for mode in ('mean', 'total', 'constant'):
        for n in (2, 3):
            hs.append(H(f'slopes {mode} {n}', h_slopes, n=n, mode=mode))
        hs += [H(f'slopes {mode} interleaved', h_slopes, mode=mode, interleave=True),
               H(f'slopes {mode} threshold', h_slopes, mode=mode, thr=True),
               H(f'slopes {mode} double roof', h_slopes, mode=mode, double=True),
               H(f'slopes {mode} negative pixels', h_slopes, n=1, mode=mode, lo=-20),
               H(f'slopes {mode} cutting threshold', h_slopes, n=1, mode=mode, lo=-20, thr=True)]
    hs += [H('intensity', h_intensity), H('intensity 3', h_intensity, n=3), H('intensity threshold', h_intensity, thr=True),
           H('intensity negative pixels', h_intensity, n=1, lo=-20), H('counts', h_counts, n=2), H('counts 3', h_counts, n=3)]
    for mode in ('mean', 'total', 'intensity'):
        hs += [H(f'scaling {mode}', h_scale, mode=mode), H(f'outside {mode}', h_outside, mode=mode)]
    for mode in ('mean', 'total', 'intensity', 'constant'):
        hs += [H(f'dark {mode}', h_dark, mode=mode), H(f'dark negative {mode}', h_dark, mode=mode, lo=-5)]
    for i in (False, True):
        for r in (False, True):
            hs.append(H(f'reference {"interleaved" if r else "split"} for {"interleaved" if i else "split"}', h_reference, interleave=i, ref_interleave=r))
    hs += [H('reference of intensities', h_reference, interleave=False, ref_interleave=False, intensity=True)]
    for sn in (False, True):
        hs += [H(f'Zernike{" reference" if sn else ""}', h_zernike, sn=sn), H(f'curvature{" reference" if sn else ""}', h_curvature, sn=sn)]
    hs += [H('Zernike dark', h_zernike_dark), H('Zernike threshold', h_zernike, thr=True), H('curvature dark', h_curvature, dark=True)]
    return hs
