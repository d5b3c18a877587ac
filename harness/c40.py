"""C40: the images of wavefront sensors are those their optics form."""
import cmath
import math
from engine.common import H
from .util import simul_params, step, rejects
from .c35 import ARC, field, flux, pitch, pyramid, quietly, see

BOUNDS = ('pupils of 2x2 to 4x4 pixels with arbitrary phases and amplitudes in all or some of the pixels; 1x1 and 2x2 lenslets with 1-3 detector pixels; '
          'pyramids of 2 pixels per pupil with 1-5 modulation steps of every kind, field stops, prism defects; every modulation amplitude for the number '
          'of steps')
OUTSIDE = ('fields that are interpolated, rotated or shifted before the sensor; laser guide star kernels; extended sources; a curvature sensor whose '
           'Fourier transform is not the size of its pupil')
ASSUMPTIONS = ['numpy.fft.fft2 is encoded by the definition of the discrete Fourier transform', 'cos and sin obey the addition theorems',
               'the sensor receives light', 'sines and cosines of the fixed angles of the optics are computed in double precision']
TAU = 2j * math.pi


class Optics:
    """fields that are sums over the pixels of a pupil, with fixed complex weights"""

    def __init__(self, c, f, wl):
        k = 2 * math.pi / wl
        n = f.A.shape[0]
        self.at = [(i, j) for i in range(n) for j in range(n)]
        self.co = {p: f.A[p] * c.cos(f.phaseInNm[p] * k) for p in self.at}
        self.si = {p: f.A[p] * c.sin(f.phaseInNm[p] * k) for p in self.at}

    def power(self, weights):
        re = im = 0
        for p, w in weights.items():
            re = re + self.co[p] * w.real - self.si[p] * w.imag
            im = im + self.co[p] * w.imag + self.si[p] * w.real
        return re * re + im * im


def shares(n, m):
    """how much of each of n pixels falls in each of m wider or narrower ones"""
    return [[max(0.0, min((i + 1) / n, (j + 1) / m) - max(i / n, j / m)) * n for i in range(n)] for j in range(m)]


def detect(img, m):
    """light of a square image on a square detector of m pixels (the same field of view)"""
    n = len(img)
    s = shares(n, m)
    return [[sum(s[a][i] * s[b][j] * img[i][j] for i in range(n) for j in range(n) if s[a][i] * s[b][j]) for b in range(m)] for a in range(m)]


def same(c, img, e, total, label, tol=1e-4):
    """an image in the proportions of e, whatever its normalisation"""
    m = len(e)
    c.check(img.shape == (m, m), 'shape of the image')
    t = sum(sum(r) for r in e)
    c.assume(t >= 0.01)
    for i in range(m):
        for j in range(m):
            c.close(img[i, j] * t, e[i][j] * total, label, tol * 100)


# --- Shack-Hartmann ---------------------------------------------------------------------------

def h_sh(c, n=2, lens=1, px=2, rel=1.2, N=4, cut=4, fov=None, square=True, phases=None, amps=None, wl=500.0):
    """every lenslet: squared modulus of the Fourier transform of its part of the pupil, centred on its detector pixels"""
    from specula.processing_objects.sh import SH
    scale = wl * 1e-9 / (n / lens * 0.05) * ARC * rel
    o = quietly(SH, wavelengthInNm=wl, subap_wanted_fov=(fov or px) * scale, sensor_pxscale=scale, subap_on_diameter=lens, subap_npx=px,
                fov_ovs_coeff=0, squaremask=square, target_device_idx=-1, precision=0)
    f = field(c, n, 0.05, phases, amps)
    c.assume(f.A[-1, -1] >= 0.1)
    img = see(o, f)
    q = Optics(c, f, wl)
    s = n // lens
    # half of the field of view in steps of the transform
    half = (fov or px) * scale / ARC / (wl * 1e-9 / (0.05 * N)) / 2
    e = []
    for a in range(lens):
        rows = [[] for _ in range(cut)]
        for b in range(lens):
            for u in range(cut):
                for v in range(cut):
                    fy, fx = u - cut / 2 + 0.5, v - cut / 2 + 0.5
                    seen = max(abs(fy), abs(fx)) <= half if square else math.hypot(fy, fx) < half
                    w = {(a * s + i, b * s + j): cmath.exp(-TAU * (i * fy + j * fx) / N) for i in range(s) for j in range(s)}
                    rows[u].append(q.power(w) if seen else 0)
        e += rows
    same(c, img, detect(e, lens * px), flux(f), 'squared modulus of the transform of the part of the pupil of each lenslet')


def h_sh_tilt(c, n=4, lens=2, px=2):
    """a tilted wavefront moves the spots along its gradient, by the same amount for all lenslets"""
    from specula.processing_objects.sh import SH
    wl = 500.0
    scale = wl * 1e-9 / (n / lens * 0.05) * ARC * 0.6
    o = quietly(SH, wavelengthInNm=wl, subap_wanted_fov=px * scale, sensor_pxscale=scale, subap_on_diameter=lens, subap_npx=px, fov_ovs_coeff=0,
                target_device_idx=-1, precision=0)
    f = field(c, n, 0.05, [], [])
    f.A = f.A * 0 + 1.0
    t = c.real('tilt', 5, 60)
    for axis in (0, 1):
        f.phaseInNm = c.xp.array([[t * (j if axis else i) for j in range(n)] for i in range(n)])
        img = see(o, f, 1 + axis)
        for a in range(lens):
            for b in range(lens):
                w = img[a * px:(a + 1) * px, b * px:(b + 1) * px]
                hi, lo = (w[:, 1].sum(), w[:, 0].sum()) if axis else (w[1].sum(), w[0].sum())
                c.check(hi > lo, 'the light moves along the gradient of the phase')
                c.close(hi + lo, flux(f) / lens ** 2, 'every lenslet has its share of the light', 1e-4)
                x, y = (w[0].sum(), w[1].sum()) if axis else (w[:, 0].sum(), w[:, 1].sum())
                c.close(x, y, 'and not across it', 1e-4)


# --- pyramid -----------------------------------------------------------------------------------

def path(amp, K, kind, frame):
    """positions of the spot (units of a full tilt across the pixels of the pupil) and their weights"""
    if kind == 'circular':
        return [(amp * math.cos(2 * math.pi * k / K), amp * math.sin(2 * math.pi * k / K)) for k in range(K)], [1.0] * K
    if K == 1:
        return [(0.0, 0.0)], [1.0]
    at = [amp * (2 * k / (K - 1) - 1) for k in range(K)]
    mean = [amp * (0.5 / (K - 1) - 1)] + at[1:-1] + [amp * (1 - 0.5 / (K - 1))]
    w = [1 / math.cos(math.pi / 2 * m / amp) for m in mean]
    down = kind == 'vertical' or (kind == 'alternating' and frame % 2 == 0)
    return [(a, 0.0) if down else (0.0, a) for a in at], w


def lit(N, fov, obs=0.0):
    """positions of the focal plane (y, x), and which are inside the field stop (fraction of the transform)"""
    at = [k - N / 2 + 0.5 for k in range(N)]
    return at, {(u, v): obs * fov * N / 2 <= math.hypot(at[u], at[v]) < fov * N / 2 for u in range(N) for v in range(N)}


def relay(q, n, N, spots, weights, prism, at, seen):
    """pupil images behind a focal plane mask, and the focal plane before and after the field stop"""
    img = [[0] * N for _ in range(N)]
    before = [[0] * N for _ in range(N)]
    for (ty, tx), w in zip(spots, weights):
        focal = {}
        for u in range(N):
            for v in range(N):
                g = {}
                for i, j in q.at:
                    tilt = ((i - (n - 1) / 2) * ty + (j - (n - 1) / 2) * tx) / (n - 1)
                    g[i, j] = cmath.exp(-TAU * (tilt + (i * at[u] + j * at[v]) / N))
                focal[u, v] = g
                before[u][v] = before[u][v] + w * q.power(g)
        for y in range(N):
            for x in range(N):
                g = {p: 0 for p in q.at}
                for u in range(N):
                    for v in range(N):
                        if seen[u, v]:
                            z = cmath.exp(TAU * (prism(at[u], at[v]) + ((y - (N - n) / 2) * at[u] + (x - (N - n) / 2) * at[v]) / N)) / N ** 2
                            for p in q.at:
                                g[p] = g[p] + focal[u, v][p] * z
                img[y][x] = img[y][x] + w * q.power(g)
    return img, before


def h_pyramid(c, n=2, pup=2, res=6, N=6, K=1, amp=0.0, kind='circular', frames=1, stop=1.0, dist=None, phases=((0, 0), (0, 1)), amps=((1, 0),), wl=500.0,
              planes=False, **k):
    """pupil images: the focal plane is split in four by the prism, for each position of the modulation"""
    fov = 2.0
    if K > 1:
        k['mod_step'] = K
    if kind != 'circular':
        k['mod_type'] = kind
    from specula.processing_objects.modulated_pyramid import ModulatedPyramid
    o = quietly(ModulatedPyramid, simul_params(pixel_pupil=n, pixel_pitch=pitch(fov, wl)), wavelengthInNm=wl, fov=fov * stop, fov_errinf=0.5,
                pup_diam=pup, output_resolution=res, pup_margin=0, pup_dist=dist, mod_amp=amp, target_device_idx=-1, precision=0, **k)
    f = field(c, n, pitch(fov, wl), phases, amps)
    c.assume(f.A[-1, -1] >= 0.1)
    q = Optics(c, f, wl)
    dist = dist or pup
    # each pupil image is half of the distance away from the axis
    shift = dist / pup * n / 2
    at, seen = lit(N, stop)
    for t in range(1, frames + 1):
        img = see(o, f, t, setup=t == 1)
        spots, w = path(amp, K, kind, t - 1)
        if planes:
            e, b = relay(q, n, N, spots, w, None, at, {p: False for p in seen})
            bfm, tot = o.outputs['out_psf_bfm'].value, o.outputs['out_psf_tot'].value
            for u in range(N):
                for v in range(N):
                    c.close(bfm[u, v] * sum(w), b[u][v], 'focal plane before the stop: weighted mean over the modulation', 1e-4)
                    c.close(tot[u, v], bfm[u, v] if seen[u, v] else 0.0, 'focal plane inside the stop', 1e-6)
            inside = sum(b[u][v] for u, v in seen if seen[u, v])
            c.close(o.outputs['out_transmission'].value[0] * sum(map(sum, b)), inside, 'transmission of the stop', 1e-3)
            continue
        e, b = relay(q, n, N, spots, w, lambda y, x: (abs(y) + abs(x)) * shift / N, at, seen)
        tr = o.outputs['out_transmission'].value[0]
        same(c, img, detect(e, res), flux(f) * tr, 'four images of the pupil')


def h_geometry(c, res=3.0, pup=6, margin=0):
    """pupils on the detector have the requested size and distance, whatever the room they need"""
    dist = c.pickint('dist', 1, 40)
    o = pyramid(c, mod_amp=0.0)
    side = dist + pup + 2 * margin
    r = c.real('res', 1, 6) if res is None else res
    # a pupil that divides exactly
    g = quietly(o.calc_pyr_geometry, pup * 4, pitch(2.0, 500.0), 500.0, 2.0, pup, side, pup_dist=dist, pup_margin=margin, fft_res=r, min_pup_dist=0)
    N, n = g['fft_totsize'], g['fft_sampling']
    c.check(n == pup * 4, 'sampling of the pupil')
    c.close(g['toccd_side'] * n / N, float(pup), 'size of the pupils on the detector', 1e-9)
    c.close(2 * g['toccd_side'] / g['tilt_scale'], float(dist), 'distance of the pupils on the detector', 1e-9)
    c.check(g['toccd_side'] >= dist + pup, 'all four pupils fit')
    c.check(g['fft_res'] >= r - 1.0 / pup - 1e-9, 'at least the requested sampling')
    c.check(g['final_ccd_side'] == side, 'the requested detector')


def h_room(c, given=False, pup=5, margin=1):
    """detectors or distances too small for the pupils"""
    dist, side = c.pickint('dist', 1, 14), 30 if given else c.pickint('side', 0, 30)
    low = c.pickint('low', 0, 10) if given else None
    o = pyramid(c, mod_amp=0.0)
    no = rejects(lambda: quietly(o.calc_pyr_geometry, pup * 4, pitch(2.0, 500.0), 500.0, 2.0, pup, side, pup_dist=dist, pup_margin=margin,
                                 min_pup_dist=low), ValueError)
    least = pup + 2 * margin if low is None else low
    bad = c.Or(dist < least, side < dist + pup + 2 * margin)
    c.check(c.Or(c.And(bad, no), c.And(c.Not(bad), not no)), 'refused when and only when the pupils do not fit')


def h_steps(c, kind='circular'):
    """number of modulation steps: enough for the amplitude, whatever the amplitude"""
    amp = c.real('amp', 0, 6)
    K = c.pickint('K', -1, 40)
    half = c.flag('half')
    step_ = K + 0.5 if half else K
    m = dict(mod_type=kind)
    need = c.toint(c.xp.around(2 * math.pi * amp))
    made = []
    no = rejects(lambda: made.append(pyramid(c, mod_amp=amp, mod_step=step_, **m)), ValueError)
    ok = c.And(K > 0, not half, K >= need)
    c.check(c.Or(c.And(no, c.Not(ok)), c.And(not no, ok)), 'a positive whole number of at least 2 pi amp steps')
    if made:
        c.check(made[0].mod_steps == K, 'the given number of steps')


def h_default(c, kind='circular'):
    amp = c.real('amp', 0, 6)
    c.assume(c.Or(amp < 1e-9, amp > 0.26))
    o = pyramid(c, mod_amp=amp, mod_type=kind)
    K = int(o.mod_steps)
    if kind == 'circular':
        c.check(c.Or(K % 4 == 0, amp < 1e-9), 'a multiple of four')
        c.check(c.Or(K == 1, amp >= 1e-9), 'one step without modulation')
        # the closest to eight per lambda/D
        c.check(c.Or(amp < 1e-9, c.abs(K - 8 * amp) <= 2.0 + 1e-9), 'about eight per lambda/D')
    else:
        c.check(K % 2 == 1, 'an odd number of steps, one in the middle')
        c.check(c.abs(K - 1 - 2 * amp) <= 1.0 + 1e-9, 'about two per lambda/D')


def h_kind(c):
    for k in ('Circular', 'round', ''):
        c.check(rejects(lambda: pyramid(c, mod_amp=0.0, mod_type=k), ValueError), 'unknown modulation')


def h_law(c, kind='circular', K=4, n=2, N=6, wl=500.0):
    """modulation as seen in the focal plane: every amplitude"""
    amp = c.real('amp', 0.05, 0.6)
    if kind != 'circular':
        # all angles are multiples of this one
        c.cos(math.pi / (K - 1) * amp)
    o = pyramid(c, n=n, mod_amp=amp, mod_step=K, mod_type=kind)
    f = field(c, n, pitch(2.0, wl), [], [])
    A = {(0, 0): 1.0, (0, 1): 0.7, (1, 0): 1.3, (1, 1): 0.4}
    P = {(0, 0): 0.0, (0, 1): 30.0, (1, 0): -55.0, (1, 1): 90.0}
    for p in A:
        f.A[p], f.phaseInNm[p] = A[p], P[p]
    at, _ = lit(N, 1.0)
    turn = {p: [] for p in A}
    for t in range(1, 3 if kind == 'alternating' else 2):
        see(o, f, t, setup=t == 1)
        bfm = o.outputs['out_psf_bfm'].value
        ways, w = path(1.0, K, kind, t - 1)
        for p in A:
            turn[p] = [(p[0] - 0.5) * ty + (p[1] - 0.5) * tx for ty, tx in ways]
        co = {p: [c.cos(2 * math.pi * x * amp) for x in turn[p]] for p in A}
        si = {p: [c.sin(2 * math.pi * x * amp) for x in turn[p]] for p in A}
        for u in range(N):
            for v in range(N):
                e = 0
                for k in range(K):
                    re = im = 0
                    for p in A:
                        z = A[p] * cmath.exp(TAU * (P[p] / wl - (p[0] * at[u] + p[1] * at[v]) / N))
                        re = re + z.real * co[p][k] + z.imag * si[p][k]
                        im = im + z.imag * co[p][k] - z.real * si[p][k]
                    e = e + w[k] * (re * re + im * im)
                c.close(bfm[u, v] * sum(w), e, 'mean over the positions of the modulation', 1e-4)


def h_roof(c, n=2, res=6, N=6, K=1, amp=0.0, phases=((0, 0), (1, 0)), amps=(), stop=1.0, wl=500.0):
    """two roofs: the pupils of the second are turned to make four quadrants"""
    from specula.processing_objects.modulated_double_roof import ModulatedDoubleRoof
    fov = 2.0
    k = dict(mod_step=K) if K > 1 else {}
    o = quietly(ModulatedDoubleRoof, simul_params(pixel_pupil=n, pixel_pitch=pitch(fov, wl)), wavelengthInNm=wl, fov=fov * stop, pup_diam=n,
                output_resolution=res, pup_margin=0, mod_amp=amp, target_device_idx=-1, precision=0, **k)
    f = field(c, n, pitch(fov, wl), phases, amps)
    q = Optics(c, f, wl)
    at, seen = lit(N, stop)
    spots, w = path(amp, K, 'circular', 0)
    img = see(o, f)
    z = n / 2 / N
    e1, b = relay(q, n, N, spots, w, lambda y, x: -(abs(x) - y) * z, at, seen)
    e2, _ = relay(q, n, N, spots, w, lambda y, x: -(abs(y) - x) * z, at, seen)
    e = [[e1[i][j] + e2[j][N - 1 - i] for j in range(N)] for i in range(N)]
    tr = o.outputs['out_transmission'].value[0]
    same(c, img, detect(e, res), flux(f) * tr, 'images of the pupil behind the two roofs')
    bfm, tot = o.outputs['out_psf_bfm'].value, o.outputs['out_psf_tot'].value
    for u in range(N):
        for v in range(N):
            c.close(bfm[u, v] * sum(w), b[u][v], 'focal plane before the stop: weighted mean over the modulation', 1e-4)
            c.close(tot[u, v], bfm[u, v] if seen[u, v] else 0.0, 'focal plane inside the stop', 1e-6)


def h_embed(c, n=2, big=8, small=4, wl=500.0):
    """a larger detector has empty margins, a smaller one loses the edge and says how much"""
    f = field(c, n, pitch(2.0, wl), [(0, 0)], [(0, 1)])
    c.assume(f.A[-1, -1] >= 0.1)
    o = pyramid(c, n=n, res=6, mod_amp=0.0)
    a = see(o, f, 1)
    b = see(pyramid(c, n=n, res=big, mod_amp=0.0), f, 2)
    d = (big - 6) // 2
    for i in range(big):
        for j in range(big):
            inside = 0 <= i - d < 6 and 0 <= j - d < 6
            c.close(b[i, j], a[i - d, j - d] if inside else 0.0, 'the image in the middle of a larger detector', 1e-6)
    p = pyramid(c, n=n, res=small, mod_amp=0.0)
    s = see(p, f, 3)
    d = (6 - small) // 2
    c.close(s, a[d:d + small, d:d + small], 'the middle of the image on a smaller detector', 1e-6)
    frac = p.outputs['out_flux_frac_inside_detector']
    c.close(frac.value[0] * a.sum(), s.sum(), 'fraction of the light on the detector', 1e-4)
    c.check(frac.generation_time == 3, 'marked as of this step')


# --- Zernike, curvature --------------------------------------------------------------------------

def h_zernike(c, n=2, N=8, res=8, spot=1.0, shift=0.5, stop=1.0, phases=None, amps=(), wl=500.0):
    """the core of the focal plane is delayed"""
    from specula.processing_objects.zernike_sensor import ZernikeSensor
    fov = 2.0
    o = quietly(ZernikeSensor, simul_params(pixel_pupil=n, pixel_pitch=pitch(fov, wl)), wavelengthInNm=wl, fov=fov * stop, pup_diam=2,
                output_resolution=res, spot_radius_lambda=spot, phase_shift_pi=shift, target_device_idx=-1, precision=0)
    f = field(c, n, pitch(fov, wl), phases, amps)
    q = Optics(c, f, wl)
    img = see(o, f)
    at, seen = lit(N, stop)
    e, b = relay(q, n, N, [(0.0, 0.0)], [1.0], lambda y, x: -shift / 2 if math.hypot(y, x) < spot * N / n else 0.0, at, seen)
    same(c, img, detect(e, res), flux(f) * o.outputs['out_transmission'].value[0], 'the core of the focal plane is delayed')


def h_curvature(c, n=4, wl=500.0, rms=40.0, phases=((0, 1), (1, 1)), amps=((2, 1),)):
    """two images, the defocus added and removed"""
    from specula.processing_objects.curvature_sensor import CurvatureSensor
    from specula.lib.mask import CircularMask
    from specula.lib.zernike_generator import ZernikeGenerator
    px = wl * 1e-9 / (n * 0.05) * ARC
    o = quietly(CurvatureSensor, wavelengthInNm=wl, wanted_fov=px * n, pxscale=px * 1.0001, number_px=n, defocus_rms_nm=rms, fov_ovs_coeff=1.0,
                target_device_idx=-1, precision=0)
    f = field(c, n, 0.05, phases, amps)
    see(o, f, 1, out='out_i1')
    q = Optics(c, f, wl)
    # defocus of a given rms over the disc: sqrt(3) (2 r^2 - 1), on the pixels of the disc
    r2 = {p: ((p[0] + 0.5 - n / 2) ** 2 + (p[1] + 0.5 - n / 2) ** 2) / (n / 2) ** 2 for p in q.at}
    z = {p: math.sqrt(3) * (2 * r2[p] - 1) if r2[p] <= 1 else 0.0 for p in q.at}
    m = lambda u, v: math.hypot(u - n / 2 + 0.5, v - n / 2 + 0.5) < n / 2
    for out, s in (('out_i1', 1), ('out_i2', -1)):
        e = [[q.power({p: cmath.exp(TAU * (s * rms * z[p] / wl - (p[0] * (u - n // 2) + p[1] * (v - n // 2)) / n)) for p in q.at}) if m(u, v) else 0
              for v in range(n)] for u in range(n)]
        same(c, o.outputs[out].i, e, flux(f), 'image with the defocus added' if s > 0 else 'image with the defocus removed')
        c.check(o.outputs[out].generation_time == 1, 'marked as of this step')


def harnesses(tier):
    r = []
    pix = [(0, 0), (0, 1), (1, 0), (1, 1)]
    pairs = [(a, b) for i, a in enumerate(pix) for b in pix[i + 1:]]
    if tier == 'quick':
        some = [((0, 0), (0, 1)), ((0, 0), (1, 0)), ((0, 0), (1, 1)), ((0, 1), (1, 0))]
    else:
        some = pairs
    for p in some:
        t = f'{p[0][0]}{p[0][1]}{p[1][0]}{p[1][1]}'
        r.append(H(f'sh {t}', h_sh, phases=p, amps=[]))
        r.append(H(f'sh fine {t}', h_sh, rel=0.6, N=10, cut=6, phases=p, amps=[]))
        r.append(H(f'pyramid {t}', h_pyramid, phases=p, amps=()))
        r.append(H(f'zernike {t}', h_zernike, phases=p, amps=[]))
    r.append(H('sh light', h_sh, phases=[(0, 1)], amps=[(0, 1), (1, 0)]))
    r.append(H('sh stop', h_sh, fov=1, phases=pairs[0], amps=[]))
    r.append(H('sh stop fine', h_sh, rel=0.8, N=10, cut=8, fov=1, phases=pairs[1], amps=[]))
    r.append(H('sh round', h_sh, rel=0.6, N=10, cut=6, square=False, phases=pairs[2], amps=[]))
    r.append(H('sh odd', h_sh, px=3, rel=0.45, N=6, cut=4, fov=1.4, phases=[(0, 1)], amps=[]))
    r.append(H('sh lenslets', h_sh, n=4, lens=2, phases=[(0, 0), (2, 1), (1, 2)], amps=[(0, 3), (3, 1)]))
    r.append(H('sh tilt', h_sh_tilt))
    r.append(H('pyramid light', h_pyramid, phases=(), amps=((0, 0), (1, 0))))
    r.append(H('pyramid stop', h_pyramid, stop=0.75, phases=((0, 0), (0, 1)), amps=()))
    r.append(H('pyramid planes', h_pyramid, stop=0.75, planes=True, amp=0.4, K=4))
    r.append(H('pyramid small', h_pyramid, pup=1, N=8, res=4, phases=((0, 1),), amps=()))
    r.append(H('pyramid near', h_pyramid, dist=1.0, min_pup_dist=1.0, phases=((0, 0), (1, 1)), amps=()))
    r.append(H('pyramid circular', h_pyramid, amp=0.4, K=4, phases=((0, 0),)))
    for kind in ('vertical', 'horizontal', 'alternating'):
        fr = 3 if kind == 'alternating' else 1
        r.append(H(f'pyramid {kind}', h_pyramid, amp=0.4, K=3, kind=kind, frames=fr, phases=((0, 0),)))
        r.append(H(f'planes {kind}', h_pyramid, amp=0.4, K=3, kind=kind, frames=fr, stop=0.75, planes=True, phases=((0, 1),), amps=()))
    r.append(H('roof', h_roof))
    r.append(H('roof circular', h_roof, K=4, amp=0.4, phases=((0, 1),)))
    r.append(H('roof stop', h_roof, stop=0.75, phases=((0, 0), (1, 1))))
    for pup in (3, 8, 10):
        r.append(H(f'geometry {pup}', h_geometry, pup=pup))
    r.append(H('geometry res', h_geometry, res=None))
    r.append(H('geometry margin', h_geometry, res=None, margin=2, pup=5))
    r.append(H('room', h_room))
    r.append(H('room given', h_room, given=True))
    for kind in ('circular', 'vertical'):
        r.append(H(f'steps {kind}', h_steps, kind=kind))
        r.append(H(f'default {kind}', h_default, kind=kind))
    r.append(H('kind', h_kind))
    for kind in ('circular', 'vertical', 'horizontal', 'alternating'):
        for K in (4, 5):
            r.append(H(f'law {kind} {K}', h_law, kind=kind, K=K))
    r.append(H('embed', h_embed))
    r.append(H('zernike wide', h_zernike, spot=0.5, shift=1.0, stop=0.8, phases=[(0, 0)], amps=[]))
    r.append(H('curvature', h_curvature))
    return r
