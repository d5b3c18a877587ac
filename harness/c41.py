"""C41: calibration objects keep what the calibration data show."""
import os
from engine.common import H
from .util import value, step, quiet, rejects

BOUNDS = ('dark frames: 1-3 frames per acquisition, every schedule of starts over 5 steps, a reset or a new number of frames at every step; slope nulls of '
          '1-4 steps; reconstructors of 1-2 sensors with 2 modes and 3 slopes; 1x1 to 3x3 lenslets of 1-2 pixels, every image and threshold; pyramid '
          'pupils of 8x8 and 10x10 frames, every brightness of pupils, background and a doubtful pixel, every pair of thresholds, 1-4 frames')
OUTSIDE = ('frames that are not a whole number of pixels per lenslet; the estimate of central obstructions; saving over existing files; '
           'minimum variance reconstructors (C29)')
ASSUMPTIONS = ['FITS files are replaced by a store that keeps header and data in the symbolic runs', 'interaction matrices are well conditioned']


def there(c):
    return os.path.join(str(c.tmp), 'cal')


def pixels(c, v):
    from specula.data_objects.pixels import Pixels
    p = Pixels(len(v[0]), len(v), target_device_idx=-1, precision=0)
    p.pixels = c.xp.array(v)
    return p


# --- dark frames ------------------------------------------------------------------------------

def dark(c, n, p, **ins):
    from specula.processing_objects.dynamic_dark_calibrator import DynamicDarkCalibrator
    o = DynamicDarkCalibrator(there(c), n, target_device_idx=-1, precision=0)
    o.inputs['in_pixels'].set(p)
    for k, v in ins.items():
        o.inputs[k].set(v)
    o.setup()
    return o


def h_dark(c, n=2, steps=5, reset=None, more=None, shape=(1, 2)):
    """mean of the frames that follow a start, subtracted from all the later ones"""
    p = pixels(c, [[0.0] * shape[1]] * shape[0])
    ins = {k: value(c, c.xp.array(1.0)) for k in ('in_trigger', 'in_reset', 'in_nframes')}
    o = dark(c, n, p, **ins)
    d, acc, left, need, since = 0 * p.pixels, None, 0, n, None
    for t in range(1, steps + 1):
        x = c.arr(f'p{t}', shape, -10, 100)
        p.pixels = x
        p.generation_time = t
        if reset == t:
            ins['in_reset'].generation_time = t
            d = 0 * d
        if more == t:
            ins['in_nframes'].value = 3
            ins['in_nframes'].generation_time = t
        elif c.flag(f'start{t}'):
            ins['in_trigger'].generation_time = t
            acc, left, need = 0 * d, n, n
        with quiet():
            step([o], t)
        if more == t:
            n = 3
        sub = o.outputs['out_subtracted_pixels']
        c.close(sub.pixels, x - d, 'pixels without the dark frame', 1e-6)
        c.check(sub.generation_time == t, 'subtracted at every step')
        if left:
            acc = acc + x
            left -= 1
            if left == 0:
                d, since = acc / need, t
        out = o.outputs['out_darkframe']
        c.close(out.pixels, d, 'dark frame: mean of the frames of the last acquisition', 1e-6)
        if since is not None:
            c.check(out.generation_time == since, 'dark frame marked as of the end of its acquisition')


def h_dark_file(c, ext=''):
    """a saved dark frame is used by whom loads it"""
    p = pixels(c, [[0.0, 0.0]])
    start, save = value(c, c.xp.array(1.0)), value(c, None)
    save.value = 'one' + ext
    o = dark(c, 2, p, in_trigger=start, in_save=save)
    frames = [c.arr(f'p{t}', (1, 2), 0, 100) for t in (1, 2, 3)]
    for t in (1, 2, 3):
        p.pixels = frames[t - 1]
        p.generation_time = t
        if t == 1:
            start.generation_time = t
        if t == 3:
            save.generation_time = t
        with quiet():
            step([o], t)
    d = (frames[0] + frames[1]) / 2
    q = pixels(c, [[0.0, 0.0]])
    load = value(c, None)
    r = dark(c, 2, q, in_load=load)
    for t, name in ((1, 'none'), (2, 'one' + ext), (3, None)):
        load.value = name
        if name:
            load.generation_time = t
        q.pixels = frames[t - 1]
        q.generation_time = t
        with quiet():
            step([r], t)
        known = 0 * d if t == 1 else d
        c.close(r.outputs['out_darkframe'].pixels, known, 'dark frame loaded', 1e-6)
        c.close(r.outputs['out_subtracted_pixels'].pixels, frames[t - 1] - known, 'and subtracted', 1e-6)


def h_dark_frames(c):
    from specula.processing_objects.dynamic_dark_calibrator import DynamicDarkCalibrator
    n = c.pickint('n', -2, 3)
    c.check(rejects(lambda: DynamicDarkCalibrator(there(c), n, target_device_idx=-1), ValueError) == (n <= 0), 'at least one frame')
    p = pixels(c, [[0.0, 0.0]])
    new, start = value(c, None), value(c, c.xp.array(1.0))
    o = dark(c, 2, p, in_nframes=new, in_trigger=start)
    new.value = c.pick('new', (-1, 0, 1, '3', 'many'))
    new.generation_time = 1
    want = {1: 1, '3': 3}.get(new.value, 2)
    acc = 0
    for t in range(1, 6):
        p.pixels = c.arr(f'p{t}', (1, 2), 0, 100)
        p.generation_time = t
        if t == 2:
            start.generation_time = t
        with quiet():
            step([o], t)
        if 2 <= t < 2 + want:
            acc = acc + p.pixels
    c.close(o.outputs['out_darkframe'].pixels, acc / want, 'number of frames changed only to valid ones', 1e-6)


# --- slope null, reconstructors ------------------------------------------------------------------

def h_null(c, ext=''):
    """the mean of the slopes of all steps where they were refreshed"""
    from specula.processing_objects.sn_calibrator import SnCalibrator
    from specula.data_objects.slopes import Slopes
    s = Slopes(slopes=c.xp.zeros(4), target_device_idx=-1, precision=0)
    o = SnCalibrator(there(c), output_tag=c.pick('tag', ('auto', None, 'sn' + ext)), tag_template='sn' + ext, target_device_idx=-1, precision=0)
    o.inputs['in_slopes'].set(s)
    o.setup()
    tot, n = 0, 0
    for t in range(1, 5):
        new = t == 1 or c.flag(f'new{t}')
        if new:
            s.slopes = c.arr(f's{t}', 4, -3, 3)
            s.generation_time = t
            tot, n = tot + s.slopes, n + 1
        step([o], t)
    o.finalize()
    r = Slopes.restore(os.path.join(there(c), 'sn.fits'), target_device_idx=-1)
    c.close(r.slopes, tot / n, 'slope null: mean of the slopes', 1e-5)


def matrix(c, name):
    from specula.data_objects.intmat import Intmat
    m = c.const([[2.0, 0.5], [-1.0, 3.0], [0.25, -0.5]]) + 0 * c.arr(name, (3, 2), -0.1, 0.1)
    for i in range(2):
        m[i, i] = m[i, i] + c.real(f'{name}{i}', -0.5, 0.5)
    return Intmat(m, target_device_idx=-1, precision=0)


def inverts(c, tag, im, n):
    from specula.data_objects.recmat import Recmat
    r = Recmat.restore(os.path.join(there(c), tag + '.fits'), target_device_idx=-1).recmat
    c.check(r.shape == (n, 3), 'one row per mode')
    m = im.intmat[:, :n]
    i = r @ m
    for a in range(n):
        for b in range(n):
            c.close(i[a, b], float(a == b), 'the reconstructor gives back the modes', 1e-4)
    h = m @ r
    for a in range(3):
        for b in range(a):
            c.close(h[a, b], h[b, a], 'with least squares', 1e-4)


def h_rec(c, n=2):
    from specula.processing_objects.rec_calibrator import RecCalibrator
    im = matrix(c, 'm')
    tag = c.pick('tag', ('auto', None, 'rec'))
    o = RecCalibrator(n, there(c), tag, tag_template='rec', target_device_idx=-1, precision=0)
    o.inputs['in_intmat'].set(im)
    o.setup()
    im.generation_time = 1
    step([o], 1)
    o.finalize()
    inverts(c, 'rec', im, n)


def h_recs(c, n=2):
    from specula.processing_objects.multi_rec_calibrator import MultiRecCalibrator
    ims = [matrix(c, 'a'), matrix(c, 'b')]
    ims[1].intmat[0, 1] += 1.0
    full = matrix(c, 'f')
    full.intmat[1, 0] -= 1.0
    o = MultiRecCalibrator(n, there(c), rec_tag=c.pick('tag', ('auto', 'rec')), rec_tag_template='rec', full_rec_tag=c.pick('full', ('auto', 'full')),
                           full_rec_tag_template='full', target_device_idx=-1, precision=0)
    o.inputs['intmat_list'].set(ims)
    o.inputs['full_intmat'].set(full)
    o.setup()
    for m in ims + [full]:
        m.generation_time = 1
    step([o], 1)
    o.finalize()
    for tag, m in (('rec0', ims[0]), ('rec1', ims[1]), ('full', full)):
        inverts(c, tag, m, n)


def h_present(c, which='sn'):
    """existing files are not overwritten unless told to"""
    from specula.processing_objects.sn_calibrator import SnCalibrator
    from specula.processing_objects.rec_calibrator import RecCalibrator
    from specula.processing_objects.multi_rec_calibrator import MultiRecCalibrator
    from specula.data_objects.slopes import Slopes
    from specula.data_objects.intmat import Intmat
    d = there(c)
    os.makedirs(d, exist_ok=True)
    K = dict(target_device_idx=-1)
    ow = c.flag('overwrite')
    make = {'sn': lambda tag: SnCalibrator(d, output_tag=tag, overwrite=ow, **K),
            'rec': lambda tag: RecCalibrator(2, d, tag, overwrite=ow, **K),
            'full': lambda tag: MultiRecCalibrator(2, d, rec_tag='no', full_rec_tag=tag, overwrite=ow, **K)}

    def several(tag):
        o = MultiRecCalibrator(2, d, rec_tag=tag[:-1], full_rec_tag='no', overwrite=ow, **K)
        ims = [Intmat(c.xp.zeros((3, 2)), **K) for _ in range(2)]
        o.inputs['intmat_list'].set(ims)
        o.inputs['full_intmat'].set(Intmat(c.xp.zeros((3, 2)), **K))
        o.setup()
    make['each'] = several
    Slopes(slopes=c.xp.zeros(2), **K).save(os.path.join(d, 'was1.fits'), overwrite=True)
    c.check(rejects(lambda: make[which]('was1'), FileExistsError) == (not ow), 'an existing file stops the calibration, unless overwriting')
    c.check(not rejects(lambda: make[which]('new1')), 'a new one does not')


# --- Shack-Hartmann --------------------------------------------------------------------------------

def h_subaps(c, n=2, px=2, kind='i', only=None):
    """lenslets with more light than a fraction of that of the brightest"""
    from specula.processing_objects.sh_subap_calibrator import ShSubapCalibrator
    from specula.data_objects.intensity import Intensity
    from specula.data_objects.subap_data import SubapData
    N = n * px
    th = c.real('th', 0.05, 0.95)
    o = ShSubapCalibrator(n, there(c), th, output_tag='sub', target_device_idx=-1, precision=0)
    img = c.arr('i', (N, N), 0, 100)
    if only is not None:
        for y in range(N):
            for x in range(N):
                if (y, x) not in only:
                    img[y, x] = 0.0 * img[y, x] + float((3 * y + 5 * x) % 7)
    if kind == 'i':
        d = Intensity(N, N, target_device_idx=-1, precision=0)
        d.i = img
    else:
        d = pixels(c, [[0.0] * N] * N)
        d.pixels = img
    c.assume(img[-1, -1] >= 1)
    o.inputs['in_i' if kind == 'i' else 'in_pixels'].set(d)
    o.setup()
    d.generation_time = 1
    light = {(a, b): img[a * px:(a + 1) * px, b * px:(b + 1) * px].sum() for a in range(n) for b in range(n)}
    step([o], 1)
    o.finalize()
    s = SubapData.restore(os.path.join(there(c), 'sub.fits'), target_device_idx=-1)
    got = {}
    for k in range(s.n_subaps):
        got[int(s.display_map[k])] = [int(v) for v in s.idxs[k]]
    c.check(len(got) == s.n_subaps, 'each lenslet once')
    c.check(s.nx == n and s.ny == n and s.np_sub == px, 'number of lenslets and of their pixels')
    c.close(s.energy_th, th, 'threshold kept', 1e-6)
    for (a, b), e in light.items():
        lit = c.And(*[e > th * f for f in light.values()])
        # nothing is claimed of lenslets that are exactly at the threshold
        if a * n + b in got:
            c.check(c.And(*[e >= th * f * 0.99999 for f in light.values()]), 'lenslets with light are selected')
            c.check(got[a * n + b] == [(a * px + y) * N + b * px + x for y in range(px) for x in range(px)], 'with the pixels of their image')
        else:
            c.check(c.Or(*[e <= th * f * 1.00001 for f in light.values()]), 'lenslets without light are not')


def h_subaps_dark(c):
    from specula.processing_objects.sh_subap_calibrator import ShSubapCalibrator
    o = ShSubapCalibrator(2, there(c), 0.5, output_tag='sub', target_device_idx=-1, precision=0)
    d = pixels(c, [[0.0] * 4] * 4)
    use = c.pickint('inputs', 0, 3)
    from specula.data_objects.intensity import Intensity
    if use & 1:
        o.inputs['in_pixels'].set(d)
    if use & 2:
        o.inputs['in_i'].set(Intensity(4, 4, target_device_idx=-1))
    c.check(rejects(o.setup, ValueError) == (use in (0, 3)), 'one image, pixels or intensity')
    if use == 1:
        d.generation_time = 1
        c.check(rejects(lambda: step([o], 1), ValueError), 'an image without light has no lenslets')


# --- pyramid pupils ----------------------------------------------------------------------------------

def pyr(c, d, kind='in_i', dynamic=False, ins={}, **k):
    from specula.processing_objects.pyr_pupdata_calibrator import PyrPupdataCalibrator
    from specula.processing_objects.dynamic_pyr_pupdata_calibrator import DynamicPyrPupdataCalibrator
    o = (DynamicPyrPupdataCalibrator if dynamic else PyrPupdataCalibrator)(there(c), auto_detect_obstruction=False, target_device_idx=-1,
                                                                           precision=0, **k)
    o.inputs[kind].set(d)
    for a, b in ins.items():
        o.inputs[a].set(b)
    o.setup()
    return o


def frame(c, N, kind='in_i'):
    from specula.data_objects.intensity import Intensity
    if kind == 'in_i':
        return Intensity(N, N, target_device_idx=-1, precision=0)
    return pixels(c, [[0.0] * N] * N)


def put(c, d, v):
    v = c.xp.array(v)
    if hasattr(d, 'i'):
        d.i = v
    else:
        d.pixels = v


# quadrants, in the order of the pupils in the data
QUADS = ((0, 1), (0, 0), (1, 0), (1, 1))


def pupil(px, q, N):
    """centre and radius (of the disc of the same area) of the lit pixels of a quadrant"""
    return sum(x for y, x in px) / len(px), sum(y for y, x in px) / len(px), (len(px) / 3.141592653589793) ** 0.5


def disc(cx, cy, r, N):
    return {y * N + x for y in range(N) for x in range(N) if (x - cx) ** 2 + (y - cy) ** 2 <= r * r + 1e-9}


def judge(c, p, masks, N, own):
    """pupil data of four sets of lit pixels (y, x)"""
    geo = [pupil(masks[q], q, N) for q in QUADS]
    for k, (cx, cy, r) in enumerate(geo):
        c.close(p.cx[k], cx, 'centre of the pupil', 1e-5)
        c.close(p.cy[k], cy, 'centre of the pupil', 1e-5)
        c.close(p.radius[k], r, 'radius of the pupil', 1e-5)
    c.check([int(v) for v in p.framesize] == [N, N], 'size of the frame')
    got = [[int(v) for v in p.ind_pup[:, k]] for k in range(4)]
    if own:
        for k, (cx, cy, r) in enumerate(geo):
            c.check({v for v in got[k] if v >= 0} == disc(cx, cy, r, N), 'pixels of each pupil')
    else:
        r = max(g[2] for g in geo)
        # the pixels of one pupil, moved by whole pixels
        ref = geo[1]
        for k, (cx, cy, _) in enumerate(geo):
            dx, dy = round(cx - ref[0]), round(cy - ref[1])
            want = [(v // N + dy) * N + v % N + dx for v in sorted(disc(ref[0], ref[1], r, N)) if 0 <= v // N + dy < N and 0 <= v % N + dx < N]
            c.check([v for v in got[k] if v >= 0] == want, 'the same pixels in each pupil, in the same order')
    c.check(bool(p.slopes_from_intensity) == own, 'kind of slopes')


def h_pupils(c, N=8, own=False, pattern=((1, 1), (1, 2), (2, 1), (2, 2)), doubt=(0, 1, 3, 1), kind='in_i', offs=None, faint=(0, 9), other=None):
    """pixels above both thresholds"""
    h = N // 2
    thr1, thr2 = c.real('thr1', 0.05, 0.4), c.real('thr2', 0.05, 0.9)
    d = frame(c, N, kind)
    o = pyr(c, d, kind, thr1=thr1, thr2=thr2, slopes_from_intensity=own)
    v = [[0.0] * N for _ in range(N)]
    masks = {}
    for q, (a, b) in enumerate(QUADS):
        bright, back = c.real(f'b{q}', 18.5 if faint[0] > 9 else 10, 20), c.real(f'g{q}', 0, 0.2)
        oy, ox = (offs or {}).get((a, b), (0, 0))
        px = [(a * h + y + oy, b * h + x + ox) for y, x in (other or {}).get((a, b), pattern)]
        for y in range(h):
            for x in range(h):
                v[a * h + y][b * h + x] = back
        for y, x in px:
            v[y][x] = bright
        masks[a, b] = list(px)
        if (a, b) == doubt[:2]:
            # one pixel may be lit or not
            y, x = a * h + doubt[2], b * h + doubt[3]
            w = c.real('w', *faint)
            v[y][x] = w
            lo = c.ite(w < back, w, back)
            s1 = lo + (bright - lo) * thr1
            c.assume(c.Or(w < s1 * 0.999, w > s1 * 1.001))
            mean = c.ite(w < s1, bright, (len(px) * bright + w) / (len(px) + 1))
            c.assume(c.Or(w < mean * thr2 * 0.999, w > mean * thr2 * 1.001))
            lit = c.And(w >= s1, w >= mean * thr2)
            if c.decide(lit):
                masks[a, b].append((y, x))
    put(c, d, v)
    d.generation_time = 1
    step([o], 1)
    p = o.outputs['out_pupdata']
    c.check(p.generation_time == 1, 'marked as of this step')
    judge(c, p, masks, N, own)


def square(h, y0, x0, k=2):
    return [(y0 + y, x0 + x) for y in range(k) for x in range(k)]


def image(c, N, at, name):
    """four lit squares with corners at given places of each quadrant; the masks"""
    h = N // 2
    v = [[0.0] * N for _ in range(N)]
    m = {}
    for q, (a, b) in enumerate(QUADS):
        f = c.real(f'{name}{q}', 5, 6)
        m[a, b] = [(a * h + y, b * h + x) for y, x in square(h, *at)]
        for y, x in m[a, b]:
            v[y][x] = f
    return v, m


def union(a, b):
    return {q: sorted(set(a[q]) | set(b[q])) for q in a}


def h_times(c, N=8, dt=2, dynamic=False):
    """frames are added up between calibrations, and not after"""
    NS = 10 ** 9
    d = frame(c, N)
    o = pyr(c, d, dynamic=dynamic, dt=dt, slopes_from_intensity=True, thr1=0.2, thr2=0.3)
    p = o.outputs['out_pupdata']
    since, last = None, None
    ats = [(0, 0), (1, 1), (2, 2), (2, 0), (0, 2)]
    for t in range(1, 6):
        v, m = image(c, N, ats[t - 1], f'f{t}_')
        put(c, d, v)
        d.generation_time = t * NS
        step([o], t * NS)
        since = m if since is None else union(since, m)
        if dt is None or t % dt == 0:
            last, since = (t, since), None
        if last:
            c.check(p.generation_time == last[0] * NS, 'calibrated at multiples of the integration time')
            judge(c, p, last[1], N, True)
        else:
            c.check(p.generation_time < NS, 'not calibrated before the integration time')


def h_dynamic(c, N=8):
    """thresholds, integration time and tag can be changed; a bad frame does not stop or change anything"""
    from specula.data_objects.pupdata import PupData
    NS = 10 ** 9
    d = frame(c, N)
    ins = {k: value(c, None) for k in ('in_thr1', 'in_thr2', 'in_dt', 'in_save', 'in_output_tag')}
    o = pyr(c, d, dynamic=True, ins=ins, slopes_from_intensity=True, output_tag='first', thr1=0.1, thr2=0.25)
    p, s = o.outputs['out_pupdata'], o.outputs['out_params']
    masks = {}
    w = c.real('w', 2, 3)

    def go(t, lit=True, **new):
        v, m = image(c, N, (1, 1), f'f{t}_')
        faint = [(a * N // 2, b * N // 2) for a, b in QUADS]
        for y, x in faint:
            v[y][x] = w
        put(c, d, v if lit else [[0.0] * N] * N)
        d.generation_time = t * NS
        for k, x in new.items():
            ins[k].value = x
            ins[k].generation_time = t * NS
        with quiet():
            step([o], t * NS)
        c.check(s.generation_time == t * NS, 'status of this step')
        return m, {q: m[q] + [f] for q, f in zip(QUADS, faint)}

    def told(ok, dt, thr1, thr2):
        c.check((s.value['status'] == 'OK') == ok, 'status')
        c.check(s.value['dt'] == dt, 'integration time told')
        c.close(s.value['thr1'], thr1, 'threshold told', 1e-9)
        c.close(s.value['thr2'], thr2, 'threshold told', 1e-9)

    m, more = go(1)
    judge(c, p, more, N, True)
    told(True, None, 0.1, 0.25)
    m, more = go(2, in_thr2='0.8')
    judge(c, p, m, N, True)
    told(True, None, 0.1, 0.8)
    m, more = go(3, in_thr2=0.1, in_thr1='wrong')
    judge(c, p, more, N, True)
    told(True, None, 0.1, 0.1)
    m, more = go(4, in_thr1=0.7)
    judge(c, p, m, N, True)
    told(True, None, 0.7, 0.1)
    go(5, lit=False)
    c.check(p.generation_time == 4 * NS, 'pupils not refreshed by a dark frame')
    judge(c, p, m, N, True)
    c.check(s.value['status'] != 'OK', 'failure told')
    go(6, in_dt='4')
    told(True, 4.0, 0.7, 0.1)
    c.check(p.generation_time == 4 * NS, 'not before the new integration time')
    go(7, in_dt=c.pick('bad', (0, -1.0, 'x')), in_output_tag='second')
    told(True, 4.0, 0.7, 0.1)
    go(8, in_save='now')
    c.check(p.generation_time == 8 * NS, 'at the new integration time')
    judge(c, p, m, N, True)
    o.finalize()
    for tag in ('now', 'second'):
        judge(c, PupData.restore(os.path.join(there(c), tag + '.fits'), target_device_idx=-1), m, N, True)
    c.check(rejects(lambda: PupData.restore(os.path.join(there(c), 'first.fits'), target_device_idx=-1)), 'saved with the new tag only')


def h_pupils_bad(c, N=8, own=False):
    """a dark quadrant is refused"""
    d = frame(c, N)
    o = pyr(c, d, slopes_from_intensity=own)
    v, m = image(c, N, (1, 1), 'f')
    q = c.pickint('dark', 0, 4)
    if q < 4:
        for y, x in m[QUADS[q]]:
            v[y][x] = 0.0
    put(c, d, v)
    d.generation_time = 1
    c.check(rejects(lambda: step([o], 1)) == (q < 4), 'all four pupils must be lit')
    from specula.processing_objects.pyr_pupdata_calibrator import PyrPupdataCalibrator
    dt = c.real('dt', -1, 1)
    c.check(c.decide(dt <= 0) == rejects(lambda: PyrPupdataCalibrator(there(c), dt=dt, target_device_idx=-1), ValueError), 'positive integration time')
    e = PyrPupdataCalibrator(there(c), target_device_idx=-1)
    c.check(rejects(e.setup, ValueError), 'pixels or intensity')


def harnesses(tier):
    r = []
    for n in (1, 2, 3):
        r.append(H(f'dark {n}', h_dark, n=n))
    r.append(H('dark large', h_dark, n=2, steps=3, shape=(2, 3)))
    for t in (2, 3, 4):
        r.append(H(f'dark reset {t}', h_dark, n=2, steps=4, reset=t))
        r.append(H(f'dark frames {t}', h_dark, n=2, steps=6 if tier != 'quick' else 5, more=t))
    r += [H('dark file', h_dark_file), H('dark file named', h_dark_file, ext='.fits'), H('dark number of frames', h_dark_frames)]
    r += [H('slope null', h_null), H('slope null named', h_null, ext='.fits')]
    for n in (1, 2):
        r += [H(f'reconstructor {n}', h_rec, n=n), H(f'reconstructors {n}', h_recs, n=n)]
    for w in ('sn', 'rec', 'full', 'each'):
        r.append(H(f'present {w}', h_present, which=w))
    r += [H('lenslets 1', h_subaps, n=1, px=2), H('lenslets 2x1', h_subaps, n=2, px=1), H('lenslets 2x2', h_subaps, n=2, px=2, kind='p')]
    r += [H('lenslets 3x1', h_subaps, n=3, px=1, only=[(0, 1), (1, 0), (2, 1), (2, 2)]),
          H('lenslets 3x2', h_subaps, n=3, px=2, only=[(0, 3), (4, 1), (5, 5)], kind='p')]
    r.append(H('lenslets inputs', h_subaps_dark))
    L = ((1, 1), (1, 2), (2, 1))
    big = [(y, x) for y in (1, 2, 3) for x in (1, 2, 3)]
    for own, faint in ((False, (0, 9)), (True, (0.3, 0.4)), (True, (18.5, 20))):
        t = ('own lit' if faint[0] > 9 else 'own unlit') if own else 'same'
        r.append(H(f'pupils {t}', h_pupils, own=own, faint=faint))
        r.append(H(f'pupils {t} last', h_pupils, own=own, doubt=(1, 1, 0, 2), pattern=L, kind='in_pixels', faint=faint))
        r.append(H(f'pupils {t} uneven', h_pupils, own=own, faint=faint, other={(1, 1): big}))
        r.append(H(f'pupils {t} moved', h_pupils, own=own, N=10, doubt=(1, 0, 4, 2), pattern=big, offs={(0, 1): (1, 0), (1, 1): (-1, 1), (1, 0): (0, 1)},
                   faint=faint))
    for own in (False, True):
        t = 'own' if own else 'same'
        r.append(H(f'pupils {t} dark', h_pupils_bad, own=own))
    for dt in (None, 1, 2, 3):
        r.append(H(f'times {dt}', h_times, dt=dt))
    r += [H('times dynamic', h_times, dt=2, dynamic=True), H('dynamic', h_dynamic)]
    return r
