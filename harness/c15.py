"""C15: detector readout."""
import contextlib

from engine.common import H
from .util import simul_params, step, quiet

BOUNDS = ('images of 2x2 to 4x6 pixels with arbitrary counts, binning 1-3, arbitrary quantum efficiency, dark, background and readout levels, '
          'gains and pixel gains; every outcome of the random generators (whole numbers of photons for Poisson draws, any value for the others)')
OUTSIDE = 'the distribution of the pseudo-random generators themselves; GPU kernels'
ASSUMPTIONS = ['random numbers are replaced by arbitrary values, or by the mean of their distribution']


class Source:
    """stands in for numpy's generators: draws are arbitrary values, or the mean of the requested distribution"""
    def __init__(self, c, mean=False):
        self.c, self.mean, self.n, self.calls, self.drawn, self.seeds = c, mean, 0, [], {}, []

    def new(self, seed=None, **k):
        self.seeds.append(seed)
        return self

    def _keep(self, what, v):
        self.drawn[what] = v.copy()
        return v

    def _name(self):
        self.n += 1
        return f'draw{self.n}_'

    def _shape(self, *a):
        for x in a:
            if x is not None and getattr(x, 'shape', ()) != ():
                return tuple(x.shape)
        for x in a:
            if isinstance(x, tuple):
                return x
            if isinstance(x, int):
                return (x,)
        return (1,)

    def _bc(self, v, shape):
        return self.c.xp.zeros(shape) + v

    def poisson(self, lam=1.0, size=None):
        sh = self._shape(size, lam)
        self.calls.append(('poisson', lam.copy()))
        return self._keep('poisson', self._bc(lam, sh) if self.mean else self.ints(sh, 0, 5))

    def ints(self, sh, lo, hi):
        nm = self._name()
        r = self.c.xp.zeros(sh)
        for k in range(r.size):
            r[divmod(k, sh[1]) if len(sh) == 2 else k] = 1.0 * self.c.int(f'{nm}{k}', lo, hi)
        return r

    def gamma(self, shape, scale=1.0, size=None):
        sh = self._shape(size, shape, scale)
        self.calls.append(('gamma', shape.copy()))
        return self._keep('gamma', self._bc(shape * scale, sh) if self.mean else self.c.arr(self._name(), sh, 0, 4000))

    def standard_normal(self, size=None, **k):
        sh = self._shape(size)
        self.calls.append(('normal', None))
        return self._keep('normal', self._bc(0.0, sh) if self.mean else self.c.arr(self._name(), sh, -4, 4))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def binomial(self, n, p, size=None):
        sh = self._shape(size)
        self.calls.append(('binomial', p))
        return self._bc(n * p, sh) if self.mean else self.ints(sh, 0, n)


@contextlib.contextmanager
def source(c, src):
    r = c.xp.random
    names = ('default_rng', 'RandomState', 'binomial', 'poisson', 'gamma', 'standard_normal', 'normal')
    old = {k: r.__dict__[k] for k in names if k in r.__dict__}
    try:
        for k in names:
            setattr(r, k, src.new if k in ('default_rng', 'RandomState') else getattr(src, k))
        yield src
    finally:
        for k in names:
            if k in old:
                setattr(r, k, old[k])
            else:
                delattr(r, k)


def frame(c, shape, binning=1, hi=100, image=None, mean=True, **k):
    """one exposure: -> (detector, incident image, pixels, source)"""
    import warnings
    from specula.processing_objects.ccd import CCD
    from specula.data_objects.intensity import Intensity
    ny, nx = shape
    i = Intensity(nx, ny, target_device_idx=-1)
    img = c.arr('i', (ny, nx), 0, hi) if image is None else image
    src = Source(c, mean)
    with source(c, src), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        o = CCD(simul_params(), size=[nx, ny], dt=1.0, bandw=1.0, binning=binning, target_device_idx=-1, **k)
        o.inputs['in_i'].set(i)
        o.setup()
        i.i[:] = img
        t = o.seconds_to_t(1.0)
        i.generation_time = t
        step([o], t)
    return o, img, o.outputs['out_pixels'].pixels, src


def blocks(img, b):
    ny, nx = img.shape
    return {(y, x): sum(img[y * b + j, x * b + k] for j in range(b) for k in range(b)) for y in range(ny // b) for x in range(nx // b)}


def h_clean(c, shape, binning, gains=False):
    qe = c.real('qe', 0, 1)
    k = {}
    g = None
    if gains:
        g = k['pixelGains'] = c.arr('pg', (shape[0] // binning, shape[1] // binning), 0.5, 2)
    o, img, px, src = frame(c, shape, binning, quantum_eff=qe, readout_level=c.real('ron', 0, 9), darkcurrent_level=c.real('dark', 0, 9),
                            background_level=c.real('bg', 0, 9), cic_level=c.real('cic', 0, 1), **k)
    c.check(px.shape == (shape[0] // binning, shape[1] // binning), 'the output has one pixel per block')
    for p, s in blocks(img, binning).items():
        c.close(px[p], s * qe * (g[p] if gains else 1), 'without noise a pixel holds the light of its block times the quantum efficiency')
    c.check(not src.calls, 'no random numbers are drawn without noise')


def h_levels(c, dark, background):
    """levels are added exactly when they are enabled"""
    dl, bl = c.real('dark', 0, 9), c.real('bg', 0, 9)
    o, img, px, src = frame(c, (1, 2), darkcurrent_noise=dark, background_noise=background, darkcurrent_level=dl, background_level=bl)
    for e in range(2):
        c.close(px[0, e], img[0, e] + (dl if dark else 0) + (bl if background else 0), 'each level is added once if it is enabled')


def h_order(c):
    """the charge transfer matrices act on rows and columns"""
    m = c.arr('m', (2, 2, 2), -1, 1)
    o, img, px, src = frame(c, (2, 2), cte_noise=True, cte_mat=m)
    for y in range(2):
        for x in range(2):
            c.close(px[y, x], sum(m[y, j, 0] * img[j, k] * m[k, x, 1] for j in range(2) for k in range(2)), 'charge transfer mixes rows and columns')


def h_cic(c):
    o, img, px, src = frame(c, (1, 2), mean=False, cic_noise=True, cic_level=c.real('p', 0, 1))
    for e in range(2):
        d = px[0, e] - img[0, e]
        c.check(c.Or(d == 0, d == 1), 'clock-induced charges add at most one count')


def h_photon(c, mean, ron=False, dark=False, background=False, excess=False, bias=400, shape=(1, 2), binning=1, gains=False):
    """quantised output: photons converted to ADU and back"""
    ag = c.real('ADU_gain', 0.25, 8)
    eg = c.real('em', 2, 500) if excess else 1
    rl = c.real('ron', 0, 9)
    dl, bl = c.real('dark', 0, 4), c.real('bg', 0, 4)
    k = {}
    if excess:
        k['emccd_gain'] = eg
        ed = k['excess_delta'] = c.real('delta', 1, 2)
    pg = None
    if gains:
        pg = k['pixelGains'] = c.arr('pg', (shape[0] // binning, shape[1] // binning), 0.5, 2)
    qe = c.real('qe', 0.125, 1)
    o, img, px, src = frame(c, shape, binning, hi=20, mean=mean, photon_noise=True, readout_noise=ron, darkcurrent_noise=dark,
                            background_noise=background, excess_noise=excess, ADU_gain=ag, ADU_bias=bias, readout_level=rl,
                            darkcurrent_level=dl, background_level=bl, quantum_eff=qe, **k)
    lam = {p: s * qe + (dl if dark else 0) + (bl if background else 0) for p, s in blocks(img, binning).items()}
    c.check([n for n, _ in src.calls] == ['poisson'] + (['gamma'] if excess else []) + (['normal'] if ron else []),
            'each enabled noise is drawn once per frame')
    pcalls = [a for n, a in src.calls if n == 'poisson']
    for p in lam:
        if pcalls:
            c.close(pcalls[0][p], lam[p], 'photon noise is drawn around the detected light')
        adu = (px[p] + (dl if dark else 0)) * eg * ag + bias      # counts as the converter gives them
        q = c.toint(c.floor(adu + 0.5))
        c.close(adu, q, 'the detector outputs whole counts', tol=1e-5)
        c.check(adu > -1e-5, 'the counts of the detector are never negative')
        if mean:
            # every noise replaced by its mean: unbiased within half a count
            want = lam[p] * (pg[p] if gains else 1)
            c.check(abs(px[p] + (dl if dark else 0) - want) * eg * ag <= 0.5 + 1e-3, 'the mean output is the detected light')


def h_photon_draws(c, ron, excess=False, dark=False):
    """the output is the drawn photons plus the readout noise, rounded to counts"""
    ag, eg = c.real('ADU_gain', 0.25, 8), c.real('em', 2, 500)
    rl, dl = c.real('ron', 0, 9), c.real('dark', 0, 4)
    bias = c.int('bias', 0, 400)
    k = dict(excess_noise=True, emccd_gain=eg) if excess else {}
    if not excess:
        eg = 1
    o, img, px, src = frame(c, (1, 1), hi=20, mean=False, photon_noise=True, readout_noise=ron, ADU_gain=ag, ADU_bias=bias, readout_level=rl,
                            darkcurrent_noise=dark, darkcurrent_level=dl, **k)
    signal = src.drawn['gamma' if excess else 'poisson'][0, 0] + (src.drawn['normal'].ravel()[0] * rl * eg if ron else 0)
    adu = (px[0, 0] + (dl if dark else 0)) * eg * ag + bias
    c.check(c.Or(abs(adu - (signal * ag + bias)) <= 0.5 + 1e-3, c.And(abs(adu) <= 1e-4, signal * ag + bias <= 0.5 + 1e-3)),
            'the output is the drawn signal plus readout noise, rounded to whole counts and cut at zero')


def h_seeds(c):
    from specula.processing_objects.ccd import CCD
    seeds = [c.int(f'seed{k}', 0, 1000) for k in range(3)]
    with source(c, Source(c)) as src:
        CCD(simul_params(), size=[1, 1], dt=1.0, bandw=1.0, photon_seed=seeds[0], readout_seed=seeds[1], excess_seed=seeds[2],
            target_device_idx=-1)
    c.check(len(src.seeds) == 3, 'each noise has its own generator')
    for k in range(3):
        c.check(c.Or(*[x == seeds[k] for x in src.seeds]), 'the generators start from the configured seeds')


def h_excess(c, clampd=False):
    """gain noise keeps the mean and does not depend on the readout noise"""
    eg, ed = c.real('em', 2, 500), c.real('delta', 1, 2)
    img = c.arr('i', (1, 2), 0.001, 20) if not clampd else c.const([[0.0, 0.0]])
    o, img, px, src = frame(c, (1, 2), image=img, excess_noise=True, emccd_gain=eg, excess_delta=ed)
    for e in range(2):
        c.close(px[0, e], img[0, e] * eg, 'gain noise has the multiplied light as its mean')
        sh = [a for n, a in src.calls if n == 'gamma'][0]
        c.check(sh[0, e] > 0, 'gain noise is drawn with a positive shape')


def h_readout(c, excess):
    """readout noise is defined in photo-electrons at the input of the multiplication"""
    rl, eg = c.real('ron', 0, 9), c.real('em', 2, 500)
    k = dict(excess_noise=True, emccd_gain=eg) if excess else {}
    o, img, px, src = frame(c, (1, 2), mean=False, readout_noise=True, readout_level=rl, **k)
    for e in range(2):
        sig = src.drawn['gamma'][0, e] if excess else img[0, e]
        c.close(px[0, e], sig + src.drawn['normal'].ravel()[e] * rl * (eg if excess else 1), 'readout noise scales with its level and the multiplication gain')


def h_repeat(c):
    """each frame is read out afresh: frames do not accumulate"""
    from specula.processing_objects.ccd import CCD
    from specula.data_objects.intensity import Intensity
    bl = c.real('bg', 0, 9)
    o = CCD(simul_params(), size=[2, 2], dt=1.0, bandw=1.0, background_noise=True, background_level=bl, quantum_eff=0.5, binning=2,
            target_device_idx=-1)
    i = Intensity(2, 2, target_device_idx=-1)
    o.inputs['in_i'].set(i)
    o.setup()
    for n in (1, 2, 3):
        i.i[:] = c.arr(f'i{n}', (2, 2), 0, 100)
        t = o.seconds_to_t(float(n))
        i.generation_time = t
        step([o], t)
        c.close(o.outputs['out_pixels'].pixels[0, 0], sum(i.i[y, x] for y in range(2) for x in range(2)) * 0.5 + bl, 'every frame is read out afresh')


def harnesses(tier):
    hs = [H('charge transfer', h_order), H('clock-induced charges', h_cic), H('frames', h_repeat)]
    for sh, b in (((2, 2), 1), ((2, 4), 2), ((4, 6), 2), ((3, 6), 3)):
        for g in (False, True):
            hs.append(H(f'clean {sh[0]}x{sh[1]} binning {b}{" gains" if g else ""}', h_clean, shape=sh, binning=b, gains=g))
    for d in (False, True):
        for b in (False, True):
            hs.append(H(f'levels dark {d} background {b}', h_levels, dark=d, background=b))
            hs.append(H(f'quantised mean dark {d} background {b}', h_photon, mean=True, dark=d, background=b))
    hs += [H('quantised mean binned', h_photon, mean=True, dark=True, shape=(2, 4), binning=2),
           H('quantised mean pixel gains', h_photon, mean=True, gains=True),
           H('quantised mean gain noise', h_photon, mean=True, excess=True, dark=True, shape=(1, 1)),
           H('quantised draws', h_photon, mean=False, dark=True, shape=(1, 1)),
           H('quantised draws readout', h_photon, mean=False, ron=True, dark=True, shape=(1, 1)),
           H('quantised draws small bias', h_photon, mean=False, ron=True, bias=2, shape=(1, 1)),
           H('quantised draws gain noise', h_photon, mean=False, excess=True, ron=True, shape=(1, 1)),
           H('seeds', h_seeds)] + [
           H(f'rounding{" readout" if r else ""}{" gain noise" if e else ""}{" dark" if d else ""}', h_photon_draws, ron=r, excess=e, dark=d)
           for r in (False, True) for e in (False, True) for d in (False, True)] + [
           H('gain noise', h_excess), H('gain noise of dark pixels', h_excess, clampd=True),
           H('readout noise', h_readout, excess=False), H('readout noise after multiplication', h_readout, excess=True)]
    return hs
