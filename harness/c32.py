"""C32: cached files identify the parameters they were computed from."""
import contextlib
import os
from engine.common import H
from .util import simul_params, quiet, rejects

BOUNDS = ('two requests with arbitrary real outer scales, pixel pitches, heights, diameters, shifts, rotations, magnifications and kernel parameters, '
          'seeds 1-3, two sizes and both precisions, one- and two-element outer scale lists; every kind of calibration file with names of up to 6 forms')
OUTSIDE = ('numbers closer than the resolution of floating point; collisions of cryptographic digests (taken as injective); custom masks and '
           'influence functions without a tag; sensor settings the automatic interaction matrix tag does not mention (modulation, pixel scale)')
ASSUMPTIONS = ['the computation behind the cache (random screen, kernel map) is replaced by one that returns its own arguments, in symbolic and '
               'concrete runs alike', 'a formatted number is the number rounded to the printed digits, or the number itself when printed in full']


class Digest:
    """stand-in for a hash object: the digest is the text itself"""
    def __init__(self, data=b''):
        self.data = data

    def update(self, b):
        self.data += b

    def hexdigest(self):
        return self.data.decode('utf-8').replace('/', '|')


def _enc(v):
    from engine.sym import is_sym
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(_enc(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ', '.join(f'{_enc(k)}: {_enc(x)}' for k, x in v.items()) + '}'
    if is_sym(v):
        return str(v)
    if hasattr(v, 'tolist'):
        return _enc(v.tolist())
    return repr(v)


@contextlib.contextmanager
def stubbed(c, targets, fn):
    """replace the computation behind the cache; digests are injective in symbolic runs"""
    import hashlib
    import json
    old = []
    for mod, name in targets:
        if hasattr(mod, name):
            old.append((mod, name, getattr(mod, name)))
            setattr(mod, name, fn)
    if c.symbolic:
        for name in ('sha1', 'md5', 'sha256', 'sha512', 'blake2b'):
            old.append((hashlib, name, getattr(hashlib, name)))
            setattr(hashlib, name, Digest)
        old.append((json, 'dumps', json.dumps))
        json.dumps = lambda v, *a, **k: _enc(v)
    try:
        yield
    finally:
        for mod, name, v in reversed(old):
            setattr(mod, name, v)


def directory(c, name):
    d = c.path(name)
    os.makedirs(d, exist_ok=True)
    return d


# ------------------------------------------------------------------ phase screens
def h_screens(c, vary=('L0', 'pitch'), n=1, history=1):
    """a screen obtained after other requests filled the cache is the one computed for its own parameters"""
    import specula.lib.phasescreen_manager as pm
    calls = []

    def calc(L0, dimension, pixel_pitch, seed=0, precision=None, verbose=False, xp=None, **k):
        calls.append(seed)
        vals = [L0, dimension, pixel_pitch, seed, precision] + [0.0] * 4
        return c.xp.asarray([1.0 * (v.reshape(-1)[0] if hasattr(v, 'reshape') else v) for v in vals], dtype=c.xp.float64).reshape(3, 3)

    def request(k):
        return dict(L0=[c.real(f'L0_{k}_{i}', 1.0, 100.0) if 'L0' in vary else 23.25 for i in range(n)],
                    dim=c.pick(f'dim{k}', [16, 32]) if 'dim' in vary else 16,
                    pitch=c.real(f'pitch{k}', 0.001, 1.0) if 'pitch' in vary else 0.05,
                    seed=[c.pickint(f'seed{k}_{i}', 1, 3) if 'seed' in vary else 1 + i for i in range(n)],
                    prec=c.pick(f'prec{k}', [0, 1]) if 'prec' in vary else 1)

    def ask(r, d):
        with quiet():
            return pm.phasescreens_manager(c.xp.asarray(r['L0']), r['dim'], r['pitch'], d, c.xp, r['prec'], seed=c.xp.asarray(r['seed']))

    reqs = [request(k) for k in range(history + 1)]
    with stubbed(c, [(pm, 'calc_phasescreen')], calc):
        d = directory(c, 'screens')
        for r in reqs[:-1]:
            ask(r, d)
        got = ask(reqs[-1], d)
        fresh = ask(reqs[-1], directory(c, 'fresh'))
        n_calls = len(calls)
        again = ask(reqs[-1], d)
    c.check(len(calls) == n_calls, 'the same request finds its file again')
    c.check(len(got) == len(fresh) == len(again) == n, 'one screen per seed')
    for i in range(n):
        c.close(got[i], fresh[i], 'the cached screen was generated with the same size, outer scale, pitch and seed', 1e-9)
        c.close(again[i], fresh[i], 'and so is the screen found again', 1e-9)


# ------------------------------------------------------------------ kernels
KERNEL = dict(pxscale=(0.1, 2.0), pupil_size_m=(1.0, 40.0), seeing=(0.1, 2.0), launcher_size=(0.1, 2.0), airmass=(1.0, 2.0), zfocus=(8e4, 1e5))


def h_kernel(c, vary, gaussian=False):
    import specula.data_objects.convolution_kernel as ck
    import specula.data_objects.gaussian_convolution_kernel as gk

    def lgs(nsh, diam, rl, zb, dz, profz, fwhmb, ps, ssp, overs=2, theta=(0.0, 0.0), **k):
        v = [diam, zb / 1e5, fwhmb, ps, overs]
        v += [rl[i] for i in range(3)] if hasattr(rl, '__len__') else [rl]
        v += [dz[i] / 1e5 for i in range(len(dz))] + [profz[i] for i in range(len(profz))] + [theta[0], theta[1]]
        v = [x if not hasattr(x, 'reshape') else x.reshape(-1)[0] for x in v]
        e = [s for x in v for s in (x + 100.0, 100.0 - x)]
        n = nsh * nsh * ssp * ssp
        e += [100.0] * (n - len(e))
        return c.xp.asarray(e[:n]).reshape(nsh * nsh, ssp, ssp)

    def real(name, k, lo, hi, default):
        return c.real(f'{name}{k}', lo, hi) if name in vary else default

    def request(k):
        r = dict(pxscale=real('pxscale', k, 0.1, 2.0, 0.5), pupil_size_m=real('pupil_size_m', k, 1.0, 40.0, 8.0))
        r['oversampling'] = c.pick(f'oversampling{k}', [1, 2]) if 'oversampling' in vary else 1
        r['positive_shift_tt'] = c.flag(f'shift{k}') if 'shift' in vary else True
        r['return_fft'] = 'real' not in vary
        if gaussian:
            r['spot_size'] = real('spot_size', k, 0.1, 2.0, 1.0)
        else:
            r['seeing'] = real('seeing', k, 0.1, 2.0, 0.5)
            r['launcher_size'] = real('launcher_size', k, 0.1, 2.0, 0.5)
            r['zfocus'] = real('zfocus', k, 8e4, 1e5, 9e4)
            r['theta'] = [real('theta', f'{k}_{i}', -1.0, 1.0, 0.25) if 'theta' in vary else 0.25 for i in range(2)]
            r['airmass'] = real('airmass', k, 1.0, 2.0, 1.0)
            r['launcher_pos'] = [c.real(f'pos{k}_{i}', -5.0, 5.0) if 'pos' in vary else float(i) for i in range(3)]
        m = dict(z=[c.real(f'z{k}_{i}', 8e4, 1e5) if 'z' in vary else 9e4 + i for i in range(2)],
                 p=[c.real(f'p{k}_{i}', 0.1, 1.0) if 'p' in vary else 0.5 for i in range(2)])
        return r, m

    def make(r, d):
        cls = gk.GaussianConvolutionKernel if gaussian else ck.ConvolutionKernel
        a = {k: c.xp.asarray(v) if isinstance(v, list) else v for k, v in r.items()}
        return cls(dimx=2, dimy=2, dimension=4, data_dir=d, target_device_idx=-1, **a)

    def use(kern, m):
        with quiet():
            kern.prepare_for_sh(sodium_altitude=c.xp.asarray(m['z']), sodium_intensity=c.xp.asarray(m['p']), current_time=1)
        return kern.kernels.copy()

    reqs = [request(k) for k in range(2)]
    with stubbed(c, [(ck, 'lgs_map_sh'), (gk, 'lgs_map_sh')], lgs):
        d = directory(c, 'kernels')
        (ra, ma), (rb, mb) = reqs
        if 'z' in vary or 'p' in vary:
            # one kernel object whose profile changes during the simulation, and comes back
            one = make(ra, d)
            use(one, ma)
            got = use(one, mb)
            back = use(one, ma)
            c.close(back, use(make(ra, directory(c, 'first')), ma), 'a profile seen before gives its own kernels', 1e-6)
            rb = ra
        else:
            use(make(ra, d), ma)
            got = use(make(rb, d), mb)
        fresh = use(make(rb, directory(c, 'fresh')), mb)
    c.close(got, fresh, 'the cached kernels were computed from the same parameters', 1e-6)


# ------------------------------------------------------------------ interaction matrix tags
def same_text(c, a, b):
    if c.symbolic:
        from engine import text
        return text.eq(a, b)
    return a == b


_bench = {}


def bench(c, kind):
    from specula.data_objects.pupilstop import Pupilstop
    from specula.data_objects.source import Source
    from specula.data_objects.subap_data import SubapData
    from specula.data_objects.pupdata import PupData
    from specula.processing_objects.dm import DM
    from specula.processing_objects.sh import SH
    from specula.processing_objects.modulated_pyramid import ModulatedPyramid
    from specula.processing_objects.sh_slopec import ShSlopec
    from specula.processing_objects.pyr_slopec import PyrSlopec
    p = simul_params(pixel_pupil=8, pixel_pitch=0.5)
    with quiet():
        if kind == 'sh':
            sensor = SH(subap_wanted_fov=4.0, sensor_pxscale=0.5, subap_npx=8, subap_on_diameter=2, wavelengthInNm=600, target_device_idx=-1)
            sub = SubapData(idxs=c.xp.zeros((2, 4), dtype=int), display_map=c.xp.asarray([0, 1]), nx=2, ny=2, target_device_idx=-1)
            slopec = ShSlopec(subapdata=sub, target_device_idx=-1)
        else:
            sensor = ModulatedPyramid(p, wavelengthInNm=600, fov=2.0, pup_diam=8, output_resolution=32, mod_amp=1.0, target_device_idx=-1)
            pup = PupData(ind_pup=c.xp.arange(8).reshape(2, 4), framesize=[4, 4], target_device_idx=-1)
            slopec = PyrSlopec(pupdata=pup, target_device_idx=-1)
        dm = DM(p, type_str='zernike', nmodes=3, obsratio=0.0, height=0, target_device_idx=-1)
        stop = Pupilstop(p, mask_diam=0.9, obs_diam=0.1, target_device_idx=-1)
        source = Source(polar_coordinates=[1.0, 2.0], magnitude=5, wavelengthInNm=600, target_device_idx=-1)
    return stop, source, dm, sensor, slopec


TAG = {
    'coordinates': ('source', [('r', 0.0, 60.0), ('a', 0.0, 360.0)]),
    'height': ('source', [('height', 100.0, 1e5)]),
    'mask_diam': ('stop', [('mask_diam', 0.5, 1.0)]),
    'obs_diam': ('stop', [('obs_diam', 0.0, 0.5)]),
    'shift': ('stop', [('x', -4.0, 4.0), ('y', -4.0, 4.0)]),
    'rotation': ('stop', [('rotInDeg', -180.0, 180.0)]),
    'magnification': ('stop', [('magnification', 0.5, 2.0)]),
    'fov': ('sensor', [('fov', 0.5, 5.0)]),
    'wavelength': ('sensor', [('wavelength_in_nm', 400.0, 2500.0)]),
    'pitch': ('params', [('pixel_pitch', 0.01, 1.0)]),
    'modes': ('call', []),
    'tags': ('stop', []),
}


def h_tag(c, what, kind='sh'):
    """equal automatic tags mean equal parameters"""
    from specula.processing_objects.im_calibrator import ImCalibrator
    stop, source, dm, sensor, slopec = bench(c, kind)
    tags, vals = [], []
    for k in range(2):
        v = [c.real(f'{n}{k}', lo, hi) for n, lo, hi in TAG[what][1]]
        call = dict(nmodes=3)
        if what == 'coordinates':
            source.polar_coordinates = c.xp.asarray(v, dtype=c.xp.float64)
        elif what == 'shift':
            stop.shiftXYinPixel = c.xp.asarray(v, dtype=c.xp.float64)
        elif what == 'fov':
            setattr(sensor, 'subap_wanted_fov' if kind == 'sh' else 'fov', v[0])
        elif what == 'pitch':
            dm.simul_params = simul_params(pixel_pupil=8, pixel_pitch=v[0])
        elif what == 'modes':
            v = [c.pickint(f'nmodes{k}', 1, 3), c.pickint(f'first{k}', 0, 2)]
            call = dict(nmodes=v[0], first_mode=v[1])
        elif what == 'tags':
            v = [c.pick(f'stop{k}', ['', 'a', 'b'] if kind == 'sh' else ['a']), c.pick(f'sub{k}', ['', 'a', 'b'])]
            stop.tag = v[0]
            (slopec.subapdata if kind == 'sh' else slopec.pupdata).tag = v[1]
        else:
            setattr({'source': source, 'stop': stop, 'sensor': sensor}[TAG[what][0]], TAG[what][1][0][0], v[0])
        with quiet():
            tags.append(ImCalibrator.generate_im_tag(stop, source, dm, sensor, slopec, **call))
        vals.append(v)
    a, b = vals
    if what in ('modes', 'tags'):
        diff = a != b
    elif what == 'coordinates':
        # on axis, the angle does not matter
        diff = c.Or(a[0] != b[0], c.And(a[1] != b[1], a[0] != 0))
    else:
        diff = c.Or(*[x != y for x, y in zip(a, b)])
    c.check(c.Or(c.Not(diff), c.Not(same_text(c, *tags))), 'different configurations have different tags')
    if what in ('modes', 'tags') and not diff:
        c.check(tags[0] == tags[1], 'equal configurations have equal tags')


def h_tag_file(c):
    """an existing interaction matrix is never overwritten without being asked to"""
    from specula.processing_objects.im_calibrator import ImCalibrator
    d = directory(c, 'im')
    tag = c.pick('tag', ['a', 'a.fits', 'b'])
    other = c.pick('other', ['a', 'b', 'a.fits', 'ab'])
    over = c.flag('overwrite')
    with open(os.path.join(d, other if other.endswith('.fits') else other + '.fits'), 'w') as f:
        f.write('x')
    same = tag.split('.')[0] == other.split('.')[0]

    def make():
        with quiet():
            return ImCalibrator(nmodes=2, data_dir=d, im_tag=tag, overwrite=over, target_device_idx=-1)
    c.check(rejects(make, FileExistsError) == (same and not over), 'an existing file is protected, and only that one')


# ------------------------------------------------------------------ calibration files
NAMES = ['a', 'b', 'a.b', 'aa', 'a1', 'fits', 'a_fits']


def kinds():
    from specula.calib_manager import CalibManager
    cm = CalibManager('/nowhere')
    return list(cm._subdirs)


def h_files(c, part, parts):
    """distinct names of a kind are distinct files inside the root, whether or not the suffix is given"""
    from specula.calib_manager import CalibManager
    root = directory(c, 'calib')
    cm = CalibManager(root)
    ks = kinds()[part::parts]
    kind = c.pick('kind', ks)
    n1, n2 = c.pick('name1', NAMES), c.pick('name2', NAMES)
    suf = c.flag('suffix')
    f1 = os.path.normpath(cm.filename(kind, n1))
    f2 = os.path.normpath(cm.filename(kind, n2 + ('.fits' if suf else '')))
    c.check((f1 == f2) == (n1 == n2), 'a file per name')
    c.check(f1.startswith(os.path.normpath(root) + os.sep) and f1.endswith('.fits'), 'inside the configured root')
    c.check(os.path.dirname(f1) == os.path.normpath(cm.root_subdir(kind)) != os.path.normpath(root), 'in the directory of its kind')


def h_store(c, kind):
    """what was written under a name is what is read back under that name"""
    from specula.calib_manager import CalibManager
    root = directory(c, 'calib')
    cm = CalibManager(root)
    os.makedirs(cm.root_subdir(kind), exist_ok=True)
    n1, n2 = c.pick('name1', NAMES[:3]), c.pick('name2', NAMES[:3])
    a, b = c.arr('a', (2, 2), -2, 2), c.arr('b', (2, 2), -2, 2)
    with quiet():
        cm.writefits(kind, n1, a)
        cm.writefits(kind, n2, b)
        ra, rb = cm.readfits(kind, n1), cm.readfits(kind, n2)
        c.close(rb, b, 'the last array written', 1e-6)
        c.close(ra, b if n1 == n2 else a, 'the array of that name', 1e-6)
        missing = rejects(lambda: cm.readfits(kind, 'other'))
    c.check(missing, 'a missing file is an error')


def harnesses(tier):
    hs = [H('screens L0', h_screens, vary=('L0',)), H('screens pitch', h_screens, vary=('pitch',)),
          H('screens dim seed precision', h_screens, vary=('dim', 'seed', 'prec')),
          H('screens L0 size', h_screens, vary=('L0', 'dim')), H('screens pitch seed', h_screens, vary=('pitch', 'seed')),
          H('screens two outer scales', h_screens, vary=('L0',), n=2, budget=150), H('screens two seeds', h_screens, vary=('seed',), n=2, max_paths=3000),
          H('kernel scales', h_kernel, vary=('pxscale', 'pupil_size_m')),
          H('kernel spot', h_kernel, vary=('seeing', 'launcher_size')),
          H('kernel heights', h_kernel, vary=('zfocus', 'airmass')),
          H('kernel pointing', h_kernel, vary=('theta', 'pos', 'shift')),
          H('kernel oversampling', h_kernel, vary=('oversampling', 'shift')),
          H('kernel profile', h_kernel, vary=('z', 'p')),
          H('kernel real', h_kernel, vary=('pxscale', 'real')),
          H('gaussian kernel', h_kernel, vary=('pxscale', 'pupil_size_m', 'spot_size'), gaussian=True),
          H('gaussian kernel shift', h_kernel, vary=('shift', 'oversampling', 'spot_size'), gaussian=True),
          H('tag file', h_tag_file)]
    for kind in ('sh', 'pyr'):
        for what in TAG:
            if kind == 'sh' or TAG[what][0] in ('sensor', 'stop') and what in ('fov', 'wavelength', 'tags'):
                hs.append(H(f'tag {kind} {what}', h_tag, what=what, kind=kind))
    hs += [H(f'files {k}', h_files, part=k, parts=6, max_paths=3000) for k in range(6)]
    ks = kinds()
    hs += [H(f'store {k}', h_store, kind=k) for k in (ks if tier == 'thorough' else ks[::8])]
    if tier == 'thorough':
        hs.append(H('screens three requests', h_screens, vary=('L0',), history=2, max_paths=4000, budget=300))
        hs.append(H('screens all', h_screens, vary=('L0', 'pitch', 'dim', 'seed', 'prec'), max_paths=3000, budget=300))
        hs.append(H('kernel all', h_kernel, vary=('pxscale', 'pupil_size_m', 'seeing', 'theta', 'pos', 'zfocus'), budget=120))
    return hs
