"""C30: saving and restoring data objects."""
import os
import types
from engine.common import H
from .util import simul_params, quiet

BOUNDS = ('every savable data object; arrays of up to 3x4 with arbitrary values, arbitrary numeric parameters, flags, tags and every combination '
          'of present and absent optional fields')
OUTSIDE = ('what the file formats do not hold by declaration: time stamps, device and precision, verbosity, display masks of slopes, flux of layers, '
           'the layer list of a reconstruction matrix, the physical parameters a convolution kernel was computed from; byte order of restored arrays')
ASSUMPTIONS = ['symbolic runs replace the FITS library by a store that keeps headers and arrays and has its rules (no infinite cards, no 0-d images); '
               'replays and per-path models use the real one']

# not part of the files (see OUTSIDE)
COMMON = {'gpu_bytes_used', 'precision', 'target_device_idx', 'dtype', 'complex_dtype', 'xp', 'xp_str', 'PerformanceWarning', 'generation_time', 'tag',
          'simul_params'}


def plain(c, v):
    return v is None or isinstance(v, (str, bool))


def compare(c, a, b, name):
    if isinstance(a, dict):
        c.check(isinstance(b, dict) and a.keys() == b.keys(), f'{name} restored')
        for k in a:
            compare(c, a[k], b[k], f'{name}[{k}]')
        return
    if isinstance(a, (list, tuple)) and len(a) == 0 or plain(c, a):
        if isinstance(a, (list, tuple)):
            c.check(len(b) == 0, f'{name} restored')
        else:
            c.check(a is b or (b is not None and bool(a == b)), f'{name} restored')
        return
    c.check(b is not None and not isinstance(b, str), f'{name} restored')
    sa, sb = shape(c, a), shape(c, b)
    c.check(sa == sb, f'{name} restored with its shape')
    if not c.symbolic:
        c.check(c.xp.asarray(a).dtype.kind == c.xp.asarray(b).dtype.kind and c.xp.asarray(a).dtype.itemsize == c.xp.asarray(b).dtype.itemsize
                or not hasattr(a, 'dtype'), f'{name} restored with its type')
    if 0 not in sa:
        c.close(a, b, f'{name} restored', 1e-6)


def shape(c, v):
    return tuple(c.xp.asarray(v).shape)


def public(o, skip):
    out = {}
    for k, v in vars(o).items():
        if k.startswith('_') or k in COMMON or k in skip or isinstance(v, (types.ModuleType, types.FunctionType, type)) or callable(v):
            continue
        if type(v).__name__ in ('_ColsView', '_RowsView', '_Function'):
            continue
        out[k] = v
    return out


def roundtrip(c, o, skip=(), props=(), save={}, cls=None, suffix='.fits'):
    fn = c.path(f'{type(o).__name__}{suffix}')
    with quiet():
        o.save(fn, **save)
        r = (cls or type(o)).restore(fn if fn.endswith('.fits') else fn + '.fits', target_device_idx=-1)
    c.check(type(r) is type(o), 'an object of the same kind')
    a, b = public(o, skip), public(r, skip)
    c.check(a.keys() <= b.keys(), 'the same fields')
    for k in a:
        compare(c, a[k], b[k], k)
    for p in props:
        with quiet():
            va, vb = getattr(o, p), getattr(r, p)
        va, vb = (va(), vb()) if callable(va) else (va, vb)
        if isinstance(va, tuple) and va and hasattr(va[0], 'shape'):
            for x, y in zip(va, vb):
                compare(c, x, y, p)
        else:
            compare(c, va, vb, p)
    return r


def opt(c, name, v):
    return v() if c.flag(name) else None


def tag(c, name):
    return ('', 'pup_3', 'sub 7')[c.pickint(name, 0, 2)]


K = dict(target_device_idx=-1, precision=0)


def h_intmat(c):
    from specula.data_objects.intmat import Intmat
    o = Intmat(c.arr('im', (3, 2)), slope_mm=opt(c, 'mm', lambda: c.arr('mm_', (2, 2))), slope_rms=opt(c, 'rms', lambda: c.arr('rms_', (2,))),
               pupdata_tag=tag(c, 'p'), subapdata_tag=tag(c, 's'), norm_factor=c.real('nf', -5, 5), **K)
    r = roundtrip(c, o, props=('nmodes', 'nslopes'))
    r.modes[0] = o.modes[1]
    compare(c, o.intmat[:, 1], r.intmat[:, 0], 'the restored matrix is indexed by mode')


def h_recmat(c):
    from specula.data_objects.recmat import Recmat
    roundtrip(c, Recmat(c.arr('rm', (2, 3)), norm_factor=c.real('nf', -5, 5), **K), props=('nmodes',), suffix=c.pick('suffix', ('.fits', '')),
              save=dict(overwrite=True))


def h_slopes(c):
    from specula.data_objects.slopes import Slopes
    o = Slopes(slopes=c.arr('s', (6,)), interleave=c.flag('interleave'), **K)
    o.pupdata_tag = opt(c, 'p', lambda: 'pup_1')
    o.subapdata_tag = opt(c, 's_', lambda: 'sub_2')
    roundtrip(c, o, skip=('single_mask', 'display_map'), props=('size', 'xslopes', 'yslopes'))


def h_pixels(c):
    from specula.data_objects.pixels import Pixels
    bits = c.pick('bits', (8, 16, 32))
    signed = c.pick('signed', (0, 1))
    o = Pixels(3, 2, bits=bits, signed=signed, **K)
    o.set_value(c.xp.asarray([[c.int(f'p{i}{j}', 0, 100) for j in range(3)] for i in range(2)]).astype(o.type))
    roundtrip(c, o, skip=('type',), props=('size', 'multiplier') if hasattr(o, 'multiplier') else ('size',))


def h_intensity(c):
    from specula.data_objects.intensity import Intensity
    o = Intensity(3, 2, **K)
    o.i[:] = c.arr('i', (2, 3))
    roundtrip(c, o)


def fields(c, o):
    o.field[0] = c.arr('A', o.field[0].shape)
    o.field[1] = c.arr('ph', o.field[1].shape)


def h_field(c):
    from specula.data_objects.electric_field import ElectricField
    o = ElectricField(3, 2, c.real('pitch', 0.01, 2), S0=c.real('S0', 0, 9), **K)
    fields(c, o)
    roundtrip(c, o, props=('A', 'phaseInNm', 'size'))


def h_layer(c):
    from specula.data_objects.layer import Layer
    o = Layer(3, 2, c.real('pitch', 0.01, 2), c.real('h', -100, 20000), shiftXYinPixel=(c.real('sx', -5, 5), c.real('sy', -5, 5)),
              rotInDeg=c.real('rot', -180, 180), magnification=c.real('mag', 0.1, 5), **K)
    fields(c, o)
    roundtrip(c, o, skip=('S0',), props=('A', 'phaseInNm', 'size'))


def h_pupilstop(c, mask=True):
    from specula.data_objects.pupilstop import Pupilstop
    sp = simul_params(pixel_pupil=4, pixel_pitch=c.real('pitch', 0.01, 2))
    extra = {}
    if mask:
        extra['input_mask'] = c.arr('mask', (4, 4), 0, 1)
    else:
        extra['mask_diam'] = c.real('diam', 0.5, 1.2)
        if c.flag('obs'):
            extra['obs_diam'] = c.real('od', 0.0, 0.4)
    o = Pupilstop(sp, shiftXYinPixel=(c.real('sx', -5, 5), c.real('sy', -5, 5)), rotInDeg=c.real('rot', -180, 180),
                  magnification=c.real('mag', 0.1, 5), **extra, **K)
    r = roundtrip(c, o, skip=('S0', 'phaseInNm', 'field'), props=('A', 'size'))
    compare(c, sp.pixel_pitch, r.simul_params.pixel_pitch, 'pixel pitch of the simulation')
    c.check(sp.pixel_pupil == r.simul_params.pixel_pupil, 'pupil size of the simulation')


def h_pupdata(c, npup=4):
    from specula.data_objects.pupdata import PupData
    idx = c.xp.asarray([[c.int(f'i{k}{p}', -1, 15) for p in range(npup)] for k in range(3)])
    o = PupData(ind_pup=idx, radius=c.arr('r', (npup,), 0, 5), cx=c.arr('cx', (npup,), 0, 5), cy=c.arr('cy', (npup,), 0, 5),
                framesize=[c.pickint('fx', 4, 5), c.pickint('fy', 4, 6)], **K)
    o.set_slopes_from_intensity(c.flag('sfi'))
    roundtrip(c, o, props=('n_subap', 'n_pupils'))


def h_pupdata_map(c):
    """the positions slopes are displayed at survive"""
    from specula.data_objects.pupdata import PupData
    o = PupData(ind_pup=c.xp.asarray([[2, 0, 8, 10], [7, 5, 13, 15]]), radius=c.arr('r', (4,), 0, 5), cx=c.arr('cx', (4,)), cy=c.arr('cy', (4,)),
                framesize=[4, 4], **K)
    o.set_slopes_from_intensity(c.flag('sfi'))
    roundtrip(c, o, props=('display_map', 'single_mask', 'complete_mask'))


def h_subap(c):
    from specula.data_objects.subap_data import SubapData
    idx = c.xp.asarray([[c.int(f'i{k}{p}', 0, 35) for p in range(4)] for k in range(3)])
    o = SubapData(idx, c.xp.asarray([c.int(f'd{k}', 0, 5) for k in range(3)]), c.pickint('nx', 1, 3), c.pickint('ny', 1, 3),
                  energy_th=c.real('th', 0, 1), **K)
    roundtrip(c, o, props=('n_subaps', 'np_sub'))


def h_iir(c, ordnum=(2, 2), ordden=(2, 2)):
    from specula.data_objects.iir_filter_data import IirFilterData
    num, den = c.arr('n', (2, 2), -2, 2), c.arr('d', (2, 2), -2, 2)
    for i in range(2):
        for j in range(ordnum[i], 2):
            num[i, j] = 0.0
        for j in range(ordden[i], 2):
            den[i, j] = 0.0
    if ordnum[0] < 2 and c.flag('already high order'):
        num[0, 1], num[0, 0] = num[0, 0], 0.0
    o = IirFilterData(list(ordnum), list(ordden), num, den, **K)
    roundtrip(c, o, props=('nfilter',))


def h_ssr(c, blocks=False):
    from specula.data_objects.ssr_filter_data import SsrFilterData
    if blocks:
        o = SsrFilterData([c.arr('A0', (1, 1)), c.arr('A1', (2, 2))], [c.arr('B0', (1, 1)), c.arr('B1', (2, 1))],
                          [c.arr('C0', (1, 1)), c.arr('C1', (1, 2))], [c.arr('D0', (1, 1)), c.arr('D1', (1, 1))], **K)
    else:
        o = SsrFilterData(c.arr('A', (3, 3)), c.arr('B', (3, 2)), c.arr('C', (2, 3)), c.arr('D', (2, 2)), **K)
    roundtrip(c, o)


def h_history(c):
    from specula.data_objects.time_history import TimeHistory
    roundtrip(c, TimeHistory(c.arr('h', (3, 2)), **K))


def h_spatio(c, ndim=3):
    from specula.data_objects.spatio_temp_array import SpatioTempArray
    axis = c.pick('axis', (0, -1))
    shp = {(2, 0): (3, 2), (2, -1): (2, 3), (3, 0): (3, 2, 4), (3, -1): (2, 4, 3), (1, 0): (3,), (1, -1): (3,)}[(ndim, axis)]
    roundtrip(c, SpatioTempArray(c.arr('a', shp), c.arr('t', (3,)), time_axis=axis, **K))


def h_source(c):
    from specula.data_objects.source import Source
    extra = {}
    if c.flag('finite'):
        extra['height'] = c.real('h', 1, 2e5)
    if c.flag('err'):
        extra['error_coord'] = (c.real('e0', 0.1, 2), c.real('e1', -2, 2))
    with quiet():
        o = Source([c.real('p0', 0, 100), c.real('p1', -360, 360)], c.real('mag', -2, 20), c.real('wl', 300, 3000), band=('', 'R')[c.pickint('band', 0, 1)],
                   zero_point=c.real('zp', 0, 1e3), **extra, **K)
    roundtrip(c, o, skip=('verbose', 'chromatic_shifts_m'), props=('phot_density',) if 0 else ())


def h_lenslet(c):
    from specula.data_objects.lenslet import Lenslet
    roundtrip(c, Lenslet(c.pickint('n', 1, 3), **K), props=('dimx', 'dimy'))


def h_ifunc(c):
    from specula.data_objects.ifunc import IFunc
    mask = c.xp.asarray([[1.0, 0.0, 1.0], [0.0, 1.0, 1.0]])
    o = IFunc(ifunc=c.arr('f', (2, 4)), type_str=opt(c, 'type', lambda: 'zonal'), mask=mask, **K)
    roundtrip(c, o, props=('influence_function', 'mask_inf_func', 'idx_inf_func', 'size', 'type_str'))


def h_ifunc_inv(c):
    from specula.data_objects.ifunc_inv import IFuncInv
    o = IFuncInv(c.arr('f', (4, 2)), c.xp.asarray([[1.0, 0.0, 1.0], [0.0, 1.0, 1.0]]), **K)
    roundtrip(c, o, skip=('idx_inf_func',))
    roundtrip(c, o, skip=('idx_inf_func',), props=('idx_inf_func',), save=dict(overwrite=True))


def h_m2c(c):
    from specula.data_objects.m2c import M2C
    roundtrip(c, M2C(c.arr('m', (3, 2)), norm_factor=opt(c, 'nf?', lambda: c.real('nf', -5, 5)), **K), props=('nmodes',) if hasattr(M2C, 'nmodes') else ())


def h_llt(c):
    from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
    zen = c.pick('zenith', (0.0, 30.0, 60.0))
    pos = [c.real(f'p{i}', -5, 5) for i in range(3)] if c.flag('position') else []
    with quiet():
        o = LaserLaunchTelescope(simul_params=simul_params(zenithAngleInDeg=zen), spot_size=c.real('spot', 0, 3), tel_position=pos,
                                 beacon_focus=c.real('foc', 1e3, 1e5), beacon_tt=[c.real('t0', -5, 5), c.real('t1', -5, 5)], **K)
    roundtrip(c, o, suffix=c.pick('suffix', ('.fits', '')))


def h_value(c, kind='vector'):
    from specula.base_value import BaseValue
    with quiet():
        if kind == 'vector':
            o = BaseValue(value=c.arr('v', (3,)), target_device_idx=-1, precision=c_precision())
        elif kind == 'matrix':
            o = BaseValue(value=c.arr('v', (2, 3)), target_device_idx=-1, precision=c_precision())
        elif kind == 'set':
            o = BaseValue(target_device_idx=-1, precision=c_precision())
            o.set_value(c.arr('v', (2,)))
        else:
            o = BaseValue(target_device_idx=-1, precision=c_precision())
    roundtrip(c, o, skip=('description',))


def c_precision():
    import specula
    return specula.global_precision


def h_value_scalar(c):
    """scalars go through their text form: exact for every class of number"""
    from specula.base_value import BaseValue
    v = c.pick('v', (0.0, -2.5, 1 / 3, 1e-30, 123456.789, float('inf'), float('nan')))
    if c.flag('set'):
        o = BaseValue(target_device_idx=-1, precision=c_precision())
        o.set_value(v)
    else:
        o = BaseValue(value=v, target_device_idx=-1, precision=c_precision())
    fn = c.path('scalar.fits')
    o.save(fn)
    r = BaseValue.restore(fn, target_device_idx=-1)
    a, b = float(o.value), float(r.value)
    c.check(a == b or (a != a and b != b), 'scalar restored exactly')
    c.check(c.symbolic or c.xp.asarray(r.value).dtype == c.xp.asarray(o.value).dtype, 'scalar restored in its type')


def h_kernel(c, cls='ConvolutionKernel', into=False):
    """restored kernels are the ones computed, in a new object or in the one that asks for them"""
    import specula.data_objects.convolution_kernel as ck
    import specula.data_objects.gaussian_convolution_kernel as gk
    C = getattr(ck if cls == 'ConvolutionKernel' else gk, cls)
    fft = c.flag('fft')

    def make(dimension=2, **k):
        a = dict(dimx=2, dimy=2, pxscale=c.real('px', 0.01, 2), pupil_size_m=1.0, dimension=dimension, oversampling=c.pick('ovs', (1, 2)),
                 return_fft=fft, positive_shift_tt=c.flag('postt'), **K)
        a.update({'launcher_size': c.real('spot', 0.1, 3)} if cls == 'ConvolutionKernel' else {'spot_size': c.real('spot', 0.1, 3)})
        a.update(k)
        return C(**a)
    o = make()
    v = c.arr('k', (4, 2, 2), 0.0, 1)
    for i in range(4):
        v[i, 1, 1] = 1.0 - v[i, 0, 0] - v[i, 0, 1] - v[i, 1, 0]
    o.real_kernels[:] = v
    o.spot_size = c.real('spot', 0.1, 3)
    o.process_kernels(return_fft=fft)
    fn = c.path('kernel.fits')
    o.save(fn)
    if into:
        r = make()
        if cls == 'ConvolutionKernel':
            r.real_kernels = None if c.flag('freed') else r.real_kernels
        r2 = C.restore(fn, kernel_obj=r, target_device_idx=-1, return_fft=fft)
        c.check(r2 is r, 'restored into the given object')
    else:
        r = C.restore(fn, target_device_idx=-1, return_fft=fft)
    for k in ('dimx', 'dimy', 'pxscale', 'dimension', 'oversampling', 'positive_shift_tt', 'spot_size'):
        compare(c, getattr(o, k), getattr(r, k), k)
    c.close(o.real_kernels, r.real_kernels, 'kernels restored', 1e-5)
    c.close(o.kernels, r.kernels, 'kernels (as used) restored', 1e-5)


def harnesses(tier):
    L = [H('interaction matrix', h_intmat), H('reconstruction matrix', h_recmat), H('slopes', h_slopes), H('pixels', h_pixels), H('intensity', h_intensity),
         H('electric field', h_field), H('layer', h_layer), H('pupil stop from a mask', h_pupilstop), H('pupil stop from diameters', h_pupilstop, mask=False),
         H('pupil data', h_pupdata), H('pupil data of one pupil', h_pupdata, npup=1), H('pupil display map', h_pupdata_map), H('subapertures', h_subap),
         H('IIR filters', h_iir), H('IIR filters of mixed order', h_iir, ordnum=(1, 2), ordden=(2, 1)),
         H('state space filters', h_ssr), H('state space filters of several blocks', h_ssr, blocks=True), H('time history', h_history),
         H('time cube', h_spatio), H('time series of vectors', h_spatio, ndim=2), H('time series', h_spatio, ndim=1), H('source', h_source),
         H('lenslet', h_lenslet), H('influence functions', h_ifunc), H('inverse influence functions', h_ifunc_inv), H('modes to commands', h_m2c),
         H('laser launch telescope', h_llt), H('scalar value', h_value_scalar)]
    L += [H(f'value: {k}', h_value, kind=k) for k in ('vector', 'matrix', 'set', 'empty')]
    for k in ('ConvolutionKernel', 'GaussianConvolutionKernel'):
        L += [H(f'{k}', h_kernel, cls=k), H(f'{k} into an object', h_kernel, cls=k, into=True)]
    return L
