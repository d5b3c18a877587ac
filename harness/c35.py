"""C35: wavefront sensors redistribute light without creating or losing it."""
import contextlib
import io
import math
from engine.common import H
from .util import simul_params, step
from .zoo import efield

BOUNDS = ('pupils of 2x2 to 6x6 pixels with arbitrary phases and amplitudes (in all or in some of the pixels), arbitrary flux density; 1x1 to 4x4 '
          'lenslets with 2-4 pixels; pyramids with 1-4 modulation steps of every kind; 1-3 wavelengths with arbitrary flux factors and tilts')
OUTSIDE = ('fields that are interpolated, rotated or shifted before the sensor; laser guide star kernels; pyramid pupil shifts; detectors that cut the '
           'four pupils; a polychromatic sensor with a field stop (it is normalised to the whole input flux)')
ASSUMPTIONS = ['numpy.fft.fft2 is encoded by the definition of the discrete Fourier transform', 'cos and sin obey the addition theorems',
               'the sensor receives light']
ARC = 206264.80624709636


def field(c, n, pitch, phases=None, amps=None, name='f'):
    """a lit field; only the given pixels are arbitrary when lists of pixels are given"""
    f = efield(c, name, n, lo=-200, hi=200, alo=0.0, ahi=2.0, pitch=pitch)
    A, P = f.A.copy(), f.phaseInNm.copy()
    for i in range(n):
        for j in range(n):
            if amps is not None and (i, j) not in amps:
                A[i, j] = 0.0 * A[i, j] + (1.0 if (i + j) % 3 else 0.5)
            if phases is not None and (i, j) not in phases:
                P[i, j] = 0.0 * P[i, j] + 30.0 * ((7 * i + 3 * j) % 5)
    f.A, f.phaseInNm = A, P
    f.S0 = c.real(name + 'S0', 0.5, 500)
    return f


def flux(f):
    return f.S0 * f.A.sum() * f.pixel_pitch ** 2


def quietly(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def sh(cls=None, n=2, lens=1, px=2, wl=500.0, ovs=0, fov=None, **k):
    """a Shack-Hartmann whose pixels are lambda/D of the subaperture, for fields of n pixels of 5 cm"""
    from specula.processing_objects.sh import SH
    scale = wl * 1e-9 / (n / lens * 0.05) * ARC * 1.2
    return quietly(cls or SH, wavelengthInNm=wl, subap_wanted_fov=fov * scale if fov else scale * px, sensor_pxscale=scale, subap_on_diameter=lens,
                   subap_npx=px, fov_ovs_coeff=ovs, target_device_idx=-1, precision=0, **k)


def see(o, f, t=1, setup=True, out='out_i'):
    if setup:
        o.inputs['in_ef'].set(f)
        quietly(o.setup)
    f.generation_time = t
    step([o], t)
    return o.outputs[out].i.copy()


def h_sh(c, n=2, lens=1, px=2, phases=None, amps=None, **k):
    o = sh(n=n, lens=lens, px=px, **k)
    f = field(c, n, 0.05, phases, amps)
    c.assume(f.A[-1, -1] >= 0.1)
    keep = f.A.copy(), f.phaseInNm.copy()
    i = see(o, f)
    c.check(i.shape == (lens * px, lens * px), 'shape of the image')
    c.close(i.sum(), flux(f), 'all the light of the pupil is on the detector', 1e-3 * 500)
    c.check(o.outputs['out_i'].generation_time == 1, 'marked as of this step')
    c.equal(f.A, keep[0], 'the amplitude is left alone')
    c.equal(f.phaseInNm, keep[1], 'the phase is left alone')


def h_piston(c, make, n, out=('out_i',), pitch=0.05, amps=None, **k):
    """images of a field and of the same field with a uniform phase"""
    o = make(c, n=n, **k)
    f = field(c, n, pitch, phases=[], amps=amps)
    c.assume(f.A[-1, -1] >= 0.1)
    p = c.real('piston', -200, 200)
    rest = lambda: [o.outputs[x].value.copy() for x in out[1:]]
    a = [see(o, f, 1, out=out[0])] + rest()
    f.phaseInNm = f.phaseInNm + p
    b = [see(o, f, 2, setup=False, out=out[0])] + rest()
    for x, y in zip(a, b):
        c.close(x, y, 'a uniform change of phase leaves the image unchanged', 1e-3)


def mk_sh(c, **k):
    return sh(**k)


def pyramid(c, n=2, cls=None, fov=2.0, wl=500.0, pup=2, res=8, **k):
    from specula.processing_objects.modulated_pyramid import ModulatedPyramid
    kw = dict(pup_diam=pup, output_resolution=res, pup_margin=0)
    kw.update(k)
    return quietly(cls or ModulatedPyramid, simul_params(pixel_pupil=n, pixel_pitch=pitch(fov, wl)), wavelengthInNm=wl, fov=fov, target_device_idx=-1,
                   precision=0, **kw)


def pitch(fov, wl):
    """pixels such that the field of view is the one of the Fourier transform"""
    return wl * 1e-9 / fov * ARC


def h_pyramid(c, n=2, phases=None, amps=None, steps=1, fov=2.0, **k):
    o = pyramid(c, n=n, fov=fov, **k)
    f = field(c, n, pitch(fov, 500.0), phases, amps)
    c.assume(f.A[-1, -1] >= 0.1)
    for t in range(1, steps + 1):
        i = see(o, f, t, setup=t == 1)
        tr = o.outputs['out_transmission'].value[0]
        c.close(i.sum(), flux(f) * tr, 'the light of the pupil times the transmission', 1e-3)
        a, b = o.outputs['out_psf_tot'].value.sum(), o.outputs['out_psf_bfm'].value.sum()
        c.close(tr * b, a, 'the transmission is the fraction of light inside the field stop', 1e-3)
        c.close(o.outputs['out_flux_frac_inside_detector'].value[0], 1.0, 'all of it on the detector', 1e-6)


def mk_poly(c, n):
    return poly(c, [500.0, 600.0], [1.0, 3.0], n)[0]


def mk_pyramid(c, **k):
    return pyramid(c, **k)


def h_stop(c, n=2, **k):
    """a field stop only removes light: never more transmission than without, and one without"""
    o = pyramid(c, n=n, **k)
    f = field(c, n, pitch(2.0, 500.0), [(0, 0)], [(0, 1)])
    see(o, f)
    tot, bfm = o.outputs['out_psf_tot'].value, o.outputs['out_psf_bfm'].value
    for x, y in zip(tot.ravel(), bfm.ravel()):
        c.check(y >= -1e-9, 'no negative light in the focal plane')
        c.check(c.Or(c.abs(x) < 1e-12, c.abs(x - y) < 1e-12), 'the stop keeps or removes a pixel of the focal plane')


def h_again(c, make, n, pitch=0.05, out='out_i', gp=((0, 1), (1, 0)), **k):
    """what the sensor saw before does not matter"""
    o = make(c, n=n, **k)
    f = field(c, n, pitch, [(0, 0)], [(0, 1)])
    g = field(c, n, pitch, gp, [], name='g')
    see(o, f, 1, out=out)
    f.A, f.phaseInNm, f.S0 = g.A, g.phaseInNm, g.S0
    a = see(o, f, 2, setup=False, out=out)
    b = see(make(c, n=n, **k), g, 1, out=out)
    c.close(a, b, 'the image only depends on the current field', 1e-3)


def h_share(c, n=4):
    """sensors of the same simulation do not disturb each other"""
    kw = [dict(wavelengthInNm=500.0, subap_wanted_fov=0.4, sensor_pxscale=0.2, fov_ovs_coeff=2, subap_npx=2),
          dict(wavelengthInNm=500.0, subap_wanted_fov=1.2, sensor_pxscale=0.2, fov_ovs_coeff=0, subap_npx=6)]
    from specula.processing_objects.sh import SH
    f = field(c, n, 0.05, [(0, 0)], [(0, 1)])
    f.A = c.xp.ones((n, n))

    def mk(i):
        return quietly(SH, subap_on_diameter=1, target_device_idx=-1, precision=0, **kw[i])
    alone = see(mk(1), f, 1)
    o = mk(1)
    see(mk(0), f, 2)
    c.close(see(o, f, 3), alone, 'the image does not depend on the other sensors', 1e-3)
    # set up first, used later
    o, p = mk(1), mk(0)
    see(o, f, 4)
    see(p, f, 5)
    c.close(see(o, f, 6, setup=False), alone, 'the image does not depend on the other sensors', 1e-3)


def h_distributed(c, n=4, lens=2, slices=2, px=2):
    """a sensor whose rows are spread over several objects"""
    from specula.processing_objects.distributed_sh import DistributedSH
    f = field(c, n, 0.05, [(0, 0), (n - 1, 0)], [(0, 1), (n - 1, n - 1)])
    c.assume(f.A[0, 1] >= 0.1)
    a = see(sh(n=n, lens=lens, px=px), f, 1)
    b = see(sh(DistributedSH, n=n, lens=lens, px=px, n_slices=slices), f, 2)
    c.close(a, b, 'the image is that of the whole sensor', 1e-3)
    c.close(b.sum(), flux(f), 'all the light of the pupil is on the detector', 1e-3)


def poly(c, wls, ff, n=2, lens=1, px=2, scale=None, **k):
    from specula.processing_objects.poly_chrom_sh import PolyChromSH
    scale = scale or wls[0] * 1e-9 / (n / lens * 0.05) * ARC * 1.2
    return quietly(PolyChromSH, wavelengthInNm=wls, flux_factor=ff, subap_wanted_fov=scale * px, sensor_pxscale=scale, subap_on_diameter=lens,
                   subap_npx=px, target_device_idx=-1, precision=0, **k), scale


def h_poly(c, wls=(500.0, 600.0), n=2, tilts=False):
    ff = [c.real(f'ff{i}', 0.1, 10) for i in range(len(wls))]
    k = {}
    if tilts:
        k['xy_tilts_in_arcsec'] = [[0.1 * i, -0.2] for i in range(len(wls))]
    o, scale = poly(c, list(wls), ff, n, **k)
    f = field(c, n, 0.05, [(0, 0)], [(0, 1)])
    keep = f.A.copy(), f.phaseInNm.copy()
    i = see(o, f)
    c.close(i.sum(), flux(f), 'all the light of the pupil is on the detector', 0.5)
    tot = sum(ff)
    acc = 0
    for j in range(len(wls)):
        w = o.get_wavelength_contribution(j)
        c.close(w.sum() * tot, flux(f) * ff[j], 'each wavelength has its share of the light', 0.5)
        acc = acc + w
    c.close(i, acc, 'the image is the sum over the wavelengths', 0.05)
    c.equal(f.A, keep[0], 'the amplitude is left alone')
    c.equal(f.phaseInNm, keep[1], 'the phase is left alone')
    c.check(o.outputs['out_i'].generation_time == 1, 'marked as of this step')


def h_mono(c, n=2, count=1):
    """every wavelength equal: the image of a monochromatic sensor"""
    from specula.processing_objects.sh import SH
    ff = [c.real(f'ff{i}', 0.1, 10) for i in range(count)]
    o, scale = poly(c, [500.0] * count, ff, n)
    f = field(c, n, 0.05, [(0, 0)], [(0, 1)])
    a = see(o, f, 1)
    s = quietly(SH, wavelengthInNm=500.0, subap_wanted_fov=scale * 2, sensor_pxscale=scale, subap_on_diameter=1, subap_npx=2, fov_ovs_coeff=0,
                target_device_idx=-1, precision=0)
    c.close(a, see(s, f, 2), 'the image of a monochromatic sensor', 0.05)


def h_tilt(c, n=2, wl=500.0):
    """a differential tilt is a tilt of the wavefront"""
    o, scale = poly(c, [wl], [1.0], n, xy_tilts_in_arcsec=[[0.3, -0.2]])
    f = field(c, n, 0.05, [], [(0, 1)])
    a = see(o, f, 1)
    # one arcsec in nm per pixel
    g = field(c, n, 0.05, [], [(0, 1)])
    t = 1e9 * 0.05 / ARC
    for i in range(n):
        for j in range(n):
            g.phaseInNm[i, j] = g.phaseInNm[i, j] + (0.3 * (j - (n - 1) / 2) - 0.2 * (i - (n - 1) / 2)) * t
    p, _ = poly(c, [wl], [1.0], n, scale=scale)
    c.close(a, see(p, g, 2), 'tilted by the given angle', 0.05)


def h_two(c, cls='curvature', n=2):
    """curvature sensor: both images"""
    from specula.processing_objects.curvature_sensor import CurvatureSensor
    o = quietly(CurvatureSensor, wavelengthInNm=500.0, wanted_fov=500e-9 / (n * 0.05) * ARC * n, pxscale=500e-9 / (n * 0.05) * ARC * 1.0001, number_px=n,
                defocus_rms_nm=20.0, fov_ovs_coeff=1.0, target_device_idx=-1, precision=0)
    f = field(c, n, 0.05, [(0, 0)], [(0, 1)])
    a = see(o, f, 1, out='out_i1')
    b = o.outputs['out_i2'].i
    c.close(a.sum(), flux(f), 'all the light of the pupil in the first image', 0.1)
    c.close(b.sum(), flux(f), 'all the light of the pupil in the second image', 0.1)


def zsensor(c, n=2, **k):
    from specula.processing_objects.zernike_sensor import ZernikeSensor
    return quietly(ZernikeSensor, simul_params(pixel_pupil=n, pixel_pitch=pitch(2.0, 500.0)), wavelengthInNm=500.0, fov=2.0, pup_diam=2,
                   output_resolution=8, target_device_idx=-1, precision=0, **k)


def h_zernike(c, n=2, **k):
    o = zsensor(c, n, **k)
    f = field(c, n, pitch(2.0, 500.0), [(0, 0)], [(0, 1)])
    i = see(o, f)
    c.close(i.sum(), flux(f) * o.outputs['out_transmission'].value[0], 'the light of the pupil times the transmission', 1e-3)


def harnesses(tier):
    r = []
    r.append(H('sh', h_sh))
    r.append(H('sh lenslets', h_sh, n=4, lens=2, phases=[(0, 0)], amps=[(0, 0)]))
    r.append(H('sh piston', h_piston, make=mk_sh, n=2))
    r.append(H('sh piston lenslets', h_piston, make=mk_sh, n=4, lens=2, amps=[(1, 2), (0, 0), (3, 1)]))
    r.append(H('sh again', h_again, make=mk_sh, n=2))
    r.append(H('sh again lenslets', h_again, make=mk_sh, n=4, lens=2))
    r.append(H('sh share', h_share))
    for lens, sl in ((2, 1), (2, 2), (3, 2)):
        r.append(H(f'distributed {lens}/{sl}', h_distributed, n=2 * lens, lens=lens, slices=sl))
    r.append(H('poly', h_poly))
    r.append(H('poly 3', h_poly, wls=(500.0, 600.0, 900.0)))
    r.append(H('poly tilts', h_poly, tilts=True))
    r.append(H('poly again', h_again, make=mk_poly, n=2))
    r.append(H('poly mono', h_mono))
    r.append(H('poly mono 2', h_mono, count=2))
    r.append(H('poly tilt', h_tilt))
    pt = pitch(2.0, 500.0)
    some = dict(phases=[(0, 0)], amps=[(0, 1)])
    r.append(H('pyramid', h_pyramid, mod_amp=0.0, **some))
    r.append(H('pyramid res', h_pyramid, mod_amp=0.0, pup=1, res=4, **some))
    r.append(H('pyramid wide', h_pyramid, mod_amp=0.0, res=10, **some))
    r.append(H('pyramid odd', h_pyramid, mod_amp=0.0, res=9, **some))
    r.append(H('pyramid circular', h_pyramid, mod_amp=0.5, mod_step=4, **some))
    for m in ('vertical', 'horizontal', 'alternating'):
        r.append(H(f'pyramid {m}', h_pyramid, mod_amp=0.4, mod_step=3, mod_type=m, steps=2 if m == 'alternating' else 1, **some))
        r.append(H(f'pyramid {m} still', h_pyramid, mod_amp=0.0, mod_type=m, **some))
    for e in ('pyr_edge_def_ld', 'pyr_tip_def_ld', 'pyr_tip_maya_ld'):
        r.append(H(f'pyramid {e}', h_pyramid, mod_amp=0.0, **{e: 1.0}, **some))
    r.append(H('pyramid piston', h_piston, make=mk_pyramid, n=2, pitch=pt, mod_amp=0.0, out=('out_i', 'out_psf_tot', 'out_psf_bfm', 'out_transmission')))
    r.append(H('pyramid again', h_again, make=mk_pyramid, n=2, pitch=pt, gp=(), mod_amp=0.5, mod_step=4))
    r.append(H('pyramid stop', h_stop, mod_amp=0.0, fp_obs=0.5))
    r.append(H('pyramid stop circular', h_stop, mod_amp=0.5, mod_step=4))
    r.append(H('pyramid stop vertical', h_stop, mod_amp=0.4, mod_step=3, mod_type='vertical'))
    r.append(H('curvature', h_two))
    r.append(H('zernike', h_zernike))
    return r
