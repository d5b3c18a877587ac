"""C38: photometry, sampling geometry, atmospheric dispersion and satellite winds."""
import math
from engine.common import H
from .util import simul_params, step, rejects, quiet
from .zoo import layer
from .c24 import build, wire, T0, bilinear, expect

BOUNDS = ('every band of both photometric models, arbitrary magnitudes in [-5, 20], wavelengths in [0.3, 6] um, bandwidths, surfaces and times; pupils of '
          '4 to 16 pixels with arbitrary pitch, wavelength and field of view (up to 3 times interpolation); arbitrary wind and satellite velocities for '
          '2 layers; refractivity for arbitrary wavelengths in [0.35, 1.29] um, pressures and temperatures; one layer at 3 heights, zenith angles 0, 30 and 60 degrees')
OUTSIDE = 'the infrared (Mathar) refractivity coefficients; humid air; altitudes other than the ones listed; band tables themselves are compared with literature values'
ASSUMPTIONS = ['exp(a + k) = exp(a) exp(k) for constants k (symbolic runs instantiate it)']
LENA = {'U': (.36, .068, 435., 23.), 'B': (.44, .098, 720., 22.), 'V': (.55, .089, 392., 21.), 'R': (.70, .220, 176., 20.), 'I': (.90, .240, 83., 19.5),
        'J': (1.25, .300, 34., 14.), 'H': (1.65, .350, 7., 13.5), 'K': (2.20, .400, 3.9, 12.5), 'L': (3.40, .550, .81, 3.), 'M': (5.00, .300, .22, 0.),
        'Na': (.589, .010, 392., 23.)}
HC = 6.626e-34 * 3e8
LN10 = math.log(10)


def law(c, lam, width, e0, mag, surf=1.0, dt=1.0):
    """photons of a star (SI units)"""
    return lam * dt * surf * (width * 1e6) * e0 / HC * c.exp(mag * (-LN10 / 2.5))


def same(c, a, b, label):
    """equal up to rounding, for positive numbers of any size"""
    c.close(a / b, 1.0, label, 1e-6)


def h_flux(c, band, own=False):
    """photons in a band: proportional to surface, time, width and brightness, a factor 100 every 5 magnitudes"""
    from specula.lib.n_phot import n_phot
    lam, w, e0, bg = LENA[band]
    lam, w, e0 = lam * 1e-6, w * 1e-6, e0 * 1e-10
    m, s, t = c.real('m', -5, 20), c.real('s', 0.1, 1000), c.real('t', 1e-3, 100)
    k = {}
    if own:
        lam, w, e0, bg = c.real('l', 0.3, 6) * 1e-6, c.real('w', 1e-3, 1) * 1e-6, c.real('e', 1, 1000) * 1e-10, c.real('b', 5, 25)
        k = dict(lambda_=lam, width=w, e0=e0, back_mag=bg)
    n, b = n_phot(m, band=band, surf=s, delta_t=t, **k)
    same(c, n, law(c, lam, w, e0, m, s, t), 'photons of the source')
    same(c, b, law(c, lam, w, e0, bg, s, t), 'photons of the sky')
    n5, b5 = n_phot(m + 5.0, band=band, surf=s, delta_t=t, **k)
    same(c, n5 * 100.0, n, 'five magnitudes are a factor of 100')
    same(c, b5, b, 'the sky does not depend on the source')


def h_lambda(c, na=False):
    """a wavelength alone selects the band whose centre is nearest"""
    from specula.lib.n_phot import n_phot
    lu = c.real('l', 0.5885, 0.5895) if na else c.real('l', 0.3, 6)
    tab = [v for k, v in LENA.items() if k != 'Na']
    lam = lu * 1e-6
    if na:
        c.assume(c.abs(c.abs(lu - 0.589) - 0.0001) > 1e-7)
    else:
        c.assume(c.abs(lu - 0.589) > 0.0002)
    for i, v in enumerate(tab[1:]):
        c.assume(c.abs(lu - (v[0] + tab[i][0]) / 2) > 1e-6)
    with quiet():
        n, b = n_phot(0.0, lambda_=lam)
    if na and c.decide(c.abs(lu - 0.589) < 0.0001):
        want = LENA['Na']
    else:
        want = None
        for v in tab:
            if want is None or c.decide(c.abs(lu - v[0]) < c.abs(lu - want[0])):
                want = v
    same(c, n, law(c, lam, want[1] * 1e-6, want[2] * 1e-10, 0.0), 'width and brightness of the nearest band')
    same(c, b, law(c, lam, want[1] * 1e-6, want[2] * 1e-10, want[3]), 'sky of the nearest band')


def h_nothing(c):
    from specula.lib.n_phot import n_phot
    m = c.real('m', 0, 10)
    c.check(rejects(lambda: n_phot(m), Exception), 'neither band nor wavelength')
    c.check(rejects(lambda: n_phot(m, band='Q'), Exception), 'unknown band')


def h_source(c, band='', zero=False, finite=False):
    """flux density per nanometre, and the position on the sky"""
    from specula.data_objects.source import Source
    m = c.real('m', -5, 20)
    z = c.real('z', 1, 1000) * 1e-10 if zero else 0
    wl = [450.0, 600.0, 1650.0][c.pickint('wl', 0, 2)]
    r, phi = c.real('r', 0, 60), [0.0, 30.0, 90.0, 225.0][c.pickint('phi', 0, 3)]
    e = c.real('e', -1, 1)
    h = c.real('h', 1e4, 1e5) if finite else float('inf')
    with quiet():
        s = Source([r, phi], m, wl, height=h, band=band, zero_point=z, error_coord=(e, 0.0), target_device_idx=-1, precision=0)
    near = min((v for k, v in LENA.items() if k != 'Na'), key=lambda v: abs(v[0] - wl / 1e3)) if not band else LENA[band]
    with quiet():
        d = s.phot_density()
    same(c, d, law(c, wl * 1e-9, 1e-9, z if zero else near[2] * 1e-10, m), 'photons per square metre, second and nanometre')
    c.close(s.r_arcsec, r + e, 'distance from the axis, with its error', 1e-4)
    c.close(s.r, (r + e) * (math.pi / 180 / 3600), 'in radians', 1e-6)
    c.close(s.phi, math.radians(phi), 'direction', 1e-6)
    c.equal(s.phi_deg, phi, 'direction')
    if finite:
        a = (r + e) * (math.pi / 180 / 3600)
        c.close(s.x_coord, h * c.sin(a) * math.cos(math.radians(phi)), 'position in metres', 1e-2)
        c.close(s.y_coord, h * c.sin(a) * math.sin(math.radians(phi)), 'position in metres', 1e-2)


def h_geometry(c, D=8, res=3.0, most=3.2):
    """the FFT covers the field of view within the accepted error, or is refused"""
    from specula.lib.calc_geometry import calc_geometry
    pitch, wl = c.real('pitch', 0.05, 0.5), 750.0
    fov = c.real('fov', 0.3, 10)
    lo, up = c.real('lo', 0, 0.4), c.real('up', 0, 1)
    own = wl * 1e-9 / pitch * (180 * 3600 / math.pi)
    c.assume(fov * (1 - lo) <= own * most)
    c.assume(c.abs(own - fov * (1 + up)) > 1e-6)
    for k in (1, 2, 3, 4):
        c.assume(c.abs(fov * (1 - lo) - k * own) > 1e-6)
    big = c.decide(own > fov * (1 + up))
    with quiet():
        if big:
            c.check(rejects(lambda: calc_geometry(D, pitch, wl, fov, lo, up, res), ValueError), 'field of view larger than accepted refused')
            return
        g = calc_geometry(D, pitch, wl, fov, lo, up, res)
    k = g['fov_res']
    c.check(k >= 1, 'whole interpolation factor')
    c.check(own * k >= fov * (1 - lo) - 1e-6, 'the covered field reaches the accepted one')
    if k > 1:
        c.check(own * (k - 1) < fov * (1 - lo) + 1e-6, 'with the least interpolation')
    if c.decide(own * k >= fov):
        c.close(g['fp_masking'] * own * k, fov, 'a mask cuts the requested field out', 1e-4)
    else:
        c.close(g['fp_masking'], 1.0, 'no mask when the field is smaller', 1e-6)
    k = int(k)
    tot = g['fft_totsize']
    c.check(g['fft_sampling'] == D * k, 'sampling of the pupil')
    c.check(tot % 2 == 0, 'even size')
    c.check(c.abs(tot - D * k * res) <= 1.001, 'nearest size to the requested resolution')
    c.close(g['fft_res'] * D * k, tot, 'resolution of the actual size', 1e-5)
    c.check(g['fft_padding'] % 2 == 0 and abs(g['fft_padding'] - (tot - D * k)) <= 1, 'padding around the pupil')


def h_wind(c, case):
    """the wind seen from a tracked satellite is the sum of the wind and the slewing"""
    from specula.lib import fsoc_lib
    v = [c.real(f'v{i}', 0, 50) for i in range(2)]
    d, od = [[90.0, 0.0], [30.0, 200.0], [-60.0, 135.0]][case], [45.0, -120.0, 0.0][case]
    h = [1000.0, 12000.0]
    H, speed = c.real('H', 2e5, 2e6), [7000.0, 3000.0, 7600.0][case]
    paa = fsoc_lib.calc_paa(speed, c.xp)
    c.close(paa, 2 * speed / 299792458.0 * (180 * 3600 / math.pi), 'point ahead angle', 1e-6)
    e, ang = fsoc_lib.calc_effective_wind_speed(c.xp.array(h), c.xp.array(v), c.xp.array(d), H, speed, od, c.xp)
    slew = math.tan(2 * speed / 299792458.0) * 299792458.0
    for i in range(2):
        s = slew * h[i] / H
        y = v[i] * math.sin(math.radians(d[i])) + s * math.sin(math.radians(od))
        x = v[i] * math.cos(math.radians(d[i])) + s * math.cos(math.radians(od))
        c.close(e[i] * e[i], x * x + y * y, 'speed of the sum of both velocities', 1e-2)
        a = ang[i] * (math.pi / 180)
        c.close(e[i] * c.cos(a), x, 'direction of the sum of both velocities', 1e-2)
        c.close(e[i] * c.sin(a), y, 'direction of the sum of both velocities', 1e-2)


def h_timing(c, z=60.0):
    from specula.lib.fsoc_lib import calc_timing_uplink_downlink
    H, h = c.real('H', 2e5, 2e6), c.arr('h', (2,), 0, 3e4)
    up, down = calc_timing_uplink_downlink(z, H, h, c.xp)
    am = 1 / math.cos(math.radians(z))
    for i in range(2):
        c.close(down[i] * 1e6, h[i] * am / 299.792458, 'light comes down from the layer', 1e-3)
        c.close((up[i] + down[i]) * 1e6, 2 * H * am / 299.792458, 'up and down together are the way there and back', 1e-3)


def h_air(c):
    """refractivity of dry air: proportional to pressure, inversely to temperature, decreasing with wavelength"""
    from specula.lib.air_refraction import MatharAirRefraction
    m = MatharAirRefraction()
    w = [0.4, 0.633, 1.0, 1.29][c.pickint('w', 0, 3)]
    T, p = c.real('T', -20, 40), c.real('p', 6e4, 1.1e5)
    n = m.get_refractive_index(w * 1e-6, T_celsius=T, P_pa=p)
    ref = m.get_refractive_index(w * 1e-6)
    c.close(n * 1e8 * (T + 273.15), ref * 1e8 * 288.15 * p / 101325.0, 'density of the air', 1.0)
    s = 1 / w ** 2
    known = (5792105.0 / (238.0185 - s) + 167917.0 / (57.362 - s)) * 1e-8
    c.close(ref * 1e8, known * 1e8, 'refractivity of standard air', 1e-2)


def h_colour(c):
    from specula.lib.air_refraction import MatharAirRefraction
    m = MatharAirRefraction()
    a, b = c.real('a', 0.35, 1.29), c.real('b', 0.35, 1.29)
    c.assume(b >= a + 0.01)
    x, y = m.get_refractive_index(a * 1e-6), m.get_refractive_index(b * 1e-6)
    c.check(x > y, 'blue light is refracted more')


def h_dispersion(c, height=5000.0, zenith=30.0, alt=0.0, ref=589.0, wl=1650.0, r=0.0):
    """with the chromatic effect the layer is seen displaced along the elevation axis, and only then"""
    from specula.data_objects.source import Source
    N, n, pitch = 6, 2, 0.02
    ly = layer(c, 'l', N, height=height)
    g = layer(c, 'g', n)
    ly.pixel_pitch = g.pixel_pitch = pitch
    on = c.flag('on')
    src = Source([r, 0.0], 5.0, wl, target_device_idx=-1)
    k = dict(telescope_altitude_m=alt, enable_chromatic_effect=True, chromatic_reference_wavelengthInNm=ref) if on else {}
    o = build({'s': src}, n, zenith, pitch, **k)
    wire(o, [g], [ly])
    o.setup()
    for x in (ly, g):
        x.A = c.arr('A' + str(x.size[0]), x.size, 0, 1)
        x.phaseInNm = c.arr('P' + str(x.size[0]), x.size, -5, 5)
        x.generation_time = T0
    step([o], T0)
    from specula.lib.air_refraction import MatharAirRefraction
    air = MatharAirRefraction()
    z = math.radians(zenith)
    P = lambda h: 1012.9 * ((288.08 - 0.00649 * h) / 288.08) ** 5.256 if h < 11000 else 226.5 * math.exp(1.73 - 0.000157 * h)
    dN = float(air.get_refractive_index(ref * 1e-9)) - float(air.get_refractive_index(wl * 1e-9))
    want = dN * math.tan(z) / math.cos(z) * P(alt) * 100 / (9.8 * 1.225) * (1 - P(alt + height) / P(alt)) if on else 0.0
    dy = want / pitch
    assert abs(dy) < 1.9, dy
    dx = r * 4.848136811095360e-06 * height / math.cos(z) / pitch
    px = [(i - (n - 1) / 2) + (N - 1) / 2 + dx for i in range(n)]
    py = [(i - (n - 1) / 2) + (N - 1) / 2 + dy for i in range(n)]
    Q, B = bilinear(c, ly.phaseInNm, py, px), bilinear(c, ly.A, py, px)
    Q = [[Q[i][j] + g.phaseInNm[i, j] for j in range(n)] for i in range(n)]
    B = [[B[i][j] * g.A[i, j] for j in range(n)] for i in range(n)]
    expect(c, o.outputs['out_s_ef'], B, Q, n, ' through the dispersed beam', 1e-3)


def harnesses(tier):
    r = []
    for b in LENA:
        r.append(H(f'flux {b}', h_flux, band=b))
    r.append(H('flux own', h_flux, band='R', own=True))
    r.append(H('lambda', h_lambda))
    r.append(H('lambda Na', h_lambda, na=True))
    r.append(H('nothing', h_nothing))
    r.append(H('source', h_source))
    r.append(H('source band', h_source, band='R'))
    r.append(H('source zero', h_source, zero=True))
    r.append(H('source finite', h_source, finite=True))
    for D, res in ((8, 3.0), (16, 2.0), (5, 3.0), (4, 2.7)):
        r.append(H(f'geometry {D} {res}', h_geometry, D=D, res=res))
    for k in range(3):
        r.append(H(f'wind {k}', h_wind, case=k))
    r.append(H('timing', h_timing))
    r.append(H('timing zenith', h_timing, z=0.0))
    r.append(H('air', h_air))
    r.append(H('colour', h_colour))
    r.append(H('dispersion', h_dispersion))
    r.append(H('dispersion off axis', h_dispersion, r=0.5, zenith=60.0, wl=700.0))
    r.append(H('dispersion high', h_dispersion, height=12000.0, wl=1200.0))
    r.append(H('dispersion blue', h_dispersion, wl=450.0, zenith=60.0, alt=2600.0))
    r.append(H('dispersion zenith', h_dispersion, zenith=0.0))
    return r
