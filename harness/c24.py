"""C24: geometric propagation."""
from engine.common import H
from .util import simul_params, step, rejects
from .zoo import layer

BOUNDS = ('1-3 layers of up to 6x6 pixels with arbitrary phases and transmissions, pupils of 2x2 to 4x4, 1-2 sources, on axis or at an arbitrary '
          'distance in 6 directions, at infinity or at an arbitrary finite height, arbitrary layer offsets, zenith angles 0 and 60 degrees, 1-2 steps')
OUTSIDE = 'larger grids (pixels are sampled independently of each other), layer rotations other than by half a turn, physical (Fresnel) propagation, chromatic shifts'
ASSUMPTIONS = ['scipy RegularGridInterpolator(linear) is encoded as bilinear interpolation between the four surrounding pixels']
T0 = 4
ASEC = 4.848136811095360e-06


def source(polar=(0.0, 0.0), height=float('inf'), mag=5.0):
    from specula.data_objects.source import Source
    return Source(list(polar), mag, 600.0, height=height, target_device_idx=-1)


def build(sources, n=2, zenith=0.0, pitch=1.0, **k):
    from specula.processing_objects.atmo_propagation import AtmoPropagation
    return AtmoPropagation(simul_params(pixel_pupil=n, pixel_pitch=pitch, zenithAngleInDeg=zenith), sources, target_device_idx=-1, **k)


def wire(o, common, atmo=None):
    o.inputs['common_layer_list'].set(common)
    if atmo is not None:
        o.inputs['atmo_layer_list'].set(atmo)


def renew(c, layers, s, A=True):
    for i, ly in enumerate(layers):
        if A:
            ly.A = c.arr(f'A{i}_{s}', ly.size, 0, 1)
        ly.phaseInNm = c.arr(f'P{i}_{s}', ly.size, -5, 5)
        ly.generation_time = T0 + s


def centre(a, n):
    y, x = (a.shape[0] - n) // 2, (a.shape[1] - n) // 2
    return a[y:y + n, x:x + n]


def cell(c, x, N):
    """grid cell of coordinate x, clamped to the grid, and the position within it"""
    if c.decide(x < 0):
        x = 0
    elif c.decide(x > N - 1):
        x = N - 1
    for i in range(N - 1):
        if i == N - 2 or c.decide(x < i + 1):
            return i, x - i


def bilinear(c, a, ys, xs):
    cy, cx = [cell(c, y, a.shape[0]) for y in ys], [cell(c, x, a.shape[1]) for x in xs]
    return [[a[i, j] * (1 - u) * (1 - v) + a[i, j + 1] * (1 - u) * v + a[i + 1, j] * u * (1 - v) + a[i + 1, j + 1] * u * v
             for j, v in cx] for i, u in cy]


def expect(c, ef, A, P, n, what='', tol=1e-4):
    for i in range(n):
        for j in range(n):
            c.close(ef.phaseInNm[i, j], P[i][j], 'phase of the pupil' + what, tol)
            c.close(ef.A[i, j], A[i][j], 'amplitude of the pupil' + what, tol)


def prod(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r * x
    return r


def h_onaxis(c, sizes=(2, 4), n=2, atmo=1, steps=2, heights=None, height=float('inf'), zenith=0.0, upwards=False):
    """nothing displaced: the central part of every layer"""
    ls = [layer(c, f'l{i}', s, height=(heights or [0.0] * len(sizes))[i]) for i, s in enumerate(sizes)]
    src = source(height=height)
    o = build({'s': src}, n, zenith, upwards=upwards)
    k = len(ls) - atmo
    wire(o, ls[:k], ls[k:] if atmo else None)
    o.setup()
    out = o.outputs['out_s_ef']
    for s in range(steps):
        renew(c, ls, s)
        step([o], T0 + s)
        c.equal(out.phaseInNm, sum((centre(x.phaseInNm, n) for x in ls[1:]), centre(ls[0].phaseInNm, n)), 'phases of the layers add up')
        c.equal(out.A, prod([centre(x.A, n) for x in ls]), 'transmissions multiply')
        c.check(out.generation_time == T0 + s, 'the field is marked as of this step')
        c.check(out.size == (n, n) and out.pixel_pitch == 1.0, 'the field has the grid of the pupil')
        c.close(out.S0, src.phot_density(), 'flux density of the source')


def h_offaxis(c, phi=0.0, N=4, n=2, H=1e5, pitch=1.0, zenith=0.0, height=None, atmo=False, ground=True, pos=None, full=True):
    """one layer seen along an arbitrary line of sight, and one at the ground"""
    import math
    am = 1 / math.cos(math.radians(zenith))
    lim = (N - n) / 2
    per = ASEC * H * am / pitch        # pixels per arcsec
    d = c.real('d', 0 if full else 0.01, 1) * lim        # displacement in pixels
    hs = height if height else float('inf')
    src = source([d / per, phi], hs)
    ly = layer(c, 'l', N, height=H)
    g = layer(c, 'g', n)
    o = build({'s': src}, n, zenith, pitch, pupil_position=pos)
    ly.pixel_pitch = g.pixel_pitch = pitch
    common, at = ([g] if ground or atmo else []), [ly]
    wire(o, common if atmo else common + at, at if atmo else None)
    if phi not in (0.0, 90.0, 180.0, 270.0):
        c.assume(d * 1.05 <= lim)
    else:
        c.assume(d * 1.00001 <= lim)
    o.setup()
    step_to(c, [ly] + ([g] if common else []), o)
    cone = 1.0 if not height else (height - H) / height
    dx, dy = d * math.cos(math.radians(phi)), d * math.sin(math.radians(phi))
    px = [(i - (n - 1) / 2) * cone + (N - 1) / 2 + dx for i in range(n)]
    py = [(i - (n - 1) / 2) * cone + (N - 1) / 2 + dy for i in range(n)]
    P, A = bilinear(c, ly.phaseInNm, py, px), bilinear(c, ly.A, py, px)
    if common:
        P = [[P[i][j] + g.phaseInNm[i, j] for j in range(n)] for i in range(n)]
        A = [[A[i][j] * g.A[i, j] for j in range(n)] for i in range(n)]
    expect(c, o.outputs['out_s_ef'], A, P, n, ' along the line of sight')


def step_to(c, ls, o, s=0):
    for ly in ls:
        ly.generation_time = T0 + s
    step([o], T0 + s)


def h_cone(c, N=4, n=2, H=None, zenith=0.0):
    """a source at finite height on the axis: layers are sampled on a converging beam"""
    h = c.real('h', 100.0, 9000.0)
    ly = layer(c, 'l', N, height=h, A=False)
    o = build({'s': source(height=10000.0)}, n, zenith)
    wire(o, [ly])
    o.setup()
    step_to(c, [ly], o)
    cone = (10000.0 - h) / 10000.0
    xs = [(i - (n - 1) / 2) * cone + (N - 1) / 2 for i in range(n)]
    expect(c, o.outputs['out_s_ef'], bilinear(c, ly.A, xs, xs), bilinear(c, ly.phaseInNm, xs, xs), n, ' on a converging beam')


def h_shift(c, N=4, n=2, axis=0, height=0.0, second=False):
    """a displaced layer shows its content displaced"""
    s = c.real('s', -0.999, 0.999)
    sh = [s, 0.0] if axis == 0 else [0.0, s]
    ly = layer(c, 'l', N, height=height, shiftXYinPixel=c.const([0.0, 0.0]))
    ly.shiftXYinPixel = c.xp.array(sh)
    o = build({'s': source()}, n)
    wire(o, [ly])
    c.assume(c.Or(s > 0.001, s < -0.001))
    o.setup()
    step_to(c, [ly], o)
    px = [i + (N - n) / 2 - sh[0] for i in range(n)]
    py = [i + (N - n) / 2 - sh[1] for i in range(n)]
    expect(c, o.outputs['out_s_ef'], bilinear(c, ly.A, py, px), bilinear(c, ly.phaseInNm, py, px), n, ' through a displaced layer')


def h_whole(c, N=5, n=3):
    """displacement by whole pixels in both directions moves pixels without changing them"""
    sx, sy = c.pickint('sx', -1, 1), c.pickint('sy', -1, 1)
    ly = layer(c, 'l', N, shiftXYinPixel=(float(sx), float(sy)))
    o = build({'s': source()}, n)
    wire(o, [ly])
    o.setup()
    step_to(c, [ly], o)
    e, m = o.outputs['out_s_ef'], (N - n) // 2
    c.close(e.phaseInNm, ly.phaseInNm[m - sy:m - sy + n, m - sx:m - sx + n], 'phase moved by whole pixels', 1e-5)
    c.close(e.A, ly.A[m - sy:m - sy + n, m - sx:m - sx + n], 'amplitude moved by whole pixels', 1e-5)


def h_turn(c, N=4, n=2):
    ly = layer(c, 'l', N, rotInDeg=180.0)
    o = build({'s': source()}, n)
    wire(o, [ly])
    o.setup()
    step_to(c, [ly], o)
    e = o.outputs['out_s_ef']
    c.close(e.phaseInNm, centre(ly.phaseInNm, n)[::-1, ::-1], 'half a turn reverses the phase', 1e-4)
    c.close(e.A, centre(ly.A, n)[::-1, ::-1], 'half a turn reverses the amplitude', 1e-4)


def h_magnify(c, N=4, n=4, mag=2.0):
    """a magnified layer without dark pixels"""
    ly = layer(c, 'l', N, magnification=mag, alo=0.5)
    o = build({'s': source()}, n)
    wire(o, [ly])
    o.setup()
    P, A = ly.phaseInNm.copy(), ly.A.copy()
    step_to(c, [ly], o)
    xs = [(i - (n - 1) / 2) / mag + (N - 1) / 2 for i in range(n)]
    expect(c, o.outputs['out_s_ef'], bilinear(c, A, xs, xs), bilinear(c, P, xs, xs), n, ' through a magnified layer')


def h_order(c, n=2, N=4):
    """the result does not depend on the order or grouping of the layers"""
    a, b, d = layer(c, 'a', N), layer(c, 'b', N, height=1e5), layer(c, 'd', N, shiftXYinPixel=(0.5, 0.25))
    res = []
    for common, atmo in (([a, b, d], None), ([d, a], [b]), ([b], [d, a]), ([a], [d, b])):
        o = build({'s': source([1.0, 0.0])}, n)
        wire(o, common, atmo)
        o.setup()
        step_to(c, [a, b, d], o)
        e = o.outputs['out_s_ef']
        res.append((e.A.copy(), e.phaseInNm.copy()))
    for A, P in res[1:]:
        c.close(A, res[0][0], 'amplitude independent of the order of layers')
        c.close(P, res[0][1], 'phase independent of the order of layers')


def h_linear(c, n=2, N=4, height=float('inf')):
    """superposition, through interpolated layers and from step to step"""
    ls = [layer(c, f'l{i}', N, height=h, A=False, **k) for i, (h, k) in
          enumerate([(0.0, dict(shiftXYinPixel=(0.5, -0.25))), (5e4, {})])]
    o = build({'s': source([0.5, 30.0], height)}, n)
    wire(o, ls[:1], ls[1:])
    o.setup()
    k = c.real('k', -2, 2)
    pa = [c.arr(f'a{i}', (N, N), -5, 5) for i in range(2)]
    pb = [c.arr(f'b{i}', (N, N), -5, 5) for i in range(2)]
    res = []
    for s, (p, q) in enumerate([(1, 0), (0, 1), (1, k), (0, 0)]):
        for i, ly in enumerate(ls):
            ly.phaseInNm = pa[i] * p + pb[i] * q
        step_to(c, ls, o, s)
        res.append(o.outputs['out_s_ef'].phaseInNm.copy())
    c.close(res[2], res[0] + k * res[1], 'propagation is linear in the phases', 1e-3)
    c.close(res[3], 0 * res[3], 'flat layers give a flat pupil', 1e-6)


def h_sources(c, n=2, N=4):
    """every source has its own field"""
    ly = layer(c, 'l', N, height=1e5)
    d = [c.real('d0', 0, 1.0), c.real('d1', 0, 1.0)]
    per = ASEC * 1e5
    phi = [0.0, 90.0]
    c.assume(d[0] < 0.999)
    c.assume(d[1] < 0.999)
    src = {f's{i}': source([d[i] / per, phi[i]], mag=3.0 + i) for i in range(2)}
    o = build(src, n)
    wire(o, [ly])
    o.setup()
    step_to(c, [ly], o)
    for i in range(2):
        g = [j + (N - n) / 2 for j in range(n)]
        m = [x + d[i] for x in g]
        py, px = (g, m) if i == 0 else (m, g)
        e = o.outputs[f'out_s{i}_ef']
        expect(c, e, bilinear(c, ly.A, py, px), bilinear(c, ly.phaseInNm, py, px), n, f' of source {i}')
        c.close(e.S0, src[f's{i}'].phot_density(), 'flux density of each source')


def h_pupil(c, n=2, N=6, height=None):
    """a pupil away from the centre of the layers: beams of finite sources start from there and meet at the source"""
    px, py = c.real('px', 0.1, 1.0), c.pick('py', [-1.0, 0.5])
    h, r = 2e4, 0.0
    ly = layer(c, 'l', N, height=h, A=False)
    g = layer(c, 'g', N, height=0.0, A=False)
    o = build({'s': source([r, 0.0], height or float('inf'))}, n, pupil_position=[0.0, 0.0])
    o.pupil_position = c.xp.array([px, py])
    wire(o, [g, ly])
    o.setup()
    step_to(c, [g, ly], o)
    P = None
    for x, k in ((g, 1.0), (ly, 1.0 - h / height if height else 1.0)):
        xs = [(i - (n - 1) / 2) * k + (N - 1) / 2 + px * k for i in range(n)]
        ys = [(i - (n - 1) / 2) * k + (N - 1) / 2 + py * k for i in range(n)]
        q = bilinear(c, x.phaseInNm, ys, xs)
        P = q if P is None else [[P[i][j] + q[i][j] for j in range(n)] for i in range(n)]
    e = o.outputs['out_s_ef']
    for i in range(n):
        for j in range(n):
            c.close(e.phaseInNm[i, j], P[i][j], 'phase seen from a displaced pupil', 1e-4)


def h_separate(c, n=2, N=4):
    """contributions of the layers kept apart: one field for each layer"""
    ls = [layer(c, 'g', n), layer(c, 'l', N), layer(c, 'm', N)]
    o = build({'s': source()}, n, mergeLayersContrib=False)
    wire(o, ls[:1], ls[1:])
    o.setup()
    for s in range(2):
        renew(c, ls, s)
        step([o], T0 + s)
        es = o.outputs['out_s_ef']
        c.check(len(es) == 3, 'one field for each layer')
        for e, ly in zip(es, ls[::-1]):
            c.equal(e.phaseInNm, centre(ly.phaseInNm, n), 'phase of one layer')
            c.equal(e.A, centre(ly.A, n), 'amplitude of one layer')
            c.check(e.generation_time == T0 + s, 'each field is marked as of this step')


def h_reject(c):
    o = build({'s': source([60.0, 0.0])}, 2)
    wire(o, [layer(c, 'l', 4, height=1e5)])
    c.check(rejects(o.setup, ValueError), 'a source outside of the layer is rejected')
    for ph in (90.0, 180.0, 270.0, 45.0):
        o = build({'s': source([4.5, ph])}, 2)
        wire(o, [layer(c, 'l', 4, height=1e5)])
        c.check(rejects(o.setup, ValueError), 'a source outside of the layer is rejected in every direction')
    o = build({'s': source(height=1e4)}, 2)
    wire(o, [layer(c, 'l', 4, height=2e4)])
    c.check(rejects(o.setup, ValueError), 'a layer above the source is rejected')
    c.check(rejects(lambda: build({}, 2), ValueError), 'no source is rejected')


def harnesses(tier):
    big = tier == 'thorough'
    out = [H('onaxis', h_onaxis), H('onaxis_3', h_onaxis, sizes=(2, 2, 6), atmo=2), H('onaxis_common', h_onaxis, sizes=(3, 5), n=3, atmo=0, steps=1),
           H('onaxis_height', h_onaxis, sizes=(2, 4), heights=[0.0, 9000.0], zenith=60.0, steps=1), H('onaxis_up', h_onaxis, upwards=True, steps=1),
           H('onaxis_finite', h_onaxis, sizes=(2, 4), height=9e4, steps=1)]
    for ph in (0.0, 90.0, 180.0, 270.0, 30.0, 225.0):
        out.append(H(f'offaxis_{int(ph)}', h_offaxis, phi=ph, ground=ph == 0.0, atmo=ph == 90.0))
    out += [H('offaxis_zenith', h_offaxis, phi=180.0, zenith=60.0, ground=False), H('offaxis_pitch', h_offaxis, phi=90.0, pitch=0.25, ground=False),
            H('offaxis_cone', h_offaxis, phi=0.0, H=3e4, height=1.2e5, ground=False, full=False), H('offaxis_cone_30', h_offaxis, phi=30.0, H=3e4, height=1.2e5, ground=False, full=False),
            H('offaxis_wide', h_offaxis, phi=0.0, N=6, ground=False), H('cone', h_cone), H('cone_3', h_cone, N=3, n=3), H('cone_zenith', h_cone, N=2, n=2, zenith=60.0),
            H('shift_x', h_shift), H('shift_y', h_shift, axis=1), H('shift_high', h_shift, height=5000.0), H('whole', h_whole), H('turn', h_turn),
            H('magnify', h_magnify), H('magnify_3', h_magnify, N=6, n=3, mag=3.0), H('order', h_order), H('linear', h_linear), H('linear_finite', h_linear, height=9e4),
            H('sources', h_sources), H('pupil', h_pupil), H('pupil_finite', h_pupil, height=8e4), H('separate', h_separate), H('reject', h_reject)]
    if big:
        out += [H('onaxis_big', h_onaxis, sizes=(4, 6, 6, 8), n=4, atmo=2), H('offaxis_big', h_offaxis, phi=150.0, N=6, n=4, ground=False, budget=200),
                H('cone_big', h_cone, N=6, n=4, budget=200), H('shift_big', h_shift, N=6, n=4, budget=200)]
    return out
