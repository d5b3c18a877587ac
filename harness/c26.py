"""C26: bilinear resampling."""
import math
import numpy
from engine.common import H
from .util import rejects
from .c24 import cell
from .zoo import efield

BOUNDS = ('arrays of 1x2 to 5x5 with arbitrary values; arbitrary sampling positions, also outside of the array; regular grids of up to 5x5 with '
          'arbitrary shifts, magnifications 0.5 to 2, 8 rotations; interpolated fields on 4 masks of up to 5x5 pixels')
OUTSIDE = 'the GPU kernels; larger arrays (each output value depends on four input values)'
ASSUMPTIONS = ['scipy RegularGridInterpolator(linear) is encoded as bilinear interpolation between the four surrounding pixels']


def interp(c, ish, osh, **k):
    from specula.lib.interp2d import Interp2D
    return Interp2D(ish, osh, xp=c.xp, **k)


def sample(c, a, y, x):
    i, u = cell(c, y, a.shape[0])
    j, v = cell(c, x, a.shape[1])
    return a[i, j] * (1 - u) * (1 - v) + a[i, j + 1] * (1 - u) * v + a[i + 1, j] * u * (1 - v) + a[i + 1, j + 1] * u * v


def clamp(c, v, hi):
    if c.decide(v < 0):
        return 0
    return hi if c.decide(v > hi) else v


def h_point(c, n=2, m=3, out=False):
    """one arbitrary position"""
    y, x = c.real('y', -0.9, n - 0.1), c.real('x', -0.9, m - 0.1)
    a = c.arr('a', (n, m), -5, 5)
    o = interp(c, (n, m), (1, 1), yy=c.xp.array([[y]]), xx=c.xp.array([[x]]))
    buf = c.xp.zeros((1, 1)) if out else None
    r = o.interpolate(a, out=buf) if out else o.interpolate(a)
    c.check(r.shape == (1, 1), 'shape of the result')
    if out:
        c.check(r is buf, 'the given array is filled')
    c.close(r[0, 0], sample(c, a, y, x), 'bilinear value between the four nearest pixels', 1e-3)
    lo, hi = c.real('lo', -5, 5), c.real('hi', -5, 5)
    for i in range(n):
        for j in range(m):
            c.assume(a[i, j] >= lo)
            c.assume(a[i, j] <= hi)
    c.check(r[0, 0] >= lo - 1e-4, 'never below the smallest input')
    c.check(r[0, 0] <= hi + 1e-4, 'never above the largest input')


def h_ramp(c, n=3, m=4):
    """constants and ramps at an arbitrary inner position, the value at the border outside"""
    y, x = c.real('y', -0.5, n - 0.5), c.real('x', -0.5, m - 0.5)
    k, g, h = c.real('k', -5, 5), c.real('g', -2, 2), c.real('h', -2, 2)
    a = c.xp.array([[k + g * i + h * j for j in range(m)] for i in range(n)])
    o = interp(c, (n, m), (1, 1), yy=c.xp.array([[y]]), xx=c.xp.array([[x]]))
    r = o.interpolate(a)[0, 0]
    yc, xc = clamp(c, y, n - 1), clamp(c, x, m - 1)
    c.close(r, k + g * yc + h * xc, 'a ramp is reproduced', 1e-3)


def grid(ish, osh):
    return [[(i * (ish[0] - 1) / osh[0], j * (ish[1] - 1) / osh[1]) for j in range(osh[1])] for i in range(osh[0])]


def coords(ish, osh, rot=0.0, mag=1.0, dy=0.0, dx=0.0):
    """the documented grid: output pixels spread over the input, magnified and turned about its centre, then shifted"""
    yc, xc = ish[0] / 2 - 0.5, ish[1] / 2 - 0.5
    co, si = math.cos(math.radians(rot)), math.sin(math.radians(rot))
    out = []
    for row in grid(ish, osh):
        r = []
        for y, x in row:
            y, x = (y - yc) / mag, (x - xc) / mag
            r.append((x * si + y * co + yc + dy, x * co - y * si + xc + dx))
        out.append(r)
    return out


def h_grid(c, ish=(3, 3), osh=(3, 3), rot=0.0, mag=None, shift=False, ramp=False):
    dy, dx = (c.real('dy', -1.5, 1.5), c.real('dx', -1.5, 1.5)) if shift else (0.0, 0.0)
    if shift:
        c.assume(c.Or(dy > 0.01, dy < -0.01))
    g = c.real('mag', *mag) if isinstance(mag, tuple) else (mag or 1.0)
    o = interp(c, ish, osh, rotInDeg=rot, magnification=g, rowShiftInPixels=dy, colShiftInPixels=dx, dtype=c.xp.float64)
    if ramp:
        k, p, q = c.real('k', -5, 5), c.real('p', -2, 2), c.real('q', -2, 2)
        a = c.xp.array([[k + p * i + q * j for j in range(ish[1])] for i in range(ish[0])])
    else:
        a = c.arr('a', ish, -5, 5)
    keep = a.copy()
    r = o.interpolate(a)
    c.check(r.shape == osh, 'shape of the result')
    for i, row in enumerate(coords(ish, osh, rot, g, dy, dx)):
        for j, (y, x) in enumerate(row):
            if ramp:
                c.close(r[i, j], k + p * clamp(c, y, ish[0] - 1) + q * clamp(c, x, ish[1] - 1), 'a ramp is reproduced', 1e-3)
            else:
                c.close(r[i, j], sample(c, a, y, x), 'value at the documented position', 1e-3)
    c.equal(a, keep, 'the input is left alone')


def h_constant(c, ish=(3, 4), osh=(5, 2)):
    k = c.real('k', -10, 10)
    a = k + c.xp.zeros(ish)
    for rot in (0, 30, 90, 135, 180, 200, 270, -45):
        for mag in (0.5, 1.0, 1.7):
            for dy, dx in ((0, 0), (0.3, -2), (5, 1.5)):
                o = interp(c, ish, osh, rotInDeg=rot, magnification=mag, rowShiftInPixels=dy, colShiftInPixels=dx)
                c.close(o.interpolate(a), k + c.xp.zeros(osh), 'a constant stays what it is', 1e-3)


def h_identity(c, n=3, m=4):
    a = c.arr('a', (n, m), -5, 5)
    o = interp(c, (n, m), (n, m))
    c.equal(o.interpolate(a), a, 'nothing to do returns the input')
    buf = c.xp.zeros((n, m))
    r = o.interpolate(a, out=buf)
    c.check(r is buf, 'the given array is filled')
    c.equal(buf, a, 'nothing to do copies the input')


def h_whole(c, n=4, m=5):
    """whole pixels"""
    dy, dx = c.pickint('dy', -2, 2), c.pickint('dx', -2, 2)
    a = c.arr('a', (n, m), -5, 5)
    yy, xx = numpy.mgrid[0:n, 0:m]
    o = interp(c, (n, m), (n, m), yy=c.xp.array(yy * 1.0), xx=c.xp.array(xx * 1.0), rowShiftInPixels=float(dy), colShiftInPixels=float(dx))
    r = o.interpolate(a)
    for i in range(n):
        for j in range(m):
            y, x = min(max(i + dy, 0), n - 1), min(max(j + dx, 0), m - 1)
            c.close(r[i, j], a[y, x], 'whole pixels are moved unchanged', 1e-5)


def h_turns(c, n=4):
    """turns about the centre, on the grid of the input"""
    a = c.arr('a', (n, n), -5, 5)
    yy, xx = numpy.mgrid[0:n, 0:n]
    r = {}
    for rot in (0, 90, 180, 270, 360):
        r[rot] = interp(c, (n, n), (n, n), yy=c.xp.array(yy * 1.0), xx=c.xp.array(xx * 1.0), rotInDeg=rot, dtype=c.xp.float64).interpolate(a)
    c.close(r[0], a, 'no turn', 1e-4)
    c.close(r[360], a, 'a full turn', 1e-3)
    c.close(r[180], a[::-1, ::-1], 'half a turn', 1e-3)
    c.close(r[90], a[:, ::-1].T, 'a quarter turn', 1e-3)
    c.close(r[270], a[::-1, :].T, 'three quarter turns', 1e-3)


def h_linear(c, ish=(3, 3), osh=(4, 2), **k):
    a, b, t = c.arr('a', ish, -5, 5), c.arr('b', ish, -5, 5), c.real('t', -2, 2)
    o = interp(c, ish, osh, **k)
    c.close(o.interpolate(a + t * b), o.interpolate(a) + t * o.interpolate(b), 'resampling is linear', 1e-2)


def h_reject(c):
    o = interp(c, (2, 3), (4, 4))
    c.check(rejects(lambda: o.interpolate(c.xp.zeros((3, 2))), ValueError), 'an array of another shape is rejected')
    z = c.xp.zeros((2, 2))
    c.check(rejects(lambda: interp(c, (2, 3), (4, 4), xx=z, yy=z), ValueError), 'positions of another shape are rejected')


MASKS = {
    'disc': [[0, 1, 1, 0], [1, 1, 1, 1], [1, 1, 1, 1], [0, 1, 1, 0]],
    'full': [[1, 1, 1], [1, 1, 1], [1, 1, 1]],
    'ring': [[0, 0, 0, 0, 0], [0, 1, 1, 1, 0], [0, 1, 0, 1, 0], [0, 1, 1, 1, 0], [0, 0, 0, 0, 0]],
    'soft': [[0, 0.5, 0, 0], [0.25, 1, 0.75, 0], [0, 1, 1, 0.5], [0, 0, 0.5, 0]],
}


def fields(c, mask, osh, same=False, **k):
    from specula.lib.extrapolation_2d import EFInterpolator
    M = MASKS[mask]
    f = efield(c, 'f', len(M), len(M[0]))
    f.A = c.const([[float(v) for v in r] for r in M])
    o = EFInterpolator(f, osh, target_device_idx=-1, **k)
    return f, o, M


def sides(M, i, j):
    n, m = len(M), len(M[0])
    return [(a, b) for a, b in ((i - 1, j), (i + 1, j), (i, j - 1), (i, j + 1)) if 0 <= a < n and 0 <= b < m]


def lit(M, i, j):
    return 0 <= i < len(M) and 0 <= j < len(M[0]) and M[i][j] >= 1e-3


def h_field(c, mask='disc', osh=(8, 8), **k):
    """an interpolated field: dark pixels do not matter, constants stay, ramps stay"""
    f, o, M = fields(c, mask, osh, **k)
    n, m = f.size
    P, A = f.phaseInNm.copy(), f.A.copy()
    o.interpolate()
    out = o.interpolated_ef()
    c.check(out.size == osh, 'shape of the interpolated field')
    c.close(out.pixel_pitch, f.pixel_pitch * n / osh[0], 'pitch of the interpolated field')
    c.equal(f.phaseInNm, P, 'the phase of the input is left alone')
    c.equal(f.A, A, 'the amplitude of the input is left alone')
    first = out.phaseInNm.copy()
    q = c.arr('q', (n, m), -5, 5)
    f.phaseInNm = c.xp.array([[P[i, j] if lit(M, i, j) else q[i, j] for j in range(m)] for i in range(n)])
    o.interpolate()
    c.close(out.phaseInNm, first, 'the phase of dark pixels does not matter', 1e-3)
    # superposition
    p2, t = c.arr('p2', (n, m), -5, 5), c.real('t', -2, 2)
    f.phaseInNm = p2
    o.interpolate()
    second = out.phaseInNm.copy()
    f.phaseInNm = P + t * p2
    o.interpolate()
    c.close(out.phaseInNm, first + t * second, 'phases are interpolated linearly', 1e-2)


def h_field_const(c, mask='disc', osh=(8, 8), **k):
    f, o, M = fields(c, mask, osh, **k)
    n, m = f.size
    v = c.real('v', -10, 10)
    f.phaseInNm = v + c.xp.zeros((n, m))
    o.interpolate()
    out = o.interpolated_ef()
    # positions all of whose neighbours are lit or next to lit pixels
    good = [[lit(M, i, j) or any(lit(M, a, b) for a, b in sides(M, i, j)) for j in range(m)] for i in range(n)]
    cs = coords((n, m), osh, -k.get('rotAnglePhInDeg', 0.0), k.get('magnification', 1.0), k.get('xShiftPhInPixel', 0.0), k.get('yShiftPhInPixel', 0.0))
    seen = 0
    for i in range(osh[0]):
        for j in range(osh[1]):
            y, x = min(max(cs[i][j][0], 0), n - 1), min(max(cs[i][j][1], 0), m - 1)
            near = [(a, b) for a in {math.floor(y + 1e-6), math.ceil(y - 1e-6)} for b in {math.floor(x + 1e-6), math.ceil(x - 1e-6)}]
            if all(good[a][b] for a, b in near):
                seen += 1
                c.close(out.phaseInNm[i, j], v, 'a constant phase stays constant up to the edge', 1e-3)
    c.check(seen > 0, 'some pixels are lit')


def h_field_amp(c, mask='soft', osh=(8, 8), **k):
    """soft amplitudes are interpolated, sharp ones stay sharp"""
    f, o, M = fields(c, mask, osh, **k)
    o.interpolate()
    out = o.interpolated_ef()
    n, m = f.size
    soft = any(v not in (0, 1) for r in M for v in r)
    cs = coords((n, m), osh, -k.get('rotAnglePhInDeg', 0.0), k.get('magnification', 1.0), k.get('xShiftPhInPixel', 0.0), k.get('yShiftPhInPixel', 0.0))
    for i in range(osh[0]):
        for j in range(osh[1]):
            v = sample(c, f.A, *cs[i][j])
            if soft:
                c.close(out.A[i, j], v, 'amplitude at the documented position', 1e-3)
            elif abs(float(v) - 0.5) > 1e-3:
                c.equal(out.A[i, j], 1.0 if float(v) > 0.5 else 0.0, 'a sharp mask stays sharp')


def h_field_none(c):
    f, o, M = fields(c, 'disc', (4, 4))
    o.interpolate()
    c.check(o.interpolated_ef() is f, 'nothing to do returns the field itself')


def h_field_rect(c, n=2, m=3, osh=(4, 6)):
    from specula.lib.extrapolation_2d import EFInterpolator
    f = efield(c, 'f', n, m)
    f.A = c.const([[1.0] * m] * n)
    o = EFInterpolator(f, osh, target_device_idx=-1)
    o.interpolate()
    out = o.interpolated_ef()
    c.check(out.size == osh, 'shape of the interpolated field')
    for i, row in enumerate(coords((n, m), osh)):
        for j, (y, x) in enumerate(row):
            c.close(out.phaseInNm[i, j], sample(c, f.phaseInNm, y, x), 'phase at the documented position', 1e-3)
    c.check(rejects(lambda: EFInterpolator(f, (4, 4), target_device_idx=-1), ValueError), 'another aspect ratio is rejected')


def h_field_update(c):
    """parameters which are not updated are kept"""
    start = dict(xShiftPhInPixel=0.5, yShiftPhInPixel=-0.25, rotAnglePhInDeg=30.0, magnification=1.25)
    new = dict(xShiftPhInPixel=-1.0, yShiftPhInPixel=0.75, rotAnglePhInDeg=-10.0, magnification=0.8)
    keys = list(start)
    ch = [k for k in keys if c.flag('set_' + k)]
    f, o, M = fields(c, 'disc', (4, 4), **start)
    upd = {k: new[k] for k in ch}
    o.update_parameters(**upd)
    o.interpolate()
    from specula.lib.extrapolation_2d import EFInterpolator
    o2 = EFInterpolator(f, (4, 4), target_device_idx=-1, **{**start, **upd})
    o2.interpolate()
    c.close(o.interpolated_ef().phaseInNm, o2.interpolated_ef().phaseInNm, 'updated as if built with these parameters', 1e-3)
    c.close(o.interpolated_ef().A, o2.interpolated_ef().A, 'updated as if built with these parameters', 1e-3)


def h_field_two(c):
    """interpolators of fields of the same shape do not disturb each other"""
    f, o, M = fields(c, 'disc', (8, 8))
    from specula.lib.extrapolation_2d import EFInterpolator
    g = efield(c, 'g', 4)
    g.A = f.A.copy()
    o2 = EFInterpolator(g, (8, 8), target_device_idx=-1)
    o.interpolate()
    first = o.interpolated_ef().phaseInNm.copy()
    o2.interpolate()
    c.close(o.interpolated_ef().phaseInNm, first, 'the result is not overwritten by another interpolator', 1e-6)
    o.interpolate()
    c.close(o.interpolated_ef().phaseInNm, first, 'the same input gives the same result', 1e-6)


def harnesses(tier):
    big = tier == 'thorough'
    out = [H('point', h_point), H('point_out', h_point, n=2, m=2, out=True), H('ramp', h_ramp), H('grid_up', h_grid, osh=(5, 4)), H('grid_down', h_grid, ish=(4, 5), osh=(2, 3)),
           H('grid_shift', h_grid, ish=(2, 3), osh=(2, 2), shift=True), H('grid_mag', h_grid, ish=(3, 2), osh=(2, 2), mag=(0.5, 2.0)),
           H('grid_ramp_mag', h_grid, ish=(3, 3), osh=(2, 3), mag=(0.5, 2.0), ramp=True), H('grid_ramp_shift', h_grid, ish=(2, 3), osh=(2, 2), shift=True, ramp=True)]
    for rot in (30, 90, 180, 270, -45, 200):
        out.append(H(f'grid_rot_{rot}', h_grid, ish=(4, 4), osh=(4, 4), rot=float(rot), mag=1.0 if rot != 30 else 1.3))
    out += [H('constant', h_constant), H('identity', h_identity), H('whole', h_whole), H('turns', h_turns), H('linear', h_linear),
            H('linear_rot', h_linear, rotInDeg=25.0, magnification=1.4, colShiftInPixels=0.3), H('reject', h_reject)]
    for mk in MASKS:
        k = dict(force_extrapolation=True) if mk == 'full' else {}
        osh = (6, 6) if mk == 'full' else ((5, 5) if mk == 'ring' else (8, 8))
        if mk == 'ring':
            k = dict(rotAnglePhInDeg=20.0, xShiftPhInPixel=0.25)
        out += [H('field_' + mk, h_field, mask=mk, osh=osh, **k), H('field_const_' + mk, h_field_const, mask=mk, osh=osh, **k)]
    out += [H('field_const_turned', h_field_const, osh=(4, 4), rotAnglePhInDeg=45.0, magnification=1.2, yShiftPhInPixel=0.3), H('field_amp', h_field_amp), H('field_amp_sharp', h_field_amp, mask='disc'),
            H('field_amp_shift', h_field_amp, xShiftPhInPixel=0.5, yShiftPhInPixel=-0.25), H('field_none', h_field_none), H('field_rect', h_field_rect),
            H('field_update', h_field_update), H('field_two', h_field_two)]
    if big:
        out += [H('point_big', h_point, n=5, m=5, budget=200), H('grid_big', h_grid, ish=(5, 5), osh=(3, 3), shift=True, budget=300, max_paths=4000)]
    return out
