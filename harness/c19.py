"""C19: storage layouts of slope vectors."""
from engine.common import H
from .util import value, rejects

BOUNDS = 'vectors of 2-8 slopes of arbitrary values in both layouts (odd lengths up to 7 when split); maps of 2x2 to 3x3 subapertures with 1-4 valid ones'
OUTSIDE = 'longer vectors (the code is uniform in the length)'


def mk(c, n, inter, name='s'):
    from specula.data_objects.slopes import Slopes
    v = c.arr(name, n, -10, 10)
    return Slopes(slopes=v.copy(), interleave=inter, target_device_idx=-1), v


def where(n, inter, axis):
    """positions of the slopes of an axis"""
    return list(range(axis, n - n % 2, 2)) if inter else (list(range(n // 2)) if axis == 0 else list(range(n // 2, n)))


def h_access(c, n, inter, resized=None):
    s, v = mk(c, n, inter)
    if resized:
        n = resized
        s.resize(n)
        c.check(s.slopes.shape == (n,), 'resizing gives the requested length')
        v = c.arr('w', n, -10, 10)
        s.set_value(v)
    ix, iy = where(n, inter, 0), where(n, inter, 1)
    c.check([int(i) for i in s.indx()] == ix, 'x indices follow the layout')
    c.check([int(i) for i in s.indy()] == iy, 'y indices follow the layout')
    c.check(sorted(ix + iy) == list(range(n)) or (inter and n % 2), 'every slope is either x or y')
    for k, i in enumerate(ix):
        c.equal(s.xslopes[k], v[i], 'x slopes are read from their places')
    for k, i in enumerate(iy):
        c.equal(s.yslopes[k], v[i], 'y slopes are read from their places')
    nx, ny = c.arr('nx', len(ix), -10, 10), c.arr('ny', len(iy), -10, 10)
    y0 = s.yslopes.copy()
    s.xslopes = nx
    c.equal(s.xslopes, nx, 'what is written as x is read as x')
    c.equal(s.yslopes, y0, 'writing x leaves y alone')
    s.yslopes = ny
    c.equal(s.yslopes, ny, 'what is written as y is read as y')
    c.equal(s.xslopes, nx, 'writing y leaves x alone')
    for k, i in enumerate(ix):
        c.equal(s.slopes[i], nx[k], 'x slopes are written to their places')
    for k, i in enumerate(iy):
        c.equal(s.slopes[i], ny[k], 'y slopes are written to their places')
    c.check(s.size == n, 'the size is the number of slopes')


def h_sum(c, n, inter):
    a, va = mk(c, n, inter, 'a')
    b, vb = mk(c, n, inter, 'b')
    f = c.real('f', -3, 3)
    a.sum(b, f)
    for i in range(n):
        c.close(a.slopes[i], va[i] + f * vb[i], 'sums are element by element', tol=1e-5)
    c.equal(b.slopes, vb, 'the added slopes are not altered')
    a.subtract(b)
    for i in range(n):
        c.close(a.slopes[i], va[i] + (f - 1) * vb[i], 'subtraction is element by element', tol=1e-5)
    w = c.arr('w', n, -10, 10)
    a.subtract(value(c, w))
    for i in range(n):
        c.close(a.slopes[i], va[i] + (f - 1) * vb[i] - w[i], 'subtracting a plain value is element by element', tol=1e-5)
    c.equal(b.slopes, vb, 'the subtracted slopes are not altered')


def h_set(c, n):
    s, v = mk(c, n, False)
    keep = s.slopes
    w = c.arr('w', n, -10, 10)
    s.set_value(w)
    c.equal(s.slopes, w, 'a set value is read back')
    c.check(s.slopes is keep, 'setting a value keeps the storage')
    c.check(s.get_value() is s.slopes, 'the value is the slope vector')
    c.check(rejects(lambda: s.set_value(c.arr('x', n + 1))), 'a vector of the wrong length is refused')
    c.equal(s.slopes, w, 'a refused vector changes nothing')


def h_map(c, shape, idx, inter, two_d=False):
    """slopes of subaperture k appear at its own place in the x and y maps"""
    import numpy as np
    m = len(idx)
    s, v = mk(c, 2 * m, inter)
    mask = c.xp.zeros(shape)
    for i in idx:
        mask[i // shape[1], i % shape[1]] = 1.0
    s.single_mask = mask
    s.display_map = np.array([[i // shape[1] for i in idx], [i % shape[1] for i in idx]]) if two_d else np.array(idx)
    d = s.get2d()
    c.check(tuple(d.shape) == (2,) + shape, 'there is a map for each axis')
    for axis in range(2):
        pos = where(2 * m, inter, axis)
        for p in range(shape[0] * shape[1]):
            y, x = p // shape[1], p % shape[1]
            c.equal(d[axis, y, x], v[pos[idx.index(p)]] if p in idx else 0, 'each slope appears at its own subaperture')
    disp = s.array_for_display()
    c.check(tuple(disp.shape) == (shape[0], 2 * shape[1]), 'maps are shown side by side')
    c.equal(disp[:, :shape[1]], d[0], 'x is shown first')
    c.equal(disp[:, shape[1]:], d[1], 'y is shown second')
    f = c.xp.zeros(shape)
    s.y_remap2d(f, s.display_map)
    c.equal(f, d[1], 'remapping fills a given frame')
    c.equal(s.slopes, v, 'mapping does not alter the slopes')


def h_map_scalar(c, shape, idx):
    """one value per subaperture"""
    import numpy as np
    s, v = mk(c, len(idx), False)
    s.single_mask = c.xp.zeros(shape)
    s.display_map = np.array(idx)
    d = s.get2d()
    for p in range(shape[0] * shape[1]):
        c.equal(d[p // shape[1], p % shape[1]], v[idx.index(p)] if p in idx else 0, 'each value appears at its own place')


def h_nomap(c):
    s, v = mk(c, 4, False)
    c.check(rejects(s.get2d, ValueError), 'a map needs a mask')
    s.single_mask = c.xp.zeros((2, 2))
    c.check(rejects(s.get2d, ValueError), 'a map needs the places of the subapertures')


def h_rotate(c, n, inter, angle, fx, fy):
    import math
    s, v = mk(c, n, inter)
    x0, y0 = s.xslopes.copy(), s.yslopes.copy()
    s.rotate(angle, flipx=fx, flipy=fy)
    ca, sa = math.cos(math.radians(angle)), math.sin(math.radians(angle))
    for k in range(n // 2):
        c.close(s.xslopes[k], (x0[k] * ca - y0[k] * sa) * (-1 if fx else 1), 'slopes are rotated by the angle', tol=1e-4)
        c.close(s.yslopes[k], (x0[k] * sa + y0[k] * ca) * (-1 if fy else 1), 'slopes are rotated by the angle', tol=1e-4)


def harnesses(tier):
    hs = [H('no map', h_nomap)]
    for inter in (False, True):
        nm = 'interleaved' if inter else 'split'
        for n in (2, 4, 6) + ((3, 5, 7) if not inter else ()) + ((8, 12) if tier == 'thorough' else ()):
            hs.append(H(f'access {nm} {n}', h_access, n=n, inter=inter))
        for n, m in ((4, 6), (6, 2)) + (((4, 5),) if not inter else ()):
            hs.append(H(f'resize {nm} {n} to {m}', h_access, n=n, inter=inter, resized=m))
        hs.append(H(f'sums {nm}', h_sum, n=4, inter=inter))
        for k, (sh, idx) in enumerate((((2, 2), [0, 3]), ((2, 3), [1, 2, 5]), ((3, 2), [4, 1, 0]), ((3, 3), [1, 3, 5, 7]), ((2, 2), [2]))):
            for two in (False, True):
                if k == 4 and two:
                    continue
                hs.append(H(f'map {nm} {k}{" 2d" if two else ""}', h_map, shape=sh, idx=idx, inter=inter, two_d=two))
    for k, (a, fx, fy) in enumerate(((0.0, False, False), (90.0, True, False), (30.0, False, True), (-45.0, True, True))):
        hs.append(H(f'rotate {k}', h_rotate, n=2, inter=False, angle=a, fx=fx, fy=fy))
    hs += [H('map scalars', h_map_scalar, shape=(2, 3), idx=[0, 4, 2]), H('set', h_set, n=4)]
    return hs
