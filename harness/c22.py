"""C22: deformable mirrors."""
from engine.common import H
from .util import simul_params, value, step, rejects

BOUNDS = ('masks of 2x2 (every choice of valid pixels), 2x3 and 3x3 pixels, 1-4 modes or actuators with arbitrary influence functions, '
          'arbitrary mode-to-command matrices, signs and commands (also shorter and longer than the number of modes), '
          'every sub-range of up to 4 modes and every list of 2 of 3 modes, 2-3 steps')
OUTSIDE = 'influence functions computed from a type name (numerical tables)'
T0 = 2


def mod(c, F, mask, m2c=None, **k):
    from specula.processing_objects.dm import DM
    from specula.data_objects.ifunc import IFunc
    from specula.data_objects.m2c import M2C
    if m2c is not None:
        k['m2c'] = M2C(m2c, target_device_idx=-1)
    a = dict(height=0.0)
    a.update(k)
    return DM(simul_params(pixel_pupil=2), ifunc=IFunc(F, mask=mask, target_device_idx=-1), target_device_idx=-1, **a)


def anymask(c, ny=2, nx=2):
    m = [[c.pickint(f'm{i}{j}', 0, 1) for j in range(nx)] for i in range(ny)]
    c.assume(sum(sum(r) for r in m) >= 1)
    return m


def law(c, o, m, F, cmd, sign, what):
    """layer = sign * cmd @ F on the valid pixels, row by row, zero elsewhere"""
    ly = o.outputs['out_layer']
    ny, nx = len(m), len(m[0])
    c.check(ly.phaseInNm.shape == (ny, nx), 'the layer has the shape of the mask')
    k = 0
    for i in range(ny):
        for j in range(nx):
            w = 0
            if m[i][j]:
                w = sign * sum(x * F[q, k] for q, x in enumerate(cmd))
                k += 1
            c.equal(ly.phaseInNm[i, j], w, f'{what}: phase of each pixel')
            c.equal(ly.A[i, j], m[i][j], f'{what}: the mirror transmits inside its mask only')


def poke(c, o, v, cmd, t):
    v.value = cmd
    v.generation_time = t
    step([o], t)
    c.check(o.outputs['out_layer'].generation_time == t, 'the layer is marked as of this step')


def h_shape(c, mask='any', nm=2, ncmd=None, sign=None, geometry=False, steps=2):
    m = anymask(c) if mask == 'any' else mask
    npx = sum(sum(r) for r in m)
    F = c.arr('F', (nm, npx), -2, 2)
    F0 = F.copy()
    k = {}
    if sign is not None:
        sign = k['sign'] = c.pick('sign', [-1, 1, 2])
    if geometry:
        k['height'] = c.real('h', 0, 10000)
    o = mod(c, F, c.const(m) if not isinstance(m, type(None)) else None, **k)
    if geometry:
        ly = o.outputs['out_layer']
        ly.shiftXYinPixel = c.arr('shift', 2, -3, 3)
        ly.rotInDeg = c.real('rot', -180, 180)
        ly.magnification = c.real('mag', 0.5, 2)
    ncmd = ncmd or nm
    v = value(c, c.arr('c', ncmd, -5, 5))
    o.inputs['in_command'].set(v)
    o.setup()
    for s in range(steps):
        cmd = c.arr(f'c{s}', ncmd, -5, 5)
        keep = cmd.copy()
        poke(c, o, v, cmd, T0 + s)
        law(c, o, m, F0, list(cmd)[:nm], sign if sign is not None else -1, f'step {s}')
        c.equal(v.value, keep, 'commands are left alone')
    poke(c, o, v, c.const([0.0] * ncmd), T0 + steps)
    law(c, o, m, F0, [0] * min(nm, ncmd), 1, 'zero commands')
    if geometry:
        c.check(o.outputs['out_layer'].height is k['height'], 'the layer stays at the height of the mirror')


def h_m2c(c, na=3, nm=2, start=None, nmodes=None, ncmd=None, idx=None):
    m = [[1, 1], [0, 1]]
    F, M = c.arr('F', (na, 3), -2, 2), c.arr('M', (na, nm), -2, 2)
    k = {}
    if start is not None:
        k['start_mode'] = start
    if nmodes is not None:
        k['nmodes'] = nmodes
    if idx is not None:
        idx = k['idx_modes'] = c.pick('idx', [[i, j] for i in range(nm) for j in range(nm) if i != j])
    modes = idx if idx is not None else list(range(nm))[start or 0:nmodes]
    o = mod(c, F, c.const(m), m2c=M, **k)
    n = len(modes) if ncmd is None else ncmd
    v = value(c, c.arr('c', n, -5, 5))
    o.inputs['in_command'].set(v)
    o.setup()
    for s in range(2):
        cmd = c.arr(f'c{s}', n, -5, 5)
        poke(c, o, v, cmd, T0 + s)
        act = [sum(M[a, q] * x for q, x in zip(modes, cmd)) for a in range(na)]
        law(c, o, m, F, act, -1, f'step {s}')


def h_range(c, nm=4, longer=0):
    """modes outside the configured range never move the mirror"""
    start, stop = c.pickint('start', 0, nm - 1), c.pickint('stop', 1, nm)
    c.assume(start < stop)
    m = [[1, 0], [1, 1]]
    F = c.arr('F', (nm, 3), -2, 2)
    give_start, give_stop = c.flag('give start'), c.flag('give stop')
    c.assume(give_start or start == 0)
    c.assume(give_stop or stop == nm)
    k = {}
    if give_start:
        k['start_mode'] = start
    if give_stop:
        k['nmodes'] = stop
    o = mod(c, F, c.const(m), **k)
    n = stop - start + longer
    v = value(c, c.arr('c', n, -5, 5))
    o.inputs['in_command'].set(v)
    o.setup()
    poke(c, o, v, c.arr('c1', n, -5, 5), T0)
    law(c, o, m, F[start:stop], list(v.value)[:stop - start], -1, 'range')


def h_list(c, nm=3, n=2):
    idx = c.pick('idx', [[i, j] for i in range(nm) for j in range(nm) if i != j])
    m = [[1, 0], [1, 1]]
    F = c.arr('F', (nm, 3), -2, 2)
    o = mod(c, F, c.const(m), idx_modes=idx)
    v = value(c, c.arr('c', n, -5, 5))
    o.inputs['in_command'].set(v)
    o.setup()
    poke(c, o, v, c.arr('c1', n, -5, 5), T0)
    law(c, o, m, c.xp.array([[F[i, p] for p in range(3)] for i in idx]), list(v.value)[:2], -1, 'list of modes')


def h_linear(c):
    m = [[1, 1], [0, 1]]
    F = c.arr('F', (2, 3), -2, 2)
    o = mod(c, F, c.const(m))
    v = value(c, c.arr('c', 2, -5, 5))
    o.inputs['in_command'].set(v)
    o.setup()
    a, b, k = c.arr('a', 2, -5, 5), c.arr('b', 2, -5, 5), c.real('k', -3, 3)
    out = []
    for t, cmd in enumerate((a, b, a + b, k * a)):
        poke(c, o, v, cmd, T0 + t)
        out.append(o.outputs['out_layer'].phaseInNm.copy())
    c.equal(out[0] + out[1], out[2], 'shapes add up')
    c.equal(k * out[0], out[3], 'shapes scale with the commands')


def h_reject(c):
    F = c.arr('F', (3, 3), -2, 2)
    m = c.const([[1, 1], [0, 1]])
    c.check(rejects(lambda: mod(c, F, m, idx_modes=[0, 1], start_mode=1)), 'a list of modes with a start mode is rejected')
    c.check(rejects(lambda: mod(c, F, m, idx_modes=[0, 1], nmodes=2)), 'a list of modes with a number of modes is rejected')
    c.check(rejects(lambda: mod(c, F, m, npixels=3)), 'a size different from the influence functions is rejected')


def h_cut(c, nm=4):
    """cutting an influence function, its inverse or a mode matrix keeps the wanted modes in order"""
    from specula.data_objects.ifunc import IFunc
    from specula.data_objects.ifunc_inv import IFuncInv
    from specula.data_objects.m2c import M2C
    F = c.arr('F', (nm, 2), -2, 2)
    how = c.pick('how', ['start', 'n', 'both', 'list'])
    a, n = c.pickint('a', 0, nm - 1), c.pickint('n', 1, nm)
    idx = [c.pickint('i', 0, nm - 1), 0] if how == 'list' else None
    k = dict(start=dict(start_mode=a), n=dict(nmodes=n), both=dict(start_mode=a, nmodes=n), list=dict(idx_modes=idx))[how]
    want = dict(start=list(range(nm))[a:], n=list(range(nm))[:n], both=list(range(nm))[a:a + n], list=idx)[how]
    W = c.xp.array([[F[i, j] for j in range(2)] for i in want])
    f = IFunc(F.copy(), mask=c.const([[1, 0], [1, 0]]), target_device_idx=-1)
    f.cut(**k)
    c.equal(f.influence_function, W, 'influence functions of the kept modes')
    g = IFunc(F.copy(), mask=c.const([[1, 0], [1, 0]]), target_device_idx=-1, **k)
    c.equal(g.influence_function, W, 'influence functions built with the kept modes')
    i = IFuncInv(F.T.copy(), c.const([[1, 0], [1, 0]]), target_device_idx=-1)
    i.cut(**k)
    c.equal(i.ifunc_inv, W.T, 'inverse influence functions of the kept modes')
    M = M2C(F.T.copy(), target_device_idx=-1)
    M.cut(**k)
    c.equal(M.m2c, W.T, 'command vectors of the kept modes')
    M = M2C(F.T.copy(), nmodes=n, target_device_idx=-1)
    c.equal(M.m2c, F.T[:, :n], 'a matrix limited to some modes keeps the first ones')


def h_cube(c, normalize=False):
    from specula.data_objects.ifunc import IFunc
    m = anymask(c)
    n = sum(sum(r) for r in m)
    F = c.arr('F', (2, n), 0.5, 2)
    f = IFunc(F.copy(), mask=c.const(m), target_device_idx=-1)
    q = f.ifunc_2d_to_3d(normalize=normalize)
    k = 0
    for i in range(2):
        for j in range(2):
            for r in range(2):
                w = F[r, k] if m[i][j] else 0
                if normalize:
                    s = sum(F[r, p] * F[r, p] for p in range(n)) / n
                    c.check(c.And(q[i, j, r] >= 0, True), 'sign of the normalised shape')
                    c.close(q[i, j, r] * q[i, j, r] * s, w * w, 'normalised shape of each mode', 1e-5)
                else:
                    c.equal(q[i, j, r], w, 'shape of each mode')
            k += m[i][j]
    c.equal(f.influence_function, F, 'the influence functions are left alone')


def harnesses(tier):
    big = tier == 'thorough'
    rect = [[1, 0, 1], [0, 1, 1]]
    full = [[0, 1, 0], [1, 0, 1], [1, 1, 1]]
    out = [H('mask', h_shape, steps=1), H('rect', h_shape, mask=rect), H('tall', h_shape, mask=[[1, 1], [0, 1], [1, 0]]),
           H('square', h_shape, mask=full, nm=3), H('one_mode', h_shape, mask=[[1, 0], [1, 1]], nm=1, steps=3),
           H('sign', h_shape, mask=rect, sign=1), H('geometry', h_shape, mask=rect, geometry=True),
           H('short', h_shape, mask=rect, nm=3, ncmd=2), H('long', h_shape, mask=rect, nm=2, ncmd=4),
           H('m2c', h_m2c), H('m2c_start', h_m2c, nm=3, start=1), H('m2c_range', h_m2c, nm=3, na=3, start=1, nmodes=2),
           H('m2c_nmodes', h_m2c, nm=3, na=3, nmodes=2), H('m2c_short', h_m2c, nm=3, ncmd=2), H('m2c_list', h_m2c, nm=3, idx=True),
           H('m2c_wide', h_m2c, na=2, nm=2), H('m2c_cut', h_m2c, nm=3, na=4, nmodes=2, ncmd=3),
           H('range', h_range), H('range_long', h_range, longer=1), H('list', h_list), H('list_long', h_list, n=3),
           H('linear', h_linear), H('reject', h_reject), H('cut', h_cut), H('cube', h_cube), H('cube_rms', h_cube, normalize=True)]
    if big:
        out += [H('mask_2x3', lambda c: h_shape(c, mask=anymask(c, 2, 3), steps=1), budget=200),
                H('mask_3x3', lambda c: h_shape(c, mask=anymask(c, 3, 3), nm=1, steps=1), budget=600, max_paths=1500),
                H('range_5', h_range, nm=5, longer=2, budget=200), H('m2c_big', h_m2c, na=5, nm=4, start=1, nmodes=4, budget=100)]
    return out
