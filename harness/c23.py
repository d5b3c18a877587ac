"""C23: combining electric fields."""
from engine.common import H
from .util import step, rejects
from .zoo import efield, layer

BOUNDS = ('fields of 1x1 to 3x3 and 2x3 pixels with arbitrary phases and amplitudes (dark pixels included), 2-4 combined fields, '
          '1-2 steps, every sub-rectangle of fields up to 4x4, any wavelength between 100 and 10000 nm')
OUTSIDE = 'larger fields (the code works element by element)'
T0 = 4


def fields(c, k, n, m, same_pitch=True):
    return [efield(c, f'f{i}', n, m, S0=c.real(f'S{i}', 0, 5)) for i in range(k)]


def snap(f):
    return f.A.copy(), f.phaseInNm.copy(), f.S0


def untouched(c, fs, s):
    for f, (a, p, s0) in zip(fs, s):
        c.equal(f.A, a, 'input amplitudes are left alone')
        c.equal(f.phaseInNm, p, 'input phases are left alone')
        c.equal(f.S0, s0, 'input flux densities are left alone')


def renew(c, fs, k):
    for i, f in enumerate(fs):
        f.A = c.arr(f'A{i}_{k}', f.size, 0, 1)
        f.phaseInNm = c.arr(f'P{i}_{k}', f.size, -5, 5)
        f.generation_time = T0 + k


def total(fs, n, m):
    A, P = fs[0].A.copy(), fs[0].phaseInNm.copy()
    for f in fs[1:]:
        A, P = A * f.A, P + f.phaseInNm
    return A, P


def h_combine(c, k=2, n=2, m=2, lst=False, steps=2):
    from specula.processing_objects.electric_field_combinator import ElectricFieldCombinator
    o = ElectricFieldCombinator(target_device_idx=-1)
    fs = fields(c, k, n, m)
    if lst:
        o.inputs['in_ef_list'].set(fs)
    else:
        o.inputs['in_ef1'].set(fs[0])
        o.inputs['in_ef2'].set(fs[1])
    o.setup()
    out = o.outputs['out_ef']
    c.check(out.size == (n, m) and out.pixel_pitch == fs[0].pixel_pitch, 'the combined field has the grid of its inputs')
    for s in range(steps):
        renew(c, fs, s)
        before = [snap(f) for f in fs]
        A, P = total(fs, n, m)
        step([o], T0 + s)
        c.equal(out.A, A, 'amplitudes are multiplied')
        c.equal(out.phaseInNm, P, 'phases are added')
        c.equal(out.S0, sum(f.S0 for f in fs), 'flux densities add up')
        c.check(out.generation_time == T0 + s, 'the field is marked as of this step')
        untouched(c, fs, before)


def h_combine_reject(c):
    from specula.processing_objects.electric_field_combinator import ElectricFieldCombinator

    def mk(a=None, b=None, l=None):
        o = ElectricFieldCombinator(target_device_idx=-1)
        for k, v in dict(in_ef1=a, in_ef2=b, in_ef_list=l).items():
            if v is not None:
                o.inputs[k].set(v)
        return o.setup
    a, b, d, e = efield(c, 'a'), efield(c, 'b'), efield(c, 'd', 2, 3), efield(c, 'e', pitch=2.0)
    c.check(rejects(mk()), 'no field is rejected')
    c.check(rejects(mk(a)), 'a single field is rejected')
    c.check(rejects(mk(a, b, [a, b])), 'a pair together with a list is rejected')
    for x in (d, e):
        c.check(rejects(mk(a, x)), 'a field on another grid is rejected')
        c.check(rejects(mk(l=[a, b, x])), 'a field on another grid in a list is rejected')
        c.check(rejects(mk(l=[x, a])), 'a first field on another grid is rejected')


def h_reflect(c, n=2, m=3, steps=2):
    from specula.processing_objects.electric_field_reflection import ElectricFieldReflection
    o = ElectricFieldReflection(target_device_idx=-1)
    fs = fields(c, 1, n, m)
    o.inputs['in_ef'].set(fs[0])
    o.setup()
    for s in range(steps):
        renew(c, fs, s)
        before = [snap(f) for f in fs]
        step([o], T0 + s)
        out = o.outputs['out_ef']
        c.equal(out.A, fs[0].A, 'the amplitude is kept')
        c.equal(out.phaseInNm, -fs[0].phaseInNm, 'the phase changes sign')
        c.equal(out.S0, fs[0].S0, 'the flux density is kept')
        c.check(out.size == (n, m) and out.pixel_pitch == fs[0].pixel_pitch, 'the grid is kept')
        c.check(out.generation_time == T0 + s, 'the field is marked as of this step')
        untouched(c, fs, before)


def h_flatten(c, n=2, m=2, steps=1):
    from specula.processing_objects.phase_flattening import PhaseFlattening
    o = PhaseFlattening(target_device_idx=-1)
    fs = fields(c, 1, n, m)
    f = fs[0]
    o.inputs['in_ef'].set(f)
    o.setup()
    for s in range(steps):
        renew(c, fs, s)
        lit = [[c.flag(f'lit{i}{j}_{s}') for j in range(m)] for i in range(n)]
        for i in range(n):
            for j in range(m):
                if lit[i][j]:
                    c.assume(f.A[i, j] > 0)
                else:
                    c.assume(f.A[i, j] == 0)
        before = [snap(f)]
        step([o], T0 + s)
        out = o.outputs['out_ef']
        on = [f.phaseInNm[i, j] for i in range(n) for j in range(m) if lit[i][j]]
        mean = sum(on) / len(on) if on else 0
        for i in range(n):
            for j in range(m):
                c.equal(out.phaseInNm[i, j], f.phaseInNm[i, j] - (mean if lit[i][j] else 0),
                        'the mean over the lit pixels is removed from them')
        c.equal(out.A, f.A, 'the amplitude is kept')
        c.equal(out.S0, f.S0, 'the flux density is kept')
        c.check(out.generation_time == T0 + s, 'the field is marked as of this step')
        untouched(c, fs, before)
        if on:
            c.close(sum(out.phaseInNm[i, j] for i in range(n) for j in range(m) if lit[i][j]), 0, 'no mean phase is left')


def h_product(c, n=2, m=2, N=2, M=2, kind='ef', default=False):
    """a field times the part of another one starting at a corner"""
    f = efield(c, 'f', n, m)
    g = efield(c, 'g', N, M) if kind == 'ef' else layer(c, 'g', N, M)
    y, x = (0, 0) if default else (c.pickint('y', 0, N - n), c.pickint('x', 0, M - m))
    A, P = f.A.copy(), f.phaseInNm.copy()
    before = [g.A.copy(), g.phaseInNm.copy()]
    f.product(g) if default else f.product(g, subrect=[y, x])
    for i in range(n):
        for j in range(m):
            c.equal(f.A[i, j], A[i, j] * g.A[y + i, x + j], 'amplitudes are multiplied')
            c.equal(f.phaseInNm[i, j], P[i, j] + g.phaseInNm[y + i, x + j], 'phases are added')
    c.equal(g.A, before[0], 'the other amplitude is left alone')
    c.equal(g.phaseInNm, before[1], 'the other phase is left alone')


def h_lambda(c, n=1, m=2, sliced=False, out=False):
    f = efield(c, 'f', n, m, lo=-100, hi=100)
    lam = c.real('lambda', 100, 10000)
    sy, sx = (slice(0, 1), slice(1, m)) if sliced else (slice(None), slice(None))
    k = dict(slicey=sy, slicex=sx) if sliced else {}
    A, P = f.A[sy, sx], f.phaseInNm[sy, sx]
    phi = f.phi_at_lambda(lam, **k)
    c.close(phi * lam, 2 * c.xp.pi * P, 'the phase in radians is 2 pi times the phase over the wavelength', 1e-4)
    if out:
        buf = c.xp.zeros(A.shape, dtype=f.complex_dtype)
        e = f.ef_at_lambda(lam, out=buf, **k)
        c.check(e is buf, 'the given array is filled')
    else:
        e = f.ef_at_lambda(lam, **k)
    c.check(e.shape == A.shape, 'shape of the complex field')
    for i in range(A.shape[0]):
        for j in range(A.shape[1]):
            p = phi[i, j]
            c.close(c.xp.real(e)[i, j], A[i, j] * c.cos(p), 'real part', 1e-5)
            c.close(c.xp.imag(e)[i, j], A[i, j] * c.sin(p), 'imaginary part', 1e-5)
            c.close(c.xp.real(e)[i, j] ** 2 + c.xp.imag(e)[i, j] ** 2, A[i, j] ** 2, 'the modulus is the amplitude', 1e-5)
    if not sliced:
        c.close(f.square_modulus(lam), f.A ** 2, 'the energy does not depend on phase or wavelength', 1e-5)


def h_phase_sum(c):
    """the complex field of a product is the product of the complex fields"""
    f, g = efield(c, 'f', 1, 1), efield(c, 'g', 1, 1)
    lam = c.real('lambda', 100, 10000)
    a, b = f.ef_at_lambda(lam).copy(), g.ef_at_lambda(lam).copy()
    p, q = f.phi_at_lambda(lam)[0, 0], g.phi_at_lambda(lam)[0, 0]
    f.product(g, subrect=[0, 0])
    e = f.ef_at_lambda(lam)
    r = f.phi_at_lambda(lam)[0, 0]
    c.close(r, p + q, 'phases in radians add up', 1e-6)
    if c.symbolic:      # addition theorems, instantiated for the solver
        c.assume(c.cos(r) == c.cos(p) * c.cos(q) - c.sin(p) * c.sin(q))
        c.assume(c.sin(r) == c.sin(p) * c.cos(q) + c.cos(p) * c.sin(q))
    w = a * b
    c.close(c.xp.real(e), c.xp.real(w), 'real part of the product', 1e-5)
    c.close(c.xp.imag(e), c.xp.imag(w), 'imaginary part of the product', 1e-5)


def h_area(c, n=2, m=3):
    f = efield(c, 'f', n, m, pitch=c.real('pitch', 0.01, 2))
    p2 = f.pixel_pitch * f.pixel_pitch
    c.close(f.area(), n * m * p2, 'area of the grid')
    c.close(f.masked_area(), p2 * sum(f.A[i, j] for i in range(n) for j in range(m)), 'lit area')


def h_reset(c, n=2, m=3):
    f = efield(c, 'f', n, m)
    f.reset()
    c.equal(f.A, c.const([[1.0] * m] * n), 'a reset field is fully transparent')
    c.equal(f.phaseInNm, c.const([[0.0] * m] * n), 'a reset field is flat')
    p, s = f.pixel_pitch, f.S0
    f.resize(4, 1)
    c.check(f.size == (1, 4) and f.pixel_pitch == p and f.S0 == s, 'resizing keeps pitch and flux density')
    c.equal(f.A, c.const([[1.0] * 4]), 'a resized field is fully transparent')
    f.resize(2, 2, pitch=3.0)
    c.check(f.size == (2, 2) and f.pixel_pitch == 3.0, 'resizing with a pitch sets it')
    a, b = c.arr('a', (2, 2), 0, 1), c.arr('b', (2, 2), -5, 5)
    f.set_value(c.xp.stack((a, b)))
    c.equal(f.A, a, 'setting a field sets its amplitude')
    c.equal(f.phaseInNm, b, 'setting a field sets its phase')
    g = efield(c, 'g', 2, 2)
    g.set_value(f.get_value())
    c.check(not g.compare(f), 'equal fields compare equal')
    g.phaseInNm = b + c.const([[0.0, 0.0], [1.0, 0.0]])
    c.check(g.compare(f), 'different fields compare different')


def h_sub(c, n=3, m=4):
    """a part of a field: first range along rows, second along columns"""
    f = efield(c, 'f', n, m, S0=c.real('S', 0, 5))
    a, b = c.pickint('a', 0, n - 1), c.pickint('b', 1, n)
    d, e = c.pickint('d', 0, m - 1), c.pickint('e', 1, m)
    c.assume(a < b)
    c.assume(d < e)
    s = f.sub_ef(xfrom=a, xto=b, yfrom=d, yto=e)
    c.check(s.size == (b - a, e - d), 'size of the part')
    c.equal(s.A, f.A[a:b, d:e], 'amplitude of the part')
    c.equal(s.phaseInNm, f.phaseInNm[a:b, d:e], 'phase of the part')
    c.equal(s.S0, f.S0, 'flux density of the part')
    c.equal(s.pixel_pitch, f.pixel_pitch, 'pitch of the part')
    keep = s.A.copy()
    f.A = f.A + 1
    c.equal(s.A, keep, 'the part is a copy')


def h_display(c, n=2, m=2):
    f = efield(c, 'f', n, m)
    lit = [[c.flag(f'lit{i}{j}') for j in range(m)] for i in range(n)]
    for i in range(n):
        for j in range(m):
            c.assume(f.A[i, j] > 0 if lit[i][j] else f.A[i, j] == 0)
    c.assume(any(sum(lit, [])))
    on = [f.phaseInNm[i, j] for i in range(n) for j in range(m) if lit[i][j]]
    d = f.array_for_display()
    for i in range(n):
        for j in range(m):
            c.equal(d[i, j], f.phaseInNm[i, j] - sum(on) / len(on) if lit[i][j] else 0, 'displayed phase: mean removed, dark pixels zero')


def harnesses(tier):
    big = tier == 'thorough'
    out = [H('combine', h_combine), H('combine_rect', h_combine, n=2, m=3, steps=1), H('combine_list', h_combine, k=3, lst=True),
           H('combine_list_rect', h_combine, k=4, lst=True, n=3, m=1, steps=1), H('combine_one', h_combine, k=1, lst=True, n=1, m=2),
           H('combine_reject', h_combine_reject), H('reflect', h_reflect), H('flatten', h_flatten), H('flatten_rect', h_flatten, n=1, m=3),
           H('flatten_steps', h_flatten, n=1, m=2, steps=2),
           H('product', h_product), H('product_part', h_product, n=2, m=2, N=4, M=3), H('product_rect', h_product, n=1, m=2, N=2, M=4),
           H('product_layer', h_product, N=3, M=3, kind='layer'), H('product_default', h_product, n=2, m=3, N=2, M=3, default=True),
           H('wavelength', h_lambda), H('wavelength_slice', h_lambda, n=2, m=3, sliced=True), H('wavelength_out', h_lambda, out=True),
           H('phase_sum', h_phase_sum), H('area', h_area), H('reset', h_reset), H('sub', h_sub), H('display', h_display),
           H('display_rect', h_display, n=1, m=3)]
    if big:
        out += [H('combine_big', h_combine, k=5, n=3, m=3, lst=True, steps=2, budget=100), H('flatten_big', h_flatten, n=3, m=3, budget=600, max_paths=1500),
                H('product_big', h_product, n=2, m=3, N=5, M=5, budget=100), H('wavelength_big', h_lambda, n=2, m=3, budget=200)]
    return out
