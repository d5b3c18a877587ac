"""C12: state-space controllers."""
from engine.common import H
from .util import simul_params, value, step, rejects

BOUNDS = ('up to 3 states, 2 inputs/outputs (3 for assembled per-mode systems), arbitrary matrices, 3-4 steps of arbitrary inputs from rest; '
          'output from the updated or from the previous state; assembly of per-mode systems from scalars, lists, matrices and groups of modes')
OUTSIDE = 'larger systems'


def data(A, B, C, D, **k):
    from specula.data_objects.ssr_filter_data import SsrFilterData
    return SsrFilterData(A, B, C, D, target_device_idx=-1, **k)


def drive(c, d, xs, new=True, gs=None, gsize=None, t0=0, o=None, x=None, delay=0):
    from specula.processing_objects.ssr_filter import SsrFilter
    if o is None:
        o = SsrFilter(simul_params(), d, delay=delay, target_device_idx=-1, **({} if new is None else dict(output_uses_new_state=new)))
        x = value(c, c.const([0.0] * len(xs[0])))
        o.inputs['delta_comm'].set(x)
        if gs:
            g = value(c, c.const([1.0] * gsize))
            o.inputs['gain_mod'].set(g)
            o._g = g
        o.setup()
    ys = []
    for t in range(len(xs)):
        x.set_value(xs[t])
        x.generation_time = t0 + t + 1
        if gs:
            o._g.set_value(gs[t])
            o._g.generation_time = t0 + t + 1
        step([o], t0 + t + 1)
        ys.append(o.outputs['out_comm_no_delay'].value.copy())
    return ys, o, x


def mv(M, v):
    return [sum(M[i][j] * v[j] for j in range(len(v))) for i in range(len(M))]


def oracle(A, B, C, D, us, new):
    x = [0] * len(A)
    out = []
    for u in us:
        xn = [a + b for a, b in zip(mv(A, x), mv(B, u))]
        out.append([a + b for a, b in zip(mv(C, xn if new else x), mv(D, u))])
        x = xn
    return out


def lists(M):
    return [[M[i, j] for j in range(M.shape[1])] for i in range(M.shape[0])]


def mats(c, ns, nu, name='', fixedC=False):
    A, B = c.arr(f'A{name}', (ns, ns), -1, 1), c.arr(f'B{name}', (ns, nu), -2, 2)
    C, D = c.arr(f'C{name}', (nu, ns), -2, 2), c.arr(f'D{name}', (nu, nu), -2, 2)
    return A, B, C, D


def h_full(c, ns, nu, new, steps=3, gain=0):
    A, B, C, D = mats(c, ns, nu)
    M0 = [lists(z) for z in (A, B, C, D)]
    xs = [c.arr(f'x{t}', nu, -2, 2) for t in range(steps)]
    gs = [c.arr(f'g{t}', gain, -2, 2) for t in range(steps)] if gain else None
    d = data(A, B, C, D)
    ys, o, _ = drive(c, d, xs, new, gs, gain)
    us = [[xs[t][i] * (gs[t][i % gain] if gain else 1) for i in range(nu)] for t in range(steps)]
    want = oracle(*M0, us, new is not False)
    for t in range(steps):
        for i in range(nu):
            c.close(ys[t][i], want[t][i], 'the output is that of the state equations from rest', tol=1e-6)
    for z, m, nm in zip((d.A, d.B, d.C, d.D), (A, B, C, D), 'ABCD'):
        c.equal(z, m, f'matrix {nm} is the one given and filtering leaves it alone')


def permode(c, form, n):
    """per-mode systems in the given notation -> (A, B, C, D as passed, list of per-mode tuples of nested lists)"""
    ns = {'mixed': [2, 1, 1], 'mats': [2, 2, 1], 'nested': [1, 1, 1]}.get(form, [1] * 3)[:n]
    raw = [mats(c, ns[i], 1, str(i)) for i in range(n)]
    per = [tuple(lists(z) for z in m) for m in raw]
    if form in ('mixed', 'mats'):
        return [[m[j] for m in raw] for j in range(4)], per
    if form == 'list':
        return [[m[j][0, 0] for m in raw] for j in range(4)], per
    if form == 'array':
        out = []
        for j in range(4):
            a = c.const([0.0] * n)
            for i in range(n):
                a[i] = raw[i][j][0, 0]
            out.append(a)
        return out, per
    if form == 'scalar':
        return [raw[0][j][0, 0] for j in range(4)], per[:1]
    if form == 'nested':
        return [[[[m[j][0, 0]]] for m in raw] for j in range(4)], per


def h_permode(c, form, n, n_modes=None, new=True, steps=3):
    passed, per = permode(c, form, n)
    d = data(*passed, **({'n_modes': n_modes} if n_modes is not None else {}))
    counts = list(n_modes) if isinstance(n_modes, (list, tuple)) else [n_modes] if n_modes else [1] * n
    modes = [i for i, k in enumerate(counts) for _ in range(k)]
    c.check(d.nfilter == len(modes), 'one filter per mode')
    xs = [c.arr(f'x{t}', len(modes), -2, 2) for t in range(steps)]
    ys, o, _ = drive(c, d, xs, new)
    for m, i in enumerate(modes):
        want = oracle(*per[i], [[x[m]] for x in xs], new)
        for t in range(steps):
            c.close(ys[t][m], want[t][0], 'each mode follows its own state equations', tol=1e-6)


def h_reset(c, delay=0):
    A, B, C, D = mats(c, 2, 1)
    d = data(A, B, C, D)
    pre = [c.arr(f'p{t}', 1, -2, 2) for t in range(2)]
    xs = [c.arr(f'x{t}', 1, -2, 2) for t in range(2)]
    _, o, x = drive(c, d, pre, delay=delay)
    o.reset_states()
    ys, _, _ = drive(c, d, xs, o=o, x=x, t0=2)
    late = o.out_comm.value.copy()
    y2, o2, _ = drive(c, d, xs, delay=delay)
    for t in range(2):
        c.close(ys[t], y2[t], 'after a reset the filter starts from rest', tol=1e-6)
    c.close(late, o2.out_comm.value, 'after a reset nothing is left in the delay line', tol=1e-6)


def h_two(c):
    """filters sharing their matrices keep separate states"""
    A, B, C, D = mats(c, 2, 1)
    d = data(A, B, C, D)
    p = [c.arr(f'p{t}', 1, -2, 2) for t in range(2)]
    q = [c.arr(f'q{t}', 1, -2, 2) for t in range(2)]
    M = [lists(z) for z in (A, B, C, D)]
    y1, o1, x1 = drive(c, d, p[:1])
    y2, o2, x2 = drive(c, d, q[:1])
    a, _, _ = drive(c, d, p[1:], o=o1, x=x1, t0=1)
    b, _, _ = drive(c, d, q[1:], o=o2, x=x2, t0=1)
    w1, w2 = oracle(*M, p, True), oracle(*M, q, True)
    c.close(a[0][0], w1[1][0], 'filters sharing their matrices keep separate states', tol=1e-6)
    c.close(b[0][0], w2[1][0], 'filters sharing their matrices keep separate states', tol=1e-6)


def h_from(c, what, ff=None):
    from specula.data_objects.ssr_filter_data import SsrFilterData
    g = [c.real(f'g{i}', -1, 1) for i in range(3)]
    xs = [c.arr(f'x{t}', 3, -2, 2) for t in range(3)]
    if what == 'gain':
        d = SsrFilterData.from_gain(g, target_device_idx=-1)
        f = [0] * 3
    else:
        f = {None: [1] * 3, 'one': [c.real('f', 0, 1)] * 3, 'all': [c.real(f'f{i}', 0, 1) for i in range(3)]}[ff]
        d = SsrFilterData.from_integrator(g, **({} if ff is None else dict(ff=f[0] if ff == 'one' else f)), target_device_idx=-1)
    ys, _, _ = drive(c, d, xs)
    for m in range(3):
        y = 0
        for t in range(3):
            y = f[m] * y + g[m] * xs[t][m]
            c.close(ys[t][m], y, 'y[n] = ff*y[n-1] + g*x[n]')


def h_bad(c):
    """matrices that do not fit together are refused"""
    v = lambda s: c.const([[0.5] * s[1]] * s[0])
    sizes = dict(A=(2, 2), B=(2, 1), C=(1, 2), D=(1, 1))
    which = c.pick('which', 'ABCD')
    bad = {'A': (2, 3), 'B': (3, 1), 'C': (1, 3), 'D': (2, 2)}[which]
    sizes[which] = bad
    c.check(rejects(lambda: data(*[v(sizes[k]) for k in 'ABCD'])), 'matrices of inconsistent sizes are refused')
    lst = {k: [v(s), v({'A': (2, 2), 'B': (2, 1), 'C': (1, 2), 'D': (1, 1)}[k])] for k, s in sizes.items()}
    c.check(rejects(lambda: data(*[lst[k] for k in 'ABCD'])), 'per-mode matrices of inconsistent sizes are refused')


def harnesses(tier):
    out = []
    for new in (None, True, False):
        out.append(H(f'full 2/2 {new}', h_full, ns=2, nu=2, new=new))
    out.append(H('full 3/1', h_full, ns=3, nu=1, new=True))
    out.append(H('full 3/2', h_full, ns=3, nu=2, new=False))
    out.append(H('full 1/2', h_full, ns=1, nu=2, new=True, steps=4))
    out.append(H('gain modulation', h_full, ns=1, nu=2, new=True, gain=2))
    out.append(H('one gain modulation', h_full, ns=1, nu=2, new=False, gain=1))
    for form, n in (('mixed', 2), ('mixed', 3), ('mats', 2), ('list', 3), ('array', 3), ('scalar', 1), ('nested', 2)):
        for new in (True, False):
            out.append(H(f'{form} {n} {new}', h_permode, form=form, n=n, new=new))
    for form, n, nm in (('list', 2, [2, 1]), ('mats', 2, [1, 2]), ('array', 2, [1, 2]), ('scalar', 1, 3), ('scalar', 1, [2])):
        out.append(H(f'{form} groups {nm}', h_permode, form=form, n=n, n_modes=nm))
    out.append(H('reset', h_reset))
    out.append(H('reset delayed', h_reset, delay=1))
    out.append(H('two', h_two))
    out.append(H('from gain', h_from, what='gain'))
    for ff in (None, 'one', 'all'):
        out.append(H(f'from integrator {ff}', h_from, what='integrator', ff=ff))
    out.append(H('inconsistent', h_bad))
    if tier == 'thorough':
        for new in (True, False):
            out.append(H(f'full 3/3 {new}', h_full, ns=3, nu=3, new=new, steps=4, budget=300, assert_timeout=60000))
        out.append(H('mixed groups', h_permode, form='mixed', n=3, n_modes=[2, 1, 2], steps=4, budget=200))
    return out
