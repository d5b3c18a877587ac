"""C10: digital filters follow their difference equation."""
from engine.common import H
from .util import simul_params, value, step, rejects, quiet

BOUNDS = ('2 modes, numerators of 1-3 and denominators of 1-4 coefficients with arbitrary values, 4 steps of arbitrary inputs from rest; '
          'gain modulation, gain changes and resets at arbitrary steps; integrators over groups of modes; low-pass filters of '
          'order 1, 2 and 4')
OUTSIDE = 'longer histories (the state after a step is itself arbitrary within the bounds); filters with more coefficients'


def coeffs(c, name, modes, n, last=None):
    a = c.arr(name, (modes, n), -2, 2)
    if last is not None:
        a[:, -1] = last
    return a


def leading(c, modes):
    """non-zero leading coefficients"""
    return c.arr('lead', modes, 0.5, 2)


def mk(c, cls, num, den, ordnum=None, ordden=None, **k):
    from specula.data_objects.iir_filter_data import IirFilterData
    d = IirFilterData(ordnum or [num.shape[1]] * len(num), ordden or [den.shape[1]] * len(den), num, den, target_device_idx=-1)
    return cls(simul_params(), d, target_device_idx=-1, **k), d


def run(c, o, ins, feed, steps):
    """feed(t) -> {input: value or None}; returns the outputs of every step"""
    out = []
    for t in range(1, steps + 1):
        for k, v in feed(t).items():
            if v is not None:
                ins[k].set_value(v)
                ins[k].generation_time = t
        step([o], t)
        out.append(o.outputs['out_comm_no_delay'].value.copy())
    return out


def law(c, b, a, xs, ys, n, m, gm=None, label='the output obeys the difference equation'):
    """sum_k a_k y[n-k] == gm * sum_k b_k x[n-k] at step n of mode m; b, a: lists of coefficients, current sample first"""
    lhs = sum(a[k] * ys[n - k][m] for k in range(len(a)) if n - k >= 0)
    rhs = sum(b[k] * xs[n - k][m] for k in range(len(b)) if n - k >= 0)
    if gm is not None:
        rhs = rhs * gm
    c.close(lhs, rhs, label, tol=1e-6)


def h_iir(c, nb, na, modes=2, steps=4, gm=0, integration=True, unit=False, delay=0):
    from specula.processing_objects.iir_filter import IirFilter
    num = coeffs(c, 'b', modes, nb)
    den = coeffs(c, 'a', modes, na, 1.0 if unit else leading(c, modes))
    b0, a0 = num.copy(), den.copy()
    o, d = mk(c, IirFilter, num, den, integration=integration, delay=delay)
    ins = {'delta_comm': value(c, c.const([0.0] * modes))}
    if gm:
        ins['gain_mod'] = value(c, c.const([1.0] * gm))
    for k in ins:
        o.inputs[k].set(ins[k])
    o.setup()
    xs = [c.arr(f'x{t}', modes, -3, 3) for t in range(steps)]
    gs = [c.arr(f'g{t}', gm, -2, 2) if gm else None for t in range(steps)]
    ys = run(c, o, ins, lambda t: {'delta_comm': xs[t - 1], 'gain_mod': gs[t - 1]}, steps)
    for m in range(modes):
        b = [b0[m, -1 - k] for k in range(nb)]
        a = [a0[m, -1 - k] for k in range(na)]
        if not integration:
            a = a[:1]
        for n in range(steps):
            law(c, b, a, xs, ys, n, m, gs[n][m % gm] if gm else None)
    c.equal(d.num, b0, 'filtering leaves the numerator alone')
    c.equal(d.den, a0, 'filtering leaves the denominator alone')


def h_scalar_input(c, modes=3, steps=3):
    """one command for all modes"""
    from specula.processing_objects.integrator import Integrator
    g = [c.real(f'g{i}', -1, 1) for i in range(modes)]
    o = Integrator(simul_params(), int_gain=g, target_device_idx=-1)
    x = value(c, c.const([0.0]))
    o.inputs['delta_comm'].set(x)
    o.setup()
    xs = [c.arr(f'x{t}', 1, -3, 3) for t in range(steps)]
    ys = run(c, o, {'delta_comm': x}, lambda t: {'delta_comm': xs[t - 1]}, steps)
    for m in range(modes):
        acc = 0
        for n in range(steps):
            acc = acc + g[m] * xs[n][0]
            c.close(ys[n][m], acc, 'a single command drives every mode with its own gain')


def h_wrong_size(c):
    from specula.processing_objects.integrator import Integrator
    o = Integrator(simul_params(), int_gain=[0.5, 0.5, 0.5], target_device_idx=-1)
    x = value(c, c.arr('x', 2))
    o.inputs['delta_comm'].set(x)
    o.setup()
    x.generation_time = 1
    with quiet():
        c.check(rejects(lambda: step([o], 1)), 'a command vector of the wrong length is refused')


def h_short_orders(c, nc=3, ob=2, oa=2, steps=3):
    """coefficients given from the first column, with their number: storage is aligned to the last column"""
    from specula.processing_objects.iir_filter import IirFilter
    num = c.const([[0.0] * nc])
    den = c.const([[0.0] * nc])
    bb = c.arr('b', ob, -2, 2)
    aa = c.arr('a', oa, -2, 2)
    aa[-1] = c.real('lead', 0.5, 2)
    c.assume(bb[-1] != 0)
    num[0, :ob] = bb
    den[0, :oa] = aa
    o, d = mk(c, IirFilter, num, den, ordnum=[ob], ordden=[oa])
    x = value(c, c.const([0.0]))
    o.inputs['delta_comm'].set(x)
    o.setup()
    xs = [c.arr(f'x{t}', 1, -3, 3) for t in range(steps)]
    ys = run(c, o, {'delta_comm': x}, lambda t: {'delta_comm': xs[t - 1]}, steps)
    for n in range(steps):
        law(c, list(bb[::-1]), list(aa[::-1]), xs, ys, n, 0, label='short coefficient lists act on the latest samples')


def h_dynamic(c, cls, size=1, steps=4, what='gain', gm=False):
    """gain changes and resets at arbitrary steps"""
    from specula.processing_objects.dynamic_integrator import DynamicIntegrator
    from specula.processing_objects.dynamic_iir_filter import DynamicIirFilter
    modes = 2
    if cls == 'int':
        g = [c.real(f'g{m}', 0, 2) for m in range(modes)]
        ff = [c.real(f'f{m}', 0, 1) for m in range(modes)]
        o = DynamicIntegrator(simul_params(), int_gain=g, ff=ff, target_device_idx=-1)
        bn = [[1] for m in range(modes)]
        a = [[1, -ff[m]] for m in range(modes)]
    else:
        num = coeffs(c, 'b', modes, 2)
        g = c.arr('g', modes, 0.25, 2)
        num[:, -1] = 1.0
        den = coeffs(c, 'a', modes, 2, 1.0)
        bn = [[1, num[m, 0]] for m in range(modes)]
        a = [[1, den[m, 0]] for m in range(modes)]
        o, d = mk(c, DynamicIirFilter, num * g[:, None], den)
    ins = {'delta_comm': value(c, c.const([0.0] * modes))}
    n_at = range(steps)
    gain_at = [c.flag(f'gain at {t}') if what in ('gain', 'both') else False for t in n_at]
    reset_at = [c.flag(f'reset at {t}') if what in ('reset', 'both') else False for t in n_at]
    if what in ('gain', 'both'):
        ins['int_gain'] = value(c, c.const([0.0] * size) if size else c.const(0.0))
    if what in ('reset', 'both'):
        ins['reset'] = value(c, c.const([1.0]))
    for k in ins:
        o.inputs[k].set(ins[k])
    o.setup()
    xs = [c.arr(f'x{t}', modes, -3, 3) for t in n_at]
    ng = [c.arr(f'ng{t}', size or (), 0, 2) for t in n_at]
    with quiet():
        ys = run(c, o, ins, lambda t: {'delta_comm': xs[t - 1], 'int_gain': ng[t - 1] if gain_at[t - 1] else None,
                                       'reset': c.const([1.0]) if reset_at[t - 1] else None}, steps)
    cur = list(g)
    start = 0
    for n in n_at:
        if gain_at[n]:
            # one value sets all modes, a vector one value per mode
            for m in range(modes):
                cur[m] = ng[n][m] if size == modes else (ng[n][0] if size else ng[n][()])
        if reset_at[n]:
            start = n
        for m in range(modes):
            lhs = sum(a[m][k] * ys[n - k][m] for k in range(len(a[m])) if n - k >= start)
            rhs = cur[m] * sum(bn[m][k] * xs[n - k][m] for k in range(len(bn[m])) if n - k >= start)
            c.close(lhs, rhs, 'the output obeys the equation with the gain in force, from rest after a reset', tol=1e-6)


def h_reset(c, cls):
    """reset_states restores the state of a new filter"""
    from specula.processing_objects.iir_filter import IirFilter
    num = coeffs(c, 'b', 2, 3)
    den = coeffs(c, 'a', 2, 3, 1.0)

    def new():
        o, d = mk(c, IirFilter, num, den, delay=1)
        x = value(c, c.const([0.0, 0.0]))
        o.inputs['delta_comm'].set(x)
        o.setup()
        return o, {'delta_comm': x}
    o, ins = new()
    pre = [c.arr(f'p{t}', 2, -3, 3) for t in range(3)]
    run(c, o, ins, lambda t: {'delta_comm': pre[t - 1]}, 3)
    o.reset_states()
    o2, ins2 = new()
    xs = [c.arr(f'x{t}', 2, -3, 3) for t in range(3)]
    for t in range(3):
        outs = []
        for obj, i, tt in ((o, ins, t + 4), (o2, ins2, t + 1)):
            i['delta_comm'].set_value(xs[t])
            i['delta_comm'].generation_time = tt
            step([obj], tt)
            outs.append((obj.out_comm.value, obj.out_comm_no_delay.value))
        c.close(outs[0][0], outs[1][0], 'after a reset the delayed output is that of a new filter')
        c.close(outs[0][1], outs[1][1], 'after a reset the output is that of a new filter')


def h_integrator(c, n_modes, ff, integration=True, steps=3, dyn=False, scalar=False):
    from specula.processing_objects.integrator import Integrator
    from specula.processing_objects.dynamic_integrator import DynamicIntegrator
    k = 1 if scalar else len(n_modes) if n_modes is not None and not isinstance(n_modes, int) else (1 if n_modes else 2)
    g = [c.real(f'g{i}', -1, 1) for i in range(k)]
    f = [c.real(f'f{i}', 0, 1) for i in range(k)] if ff else None
    o = (DynamicIntegrator if dyn else Integrator)(simul_params(), int_gain=g[0] if scalar else g, ff=f[0] if scalar and f else f, n_modes=n_modes, integration=integration,
                                                   target_device_idx=-1)
    per = n_modes if isinstance(n_modes, (list, tuple)) else ([n_modes] if n_modes else [1] * k)
    gg = [g[i] for i in range(k) for _ in range(per[i])]
    fl = [f[i] if ff else 1 for i in range(k) for _ in range(per[i])]
    modes = len(gg)
    x = value(c, c.const([0.0] * modes))
    o.inputs['delta_comm'].set(x)
    o.setup()
    xs = [c.arr(f'x{t}', modes, -3, 3) for t in range(steps)]
    ys = run(c, o, {'delta_comm': x}, lambda t: {'delta_comm': xs[t - 1]}, steps)
    for m in range(modes):
        y = 0
        for n in range(steps):
            y = (fl[m] * y if integration else 0) + gg[m] * xs[n][m]
            c.close(ys[n][m], y, 'integrator: y[n] = ff*y[n-1] + g*x[n] with the parameters of the group of the mode')


def h_lpf(c, n_ord, ampl=None, steps=4):
    from specula.processing_objects.low_pass_filter import LowPassFilter
    from specula.data_objects.iir_filter_data import IirFilterData
    fc = [50.0, 120.0]
    kw = dict(n_ord=n_ord) if n_ord else dict(amplif_fact=ampl)
    o = LowPassFilter(simul_params(time_step=0.001), cutoff_freq=fc, target_device_idx=-1, **kw)
    d = IirFilterData.lpf_from_fc(fc, 1000.0, **kw, target_device_idx=-1) if n_ord else \
        IirFilterData.lpf_from_fc_and_ampl(fc, ampl, 1000.0, target_device_idx=-1)
    x = value(c, c.const([0.0] * 2))
    o.inputs['delta_comm'].set(x)
    o.setup()
    xs = [c.arr(f'x{t}', 2, -3, 3) for t in range(steps)]
    ys = run(c, o, {'delta_comm': x}, lambda t: {'delta_comm': xs[t - 1]}, steps)
    for m in range(2):
        b, a = [list(z[m])[::-1] for z in (d.num, d.den)]
        for n in range(steps):
            law(c, b, a, xs, ys, n, m, label='the low-pass filter obeys its difference equation')


def h_two(c):
    """two filters on the same coefficients do not influence each other"""
    from specula.processing_objects.iir_filter import IirFilter
    num, den = coeffs(c, 'b', 1, 2), coeffs(c, 'a', 1, 2, 1.0)
    o1, d = mk(c, IirFilter, num, den)
    o2 = IirFilter(simul_params(), d, target_device_idx=-1)
    xs = [[c.arr(f'x{i}{t}', 1, -3, 3) for t in range(3)] for i in range(2)]
    ins = []
    for o in (o1, o2):
        ins.append(value(c, c.const([0.0])))
        o.inputs['delta_comm'].set(ins[-1])
        o.setup()
    ys = [[], []]
    for t in range(3):
        for i, o in enumerate((o1, o2)):
            ins[i].set_value(xs[i][t])
            ins[i].generation_time = t + 1
            step([o], t + 1)
        for i, o in enumerate((o1, o2)):
            ys[i].append(o.out_comm.value.copy())
    for i in range(2):
        for n in range(3):
            law(c, list(num[0][::-1]), list(den[0][::-1]), xs[i], ys[i], n, 0)


def harnesses(tier):
    out = []
    for nb, na in ((1, 1), (2, 2), (3, 3), (3, 2), (2, 4)):
        out.append(H(f'iir {nb}/{na}', h_iir, nb=nb, na=na, steps=3 if nb + na > 5 else 4, unit=nb + na > 5))
    out.append(H('iir gain modulation', h_iir, nb=2, na=2, gm=2, steps=3, unit=True))
    out.append(H('iir one gain modulation', h_iir, nb=2, na=2, gm=1, steps=3, unit=True))
    out.append(H('fir', h_iir, nb=3, na=3, integration=False))
    out.append(H('iir delay', h_iir, nb=2, na=2, delay=1.5, unit=True))
    out.append(H('one command', h_scalar_input))
    out.append(H('wrong size', h_wrong_size))
    for nc, ob, oa in ((3, 2, 2), (3, 1, 3), (3, 2, 3), (4, 3, 2)):
        out.append(H(f'short {nc} {ob} {oa}', h_short_orders, nc=nc, ob=ob, oa=oa))
    for cls in ('int', 'iir'):
        for size in (0, 2) if cls == 'iir' else (0, 1, 2):
            out.append(H(f'dynamic gain {cls} {size}', h_dynamic, cls=cls, size=size, what='gain', steps=3))
        out.append(H(f'dynamic reset {cls}', h_dynamic, cls=cls, what='reset', steps=4))
        out.append(H(f'dynamic both {cls}', h_dynamic, cls=cls, what='both', steps=3, size=2 if cls == 'iir' else 1))
    out.append(H('reset', h_reset, cls='iir'))
    for nm in (None, [2, 1], [3], [1, 2]):
        for ff in (False, True):
            out.append(H(f'integrator {nm} {ff}', h_integrator, n_modes=nm, ff=ff))
    for nm in (None, 3):
        for ff in (False, True):
            out.append(H(f'integrator scalar {nm} {ff}', h_integrator, n_modes=nm, ff=ff, scalar=True))
    out.append(H('integrator int n_modes', h_integrator, n_modes=2, ff=True))
    out.append(H('integrator off', h_integrator, n_modes=[1, 2], ff=True, integration=False))
    out.append(H('integrator dyn', h_integrator, n_modes=[1, 2], ff=True, dyn=True))
    out.append(H('lpf 1', h_lpf, n_ord=1))
    out.append(H('lpf 2', h_lpf, n_ord=2))
    out.append(H('lpf 4', h_lpf, n_ord=4))
    out.append(H('lpf ampl', h_lpf, n_ord=None, ampl=1.5))
    out.append(H('two filters', h_two))
    if tier == 'thorough':
        out.append(H('iir 4/4', h_iir, nb=4, na=4, steps=6, unit=True, modes=1, assert_timeout=60000, budget=300))
        out.append(H('iir 2/2 long', h_iir, nb=2, na=2, steps=6, modes=1, assert_timeout=60000, budget=300))
        out.append(H('dynamic both long', h_dynamic, cls='iir', size=2, what='both', steps=4, budget=300))
        out.append(H('integrator long', h_integrator, n_modes=[2, 3], ff=True, steps=8, budget=200))
    return out
