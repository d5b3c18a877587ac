"""C11: a control delay shifts the commands."""
from engine.common import H
from .util import simul_params, value, step
from .c10 import mk, coeffs

BOUNDS = ('2 modes; every real delay from 0 to 3 steps (4 in the thorough tier) as a symbolic value, and fixed whole and fractional '
          'ones; 5 steps of arbitrary inputs; integrator, general IIR, low-pass, state-space, dynamic and multirate filters')
OUTSIDE = 'delays above 4 steps'


def make(c, kind, delay):
    sp = simul_params(time_step=0.001)
    k = dict(delay=delay, target_device_idx=-1)
    names = ['delta_comm']
    if kind == 'integrator':
        from specula.processing_objects.integrator import Integrator
        o = Integrator(sp, int_gain=[c.real('g0', -1, 1), c.real('g1', -1, 1)], **k)
    elif kind == 'dynamic':
        from specula.processing_objects.dynamic_integrator import DynamicIntegrator
        o = DynamicIntegrator(sp, int_gain=[c.real('g0', -1, 1), c.real('g1', -1, 1)], **k)
    elif kind == 'iir':
        from specula.processing_objects.iir_filter import IirFilter
        o, _ = mk(c, IirFilter, coeffs(c, 'b', 2, 2), coeffs(c, 'a', 2, 2, 1.0), delay=delay)
    elif kind == 'lpf':
        from specula.processing_objects.low_pass_filter import LowPassFilter
        o = LowPassFilter(sp, cutoff_freq=[50.0, 100.0], n_ord=2, **k)
    elif kind == 'ssr':
        from specula.processing_objects.ssr_filter import SsrFilter
        from specula.data_objects.ssr_filter_data import SsrFilterData
        o = SsrFilter(sp, SsrFilterData(c.const([[0.5, 0.0], [0.0, 0.25]]), c.const([[1.0, 0], [0, 1.0]]),
                                        c.const([[1.0, 0], [0, 1.0]]), c.const([[0.0, 0], [0, 0.5]]), target_device_idx=-1), **k)
    elif kind == 'multirate':
        from specula.processing_objects.multirate_complementary_filter import MultirateComplementaryFilter
        from specula.data_objects.iir_filter_data import IirFilterData
        d = IirFilterData.from_gain_and_ff([0.5, 0.25], target_device_idx=-1)
        o = MultirateComplementaryFilter(sp, d, g_track=0.1, weights=[1.0, 1.0], N_list=[1], **k)
        names = ['in_yf', 'in_ys']
    ins = []
    for n in names:
        v = value(c, c.const([0.0, 0.0]))
        o.inputs[n].set([v] if n == 'in_ys' else v)
        ins.append(v)
    o.setup()
    return o, ins


def history(c, o, ins, xs):
    late, now = [], []
    for t in range(1, len(xs) + 1):
        for v in ins:
            v.set_value(xs[t - 1])
            v.generation_time = t
        step([o], t)
        late.append(o.outputs['out_comm'].value.copy())
        now.append(o.outputs['out_comm_no_delay'].value.copy())
        c.check(o.outputs['out_comm'].generation_time == t, 'the delayed output is marked as refreshed')
        c.check(o.outputs['out_comm_no_delay'].generation_time == t, 'the undelayed output is marked as refreshed')
    return late, now


def h_delay(c, kind, delay=None, steps=5, hi=3):
    d = c.real('delay', 0, hi) if delay is None else delay
    xs = [c.arr(f'x{t}', 2, -3, 3) for t in range(steps)]
    o, ins = make(c, kind, d)
    late, now = history(c, o, ins, xs)
    o2, ins2 = make(c, kind, 0)
    late0, now0 = history(c, o2, ins2, xs)
    k = c.toint(c.floor(d)) if delay is None else int(delay // 1)
    k = int(k)
    r = d - k
    z = c.const([0.0, 0.0])
    for n in range(steps):
        a = now0[n - k] if n >= k else z
        b = now0[n - k - 1] if n >= k + 1 else z
        c.close(now[n], now0[n], 'the undelayed output does not depend on the delay')
        c.close(late[n], (1 - r) * a + r * b, 'the delayed output is the undelayed one the requested number of steps earlier')
        c.equal(late0[n], now0[n], 'without delay both outputs agree')


def harnesses(tier):
    out = []
    for kind in ('integrator', 'ssr'):
        out.append(H(f'{kind} any delay', h_delay, kind=kind))
    for kind in ('integrator', 'dynamic', 'iir', 'lpf', 'ssr', 'multirate'):
        for d in (0, 1, 2, 3, 0.5, 1.25, 2.5) if kind == 'integrator' else (1, 2, 1.5) if kind != 'multirate' else (0, 2, 0.75):
            out.append(H(f'{kind} {d}', h_delay, kind=kind, delay=d))
    if tier == 'thorough':
        for kind in ('dynamic', 'iir', 'lpf', 'multirate'):
            out.append(H(f'{kind} any delay', h_delay, kind=kind, hi=4, steps=6, budget=300, assert_timeout=60000))
    return out
