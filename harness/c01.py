"""C01: seconds <-> integer nanoseconds, with IEEE rounding modelled."""
from engine.common import H
from .util import simul_params, quiet

BOUNDS = 'k in 0..10^13 ns; durations are the closest double to k*1e-9; loop dt 1..10^10 ns; exposures of 1..10^4 steps of nine step lengths'
OUTSIDE = 'durations above 10^13 ns; numpy float32 durations'
ASSUMPTIONS = ['every double operation is modelled as exact result plus an error of at most half an ulp of the '
               'largest value of its range (over-approximation): unsat is a proof, sat is replayed on neighbours']


def obj():
    from specula.base_time_obj import BaseTimeObj
    return BaseTimeObj(target_device_idx=-1, precision=0)


def ks(c, name, hi, lo=0):
    """the time itself symbolically; concretely also its neighbours and a spread of other times"""
    k = c.int(name, lo, hi)
    if c.symbolic:
        return [k]
    import random
    r = random.Random(k)
    out = [k] + [min(hi, k + d) for d in range(1, 40)] + [max(lo, k - d) for d in range(1, 40)]
    out += [r.randint(lo, hi) for _ in range(150)] + [r.randint(lo, min(hi, 10 ** e)) for e in range(1, 14) for _ in range(20)]
    return out


def sec(c, k):
    return c.nearest_double(k / 1000000000)


def h_convert(c):
    c.double_precision()
    o = obj()
    for k in ks(c, 'k', 10 ** 13):
        c.check(o.seconds_to_t(sec(c, k)) == k, 'whole nanoseconds convert to themselves')


def h_roundtrip(c):
    c.double_precision()
    o = obj()
    for k in ks(c, 'k', 10 ** 13):
        c.check(o.seconds_to_t(o.t_to_seconds(k)) == k, 'seconds_to_t(t_to_seconds(t)) == t')


def h_nearest(c):
    """any duration converts to the nearest nanosecond"""
    o = obj()
    x = c.real('x', 0, 1000)
    t = o.seconds_to_t(x)
    e = t - x * 1000000000
    c.check(c.And(e <= 0.5 + 1e-3, e >= -0.5 - 1e-3), 'nearest nanosecond')


def h_loop(c):
    from specula.loop_control import LoopControl
    c.double_precision()
    for dt in ks(c, 'dt', 10 ** 10, 1)[:120]:
        loop = LoopControl()
        loop.start(sec(c, 3 * dt), sec(c, dt), t0=sec(c, 2 * dt))
        c.check(loop.dt == dt, 'loop dt')
        c.check(loop.run_time == 3 * dt, 'loop run_time')
        c.check(loop.t == 2 * dt, 'loop start time')


STEPS = (1, 7, 1001, 125000, 333333, 500000, 1000000, 1001000, 2000003)


def h_window(c):
    from specula.processing_objects.windowed_integration import WindowedIntegration
    c.double_precision()
    step = c.pick('step', STEPS)
    for k in ks(c, 'k', 10 ** 4, 1)[:60]:
        w = WindowedIntegration(simul_params(time_step=step / 1e9), n_elem=1, dt=sec(c, k * step),
                                start_time=sec(c, 2 * k * step), target_device_idx=-1, precision=0)
        c.check(w.dt == k * step, 'integration window')
        c.check(w.start_time == 2 * k * step, 'window start time')


def h_ccd(c):
    from specula.processing_objects.ccd import CCD
    c.double_precision()
    step = c.pick('step', STEPS)
    for k in ks(c, 'k', 10 ** 4, 1)[:60]:
        w = CCD(simul_params(time_step=step / 1e9), size=(2, 2), dt=sec(c, k * step), start_time=sec(c, k * step + step),
                bandw=100.0, target_device_idx=-1, precision=0)
        c.check(w.dt == k * step, 'exposure time')
        c.check(w.start_time == k * step + step, 'exposure start time')


def harnesses(tier):
    return [H('convert', h_convert), H('roundtrip', h_roundtrip), H('nearest', h_nearest), H('loop', h_loop),
            H('window', h_window), H('ccd', h_ccd)]
