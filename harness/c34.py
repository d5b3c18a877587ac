"""C34: demodulation and optical gain."""
import math
from engine.common import H
from .util import simul_params, value, quiet

BOUNDS = ('4 and 8 samples of irregular signals of arbitrary amplitude on an arbitrary constant (linearity, independence of a constant, signals and modes kept apart); sinusoids of arbitrary amplitude in [0.1, 5] on an arbitrary '
          'constant, 8 and 16 samples, carriers at a quarter and an eighth of the sampling rate: arbitrary phase in the single-pass mode, 8 phases in '
          'the cumulated one; 2 demodulation intervals of 4 or 8 samples with 3 modes; 3 updates of the optical gain with arbitrary inputs')
OUTSIDE = 'rounding; carriers above half the sampling rate; vector optical gains'
ASSUMPTIONS = ['sine and cosine satisfy the addition and vector-angle identities']


def dem(c, x, fc, cum, fs=1000.0):
    from specula.lib.demodulate_signal import demodulate_signal
    with quiet():
        return demodulate_signal(x, fc * fs, fs, cumulated=cum, xp=c.xp, dtype=c.xp.float64)


# irregular sequences the symbolic signals are multiples of
SHAPES = [[1.0, -0.5, 2.0, 0.25, -1.5, 0.75, 0.5, -2.0], [0.5, 1.5, 1.0, -1.0, 0.25, 2.0, -0.75, 1.25], [-1.0, 0.0, 0.75, 2.0, 1.0, -0.25, -2.0, 0.5]]


def h_linear(c, nt, fc, cum, sign):
    """a scaled signal on a constant: the amplitude scales, the phase does not change (or turns by half a turn)"""
    base = SHAPES[c.pickint('shape', 0, 2)][:nt]
    A, k = c.real('A', *((0.1, 5) if sign > 0 else (-5, -0.1))), c.real('k', -5, 5)
    x = c.xp.asarray([A * b + k for b in base])
    v, p = dem(c, c.xp.asarray(base), fc, cum)
    w, q = dem(c, x, fc, cum)
    c.close(w, c.abs(A) * v, 'the amplitude scales with the signal and ignores a constant', 1e-3)
    turn = 0.0 if sign > 0 else math.pi
    c.check(c.Or(*[c.abs(q - p - turn - 2 * math.pi * j) <= 1e-3 for j in (-2, -1, 0, 1)]), 'the phase does not depend on scale and constant')


def h_vector(c, nt, fc, cum):
    """signals demodulated together are demodulated one by one"""
    A, k = [c.real(f'A{i}', 0.1, 5) for i in range(2)], [c.real(f'k{i}', -5, 5) for i in range(2)]
    x = c.xp.asarray([[A[i] * SHAPES[i][t] + k[i] for i in range(2)] for t in range(nt)])
    v, p = dem(c, x, fc, cum)
    c.check(tuple(v.shape) == (2,) == tuple(p.shape), 'one amplitude and phase per signal')
    for i in range(2):
        w, q = dem(c, x[:, i], fc, cum)
        c.close(v[i], w, 'amplitude of each signal', 1e-3)
        c.close(p[i], q, 'phase of each signal', 1e-3)


def wave(nt, fc, a, b, k):
    return [a * math.cos(2 * math.pi * fc * t) + b * math.sin(2 * math.pi * fc * t) + k for t in range(nt)]


LIM = {(8, .25, True): (0.72, 0.91), (8, .125, True): (0.60, 1.03), (16, .25, True): (0.80, 0.94), (16, .125, True): (0.82, 0.96),
       (8, .25, False): (0.74, 1.01), (8, .125, False): (0.74, 1.01), (16, .25, False): (0.86, 1.01), (16, .125, False): (0.86, 1.01),
       (32, .25, True): (0.87, 0.97), (32, .125, True): (0.88, 0.98)}
PH = {(8, .25): 0.15, (8, .125): 0.27, (16, .25): 0.08, (16, .125): 0.08, (32, .25): 0.06, (32, .125): 0.06}


def h_sinusoid(c, nt, fc, cum):
    """amplitude and phase of a sinusoid, whatever its amplitude and the constant"""
    A, k = c.real('A', 0.1, 5), c.real('k', -5, 5)
    n = c.pickint('phase', 0, 7)
    phi = n * math.pi / 4 + 0.1
    x = c.xp.asarray(wave(nt, fc, A * math.cos(phi), A * math.sin(phi), k))
    v, p = dem(c, x, fc, cum)
    lo, hi = LIM[nt, fc, cum]
    c.check(c.And(v >= lo * A, v <= hi * A), 'amplitude of the sinusoid, within the error of the window')
    d = p - phi
    ok = [c.abs(d + 2 * math.pi * j) <= PH[nt, fc] for j in (-1, 0, 1, 2)]
    c.check(c.Or(*ok), 'phase of the sinusoid')


def h_any_phase(c, nt, fc):
    a, b, k = c.real('a', -2, 2), c.real('b', -2, 2), c.real('k', -5, 5)
    c.assume(a * a + b * b >= 0.01)
    x = c.xp.asarray(wave(nt, fc, a, b, k))
    v, p = dem(c, x, fc, False)
    lo, hi = LIM[nt, fc, False]
    s = a * a + b * b
    c.check(c.And(v * v >= lo * lo * s, v * v <= hi * hi * s), 'amplitude of a sinusoid of any phase')


def h_object(c, modes, samples=4, intervals=2, late=False):
    """the output at the end of every interval comes from the samples of that interval, mode by mode"""
    from specula.processing_objects.demodulator import Demodulator
    p = simul_params(time_step=0.001)
    freqs = [250.0, 125.0, 200.0][:len(modes)]
    o = Demodulator(p, list(modes), freqs, demod_dt=0.001 * samples, target_device_idx=-1, precision=0)
    data = value(c, c.xp.zeros(3), precision=0)
    o.inputs['in_data'].set(data)
    o.setup()
    n = samples * intervals
    A = [[c.real(f'A{i}_{m}', 0.1, 5) for m in range(3)] for i in range(intervals)]
    K = [[c.real(f'k{i}_{m}', -5, 5) for m in range(3)] for i in range(intervals)]
    x = c.xp.asarray([[A[t // samples][m] * SHAPES[(m + t // samples) % 3][t % samples] + K[t // samples][m] for m in range(3)] for t in range(n)])
    step = 1000000
    last = None
    for k in range(n):
        data.value[:] = x[k]
        data.generation_time = k * step
        o.check_ready(k * step)
        o.trigger()
        o.post_trigger()
        out = o.outputs['output']
        if (k + 1) % samples == 0:
            c.equal(out.generation_time, k * step, 'output at the end of the interval')
            last = out.value.copy()
            c.check(last.shape == (len(modes),), 'one amplitude per mode')
            for i, m in enumerate(modes):
                w, _ = dem(c, x[k + 1 - samples:k + 1, m], freqs[i] / 1000.0, True)
                c.close(last[i], w, 'demodulated from the samples of this mode in this interval', 1e-3)
        else:
            c.check(out.generation_time != k * step, 'no output within an interval')
            if last is not None:
                c.close(out.value, last, 'the output is kept within an interval', 0)


def h_gain(c, n=3, init='real'):
    from specula.processing_objects.optical_gain_estimator import OpticalGainEstimator
    g = c.real('g', 0, 1)
    og = c.real('og', 0.1, 1.5) if init == 'real' else 1 if init == 'int' else c.arr('og', (1,), 0.1, 1.5)
    o = OpticalGainEstimator(g, og, target_device_idx=-1, precision=0)
    d, r = value(c, c.xp.zeros(1), precision=0), value(c, c.xp.zeros(1), precision=0)
    d.generation_time = r.generation_time = -1
    o.inputs['in_demod_delta_command'].set(d)
    o.inputs['in_demod_command'].set(r)
    o.setup()
    want = og if init != 'array' else og[0]
    t_og = None
    for k in range(1, n + 1):
        fd, fr = c.flag(f'fd{k}'), c.flag(f'fr{k}')
        x, y = c.real(f'x{k}', -3, 3), c.real(f'y{k}', -3, 3)
        if not c.symbolic:
            c.assume(abs(y) > 1e-3)
        if fd:
            d.value[:] = x
            d.generation_time = k
        if fr:
            r.value[:] = y
            r.generation_time = k
        o.check_ready(k)
        if not (fd or fr):
            continue
        o.trigger()
        o.post_trigger()
        if fd and fr and c.decide(c.abs(y) > 1e-12):
            want = want * (1 - g * (1 - x / y))
            t_og = k
        out, og_out = o.outputs['output'], o.outputs['optical_gain']
        c.close(og_out.value[0], want, 'moved by the configured fraction of the mismatch', 1e-6)
        if t_og is not None:
            c.equal(og_out.generation_time, t_og, 'refreshed when it moves')
        c.close(out.value[0], c.ite(want > 1, 1.0, want), 'published value never exceeds one', 1e-6)
        c.equal(out.generation_time, k, 'published at every step')


def harnesses(tier):
    hs = []
    for cum in (True, False):
        for nt, fc in [(4, .25), (8, .25), (8, .125)]:
            for sign in (1, -1):
                hs.append(H(f'linear {nt} {fc} {cum} {sign}', h_linear, nt=nt, fc=fc, cum=cum, sign=sign))
            hs.append(H(f'vector {nt} {fc} {cum}', h_vector, nt=nt, fc=fc, cum=cum))
    for nt, fc, cum in LIM:
        if nt < 32 or tier == 'thorough':
            hs.append(H(f'sinusoid {nt} {fc} {cum}', h_sinusoid, nt=nt, fc=fc, cum=cum, budget=120))
            if not cum:
                hs.append(H(f'any phase {nt} {fc}', h_any_phase, nt=nt, fc=fc, budget=120))
    for modes in [(0,), (2,), (2, 0), (1, 2)]:
        hs.append(H(f'demodulator {modes}', h_object, modes=modes))
    hs.append(H('demodulator 8 samples', h_object, modes=(1,), samples=8))
    for init in ('real', 'int', 'array'):
        hs.append(H(f'optical gain {init}', h_gain, init=init))
    return hs
