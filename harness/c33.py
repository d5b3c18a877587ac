"""C33: signal generators."""
import math
from engine.common import H
from .util import simul_params, quiet, rejects
from .c15 import Source, source

BOUNDS = ('outputs of 1-3 elements, tables of up to 4 rows, schedules of up to 3 intervals, sequences of up to 3 modes with 2 cycles and 2 samples; '
          'arbitrary real amplitudes, frequencies up to 10 Hz, offsets, slopes and times of whole milliseconds up to 10 s; up to 6 steps at arbitrary increasing times')
OUTSIDE = ('rounding of phases in single precision; triangle phases beyond a quarter of a period; the spectrum of vibrations (only scaling, order and '
           'start); steps after the end of a push-pull sequence; unsorted schedules')
ASSUMPTIONS = ['arcsin(sin(x)) = x within a quarter of a period (symbolic runs instantiate it)', 'random draws are arbitrary values']
S9 = 1e9


class Draws(Source):
    def standard_normal(self, size=None, **k):
        shape = size if isinstance(size, tuple) else (int(size),)
        return self._keep('normal', self.c.arr(self._name(), shape, -3, 3))

    def uniform(self, low=0.0, high=1.0, size=None):
        shape = size if isinstance(size, tuple) else (int(size),)
        u = self.c.arr(self._name(), shape, 0, 1)
        self._keep('uniform', u)
        return low + u * (high - low)


def run(c, o, times, after=None):
    """trigger a generator at each of the given times; -> values"""
    o.setup()
    out = []
    v = o.outputs['output']
    for k, t in enumerate(times):
        o.check_ready(t)
        c.check(o.inputs_changed, 'a generator runs at every step')
        o.trigger()
        o.post_trigger()
        c.check(o.outputs['output'] is v, 'the output object is kept')
        c.equal(v.generation_time, t, 'output refreshed at this time')
        out.append(v.value.copy())
        if after:
            after(k)
    return out


def times(c, n, hi=10):
    """arbitrary increasing times, whole milliseconds in nanoseconds"""
    ts = []
    t = 0
    for k in range(n):
        t = t + 1000000 * c.int(f'dt{k}', 0 if k == 0 else 1, int(hi * 1000 / n))
        ts.append(t)
    return ts


PAR = dict(amp=(-5, 5), freq=(0, 10), offset=(-3, 3), constant=(-5, 5), slope=(-2, 2))


def h_wave(c, kind, sizes, vsize=1, output_size=1, n=2, case=str):
    from specula.processing_objects.wave_generator import WaveGenerator
    a = {}
    for k, (lo, hi) in PAR.items():
        m = sizes.get(k, 0)
        if kind == 'TRIANGLE' and k in ('freq', 'offset'):
            lo, hi = (0, 0.05) if k == 'freq' else (-1.0, 1.0)
        a[k] = c.arr(k, (m,), lo, hi) if m else c.real(k, lo, hi)
    size = max([1, vsize, output_size, *sizes.values()])
    ts = times(c, n, 1 if kind == 'TRIANGLE' else 10)

    def par(k, i):
        return a[k][i] if sizes.get(k, 0) else a[k]

    want = []
    for t in ts:
        s = t / S9
        row = []
        for i in range(size):
            ph = par('freq', i) * 2 * math.pi * s + par('offset', i)
            if kind == 'SIN':
                w = c.sin(ph)
            elif kind == 'SQUARE':
                sn = c.sin(ph)
                w = c.ite(sn > 0, 1.0, c.ite(sn < 0, -1.0, 0.0))
                if not c.symbolic:
                    c.assume(abs(sn) > 1e-6)
            else:
                w = ph * 2 / math.pi
                c.assume(c.And(ph <= 1.57, ph >= -1.57))
                if c.symbolic:
                    c.assume(c.xp.arcsin(c.xp.sin(ph)) == ph)
            row.append(par('slope', i) * s + par('amp', i) * w + par('constant', i))
        want.append(row)
    o = WaveGenerator(wave_type=case(kind), vsize=vsize, output_size=output_size, target_device_idx=-1, precision=0, **a)
    for v, row in zip(run(c, o, ts), want):
        c.check(v.shape == (size,), 'one value per element')
        for i in range(size):
            c.close(v[i], row[i], 'waveform at the current time', 1e-7)


def h_wave_errors(c):
    from specula.processing_objects.wave_generator import WaveGenerator
    n = c.pick('n', [1, 2, 3])
    m = c.pick('m', [1, 2, 3])
    kind = c.pick('kind', ['SIN', 'sin', 'square', 'Triangle', 'COS', ''])
    bad = kind.upper() not in ('SIN', 'SQUARE', 'TRIANGLE') or n != m
    with quiet():
        r = rejects(lambda: WaveGenerator(wave_type=kind, amp=c.xp.ones(n), freq=c.xp.ones(m), target_device_idx=-1), ValueError)
    c.check(r == bad or (not bad or not r) and 1 in (n, m) and kind.upper() in ('SIN', 'SQUARE', 'TRIANGLE'), 'only consistent settings accepted')


def h_table(c, rows, cols, n):
    """a time history is played row by row, and its last row held"""
    from specula.processing_objects.time_history_generator import TimeHistoryGenerator
    from specula.data_objects.time_history import TimeHistory
    tab = c.arr('h', (rows, cols) if cols else (rows,), -5, 5)
    ref = tab.copy()
    o = TimeHistoryGenerator(TimeHistory(tab, target_device_idx=-1), target_device_idx=-1, precision=0)
    vals = run(c, o, times(c, n))
    for k, v in enumerate(vals):
        row = ref[min(k, rows - 1)]
        c.check(v.shape == (cols or 1,), 'one value per column')
        for j in range(cols or 1):
            c.close(v[j], row[j] if cols else row, 'row of this step', 1e-9)
    c.close(tab, ref, 'the table is not modified', 0)


def h_schedule(c, intervals, groups, n=2):
    """the value of the interval that contains the current time"""
    from specula.processing_objects.schedule_generator import ScheduleGenerator
    ng = len(groups) if isinstance(groups, list) else 1
    vals = [[c.real(f'v{k}_{g}', -5, 5) for g in range(ng)] for k in range(intervals)]
    for a, b in zip(vals, vals[1:]):
        for x, y in zip(a, b):
            c.assume(y - x >= 1)
    edges = [c.real(f'e{k}', 0, 10) for k in range(intervals - 1)]
    for a, b in zip(edges, edges[1:]):
        c.assume(a <= b)
    ts = times(c, n)
    if not c.symbolic:
        for t in ts:
            for e in edges:
                c.assume(abs(t / S9 - e) > 1e-12 or t / S9 == e)
    o = ScheduleGenerator(vals, edges, groups, target_device_idx=-1, precision=0)
    gl = groups if isinstance(groups, list) else [groups]
    for t, v in zip(ts, run(c, o, ts)):
        c.check(v.shape == (sum(gl),), 'one value per mode')
        s = t / S9
        i = 0
        for g, m in enumerate(gl):
            want = vals[0][g]
            for k, e in enumerate(edges):
                want = c.ite(s >= e, vals[k + 1][g], want)
            for _ in range(m):
                c.close(v[i], want, 'value scheduled for this time', 1e-9)
                i += 1


def h_schedule_errors(c):
    from specula.processing_objects.schedule_generator import ScheduleGenerator
    nv, ne, ng, width = c.pickint('nv', 1, 3), c.pickint('ne', 0, 2), c.pickint('ng', 1, 2), c.pickint('w', 1, 2)
    r = rejects(lambda: ScheduleGenerator([[1.0] * width] * nv, [1.0] * ne, [1] * ng, target_device_idx=-1), ValueError)
    c.check(r == (nv != ne + 1 or width != ng), 'inconsistent schedules rejected')


def sequence(n, first, amps, pattern, ncycles, nsamples, by_cycle, full):
    seq = []
    modes = range(first, n)
    if full:
        seq = [(m, p) for _ in range(ncycles) for m in modes for p in pattern]
    elif by_cycle:
        seq = [(m, p) for m in modes for p in pattern for _ in range(ncycles)]
    else:
        seq = [(m, p) for m in modes for _ in range(ncycles) for p in pattern]
    return [(m, amps[m - first] * p) for m, p in seq for _ in range(nsamples)]


def h_pushpull(c, n, first=0, ncycles=1, nsamples=1, push=False, vect=False, const=False, pattern=None):
    from specula.processing_objects.push_pull_generator import PushPullGenerator
    by_cycle, full = c.flag('repeat_ncycles'), c.flag('repeat_full')
    k = dict(ncycles=ncycles, repeat_ncycles=by_cycle, repeat_full_sequence=full, push_pull_type=c.pick('kind', ['PUSH', 'push'] if push else ['PUSHPULL', 'PushPull']))
    if not push:
        k['nsamples'] = nsamples
        if pattern:
            pat = k['pattern'] = [c.real(f'p{i}', -2, 2) for i in range(pattern)]
        else:
            pat = [1, -1]
    else:
        pat = [1]
    if vect:
        amps = [c.real(f'a{i}', -5, 5) for i in range(n - first)]
        k['vect_amplitude'] = c.xp.asarray(amps)
    else:
        amp = c.real('amp', -5, 5)
        k['amp'] = amp
        k['constant_amp'] = const
        order = [1, 1, 2, 2, 2, 3, 3, 3, 3]
        amps = [amp if const else amp / math.sqrt(order[m]) for m in range(first, n)]
    o = PushPullGenerator(n, first_mode=first, target_device_idx=-1, precision=0, **k)
    seq = sequence(n, first, amps, pat, ncycles, nsamples if not push else 1, by_cycle, full)
    vals = run(c, o, [i * 1000 for i in range(len(seq))])
    for v, (m, a) in zip(vals, seq):
        c.check(v.shape == (n,), 'one value per mode')
        for i in range(n):
            c.close(v[i], a if i == m else 0.0, 'one mode at a time, with its amplitude', 1e-6)


def h_pushpull_errors(c):
    from specula.processing_objects.push_pull_generator import PushPullGenerator
    kind = c.pick('kind', ['PUSH', 'PUSHPULL', 'PULL'])
    ns = c.pickint('ns', 1, 2)
    amp = c.pick('amp', [None, 1.0])
    vect = c.pick('vect', [None, [1.0, 2.0]])
    r = rejects(lambda: PushPullGenerator(2, amp=amp, vect_amplitude=vect, nsamples=ns, push_pull_type=kind, target_device_idx=-1), ValueError)
    c.check(r == ((amp is None and vect is None) or kind == 'PULL' or (ns != 1 and kind == 'PUSH')), 'inconsistent settings rejected')


def h_random(c, kind, amps, consts, size, n=2):
    """normal: constant + amp * draw; uniform: within half the amplitude of the constant"""
    from specula.processing_objects.random_generator import RandomGenerator
    amp = c.arr('amp', (amps,), 0, 5) if amps else c.real('amp', 0, 5)
    con = c.arr('con', (consts,), -5, 5) if consts else c.real('con', -5, 5)
    src = Draws(c)
    got = {}
    with source(c, src):
        o = RandomGenerator(distribution=kind, amp=amp, constant=con, seed=5, output_size=size, target_device_idx=-1, precision=0)
        c.check(src.seeds == [5], 'seeded as configured')
        m = max(amps, consts, size)
        draws = []
        vals = run(c, o, [i * 1000 for i in range(n)], lambda k: draws.append(src.drawn['uniform' if 'uniform' in src.drawn else 'normal']))
    for v, d in zip(vals, draws):
        c.check(v.shape == (m,), 'one value per element')
        c.check('uniform' in src.drawn if kind.upper() == 'UNIFORM' else 'normal' in src.drawn, 'drawn from the configured distribution')
        for i in range(m):
            a, k = amp[i] if amps else amp, con[i] if consts else con
            if kind.upper() == 'NORMAL':
                c.close(v[i], k + a * d[i], 'constant plus amplitude times the draw', 1e-7)
            else:
                c.close(v[i], k + a * (d[i] - 0.5), 'a draw of the configured width around the constant', 1e-7)
    if n > 1:
        c.check(src.n == n, 'a new draw at every step')


def h_modal_rms(c, n, law):
    """modal amplitudes follow the law of the radial order and have the requested root sum square"""
    from specula.processing_objects.random_generator import RandomGenerator
    rms = c.real('rms', 0.1, 10)
    zero = c.pickint('zero', 0, n)
    src = Draws(c)
    with source(c, src):
        o = RandomGenerator(modal_rms=rms, output_size=n, forced_zero_modes=zero, scaling_law=law, seed=1, target_device_idx=-1, precision=0)
        v = run(c, o, [0])[0]
    d = src.drawn['normal']
    order = [0, 1, 1, 2, 2, 2, 3, 3, 3, 3][:n]
    w = [0.0 if i < zero else {'CONSTANT': 1.0, 'INVERSE': 1.0 / max(k, 1), 'LINEAR': float(max(k, 1))}[law] for i, k in enumerate(order)]
    tot = math.sqrt(sum(x * x for x in w))
    for i in range(n):
        c.close(v[i], d[i] * rms * (w[i] / tot if tot else 0.0), 'amplitude of this mode', 1e-6)


def h_vibration(c, nmodes, zero, two_d):
    """rows of a precomputed history, one spectrum and one seed per mode; amplitude scales with the square root of the spectrum"""
    from specula.processing_objects.vibration_generator import VibrationGenerator
    p = simul_params(total_time=4.0, time_step=1.0)
    psd = [[c.real(f'psd{m}_{k}', 0.1, 4.0) for k in range(2)] for m in range(nmodes)]
    g = c.pick('gain', [1.0, 2.0, 3.0])
    freq = c.xp.asarray([0.25, 0.5])
    if two_d:
        freq = c.xp.stack([freq] * nmodes, axis=1)

    class Fixed(Source):
        def __init__(self, c):
            super().__init__(c)
            self.ph = {}

        def new(self, seed=None, **k):
            self.seeds.append(seed)
            self.seed = seed
            return self

        def uniform(self, lo, hi, size):
            # the phases depend on the seed only; multiples of a quarter of a turn
            return c.xp.asarray([(hi - lo) / 4 * ((7 * self.seed + 3 * i * i) % 4) for i in range(int(size))])

    def make(scale):
        src = Fixed(c)
        with source(c, src):
            o = VibrationGenerator(p, nmodes, psd=c.xp.asarray([[x * scale for x in r] for r in psd]), freq=freq, seed=11, start_from_zero=zero,
                                   target_device_idx=-1, precision=0)
        c.check(src.seeds == [11 + m for m in range(nmodes)], 'a seed per mode')
        return run(c, o, [i * 1000 for i in range(6)])

    a, b = make(1.0), make(g * g)
    for k in range(6):
        c.check(a[k].shape == (nmodes,), 'one value per mode')
        for m in range(nmodes):
            c.close(b[k][m], g * a[k][m], 'amplitude scales with the square root of the spectrum', 1e-5)
            if zero and k == 0:
                c.close(a[k][m], 0.0, 'starts from zero', 1e-6)
            if k > 3:
                c.close(a[k][m], a[3][m], 'the last row is held', 1e-9)
    # signal of each mode from its spectrum
    for m in range(nmodes):
        ph = [2 * math.pi / 4 * ((7 * (11 + m) + 3 * i * i) % 4) for i in range(4)]
        amp = [0.0, c.sqrt(psd[m][0] * 0.25), c.sqrt(psd[m][1] * 0.25), c.sqrt(psd[m][0] * 0.25)]
        x = [sum(amp[i] * math.cos(ph[i] + 2 * math.pi * i * k / 4) for i in range(4)) for k in range(4)]
        for k in range(4):
            c.close(a[k][m], x[k] - (x[0] if zero else 0.0), 'sum of one cosine per frequency with the power of its bin', 1e-5)


def harnesses(tier):
    hs = []
    for kind in ('SIN', 'SQUARE', 'TRIANGLE'):
        hs += [H(f'wave {kind} scalars', h_wave, kind=kind, sizes={}),
               H(f'wave {kind} vectors', h_wave, kind=kind, sizes=dict(amp=2, freq=2, offset=2, constant=2, slope=2), n=1),
               H(f'wave {kind} mixed', h_wave, kind=kind, sizes=dict(amp=2, slope=2), n=1),
               H(f'wave {kind} vsize', h_wave, kind=kind, sizes={}, vsize=2, n=1)]
    hs += [H('wave SIN lower case', h_wave, kind='SIN', sizes={}, n=1, case=str.lower),
           H('wave SIN output size', h_wave, kind='SIN', sizes={}, output_size=2, n=1), H('wave errors', h_wave_errors)]
    for rows, cols, n in [(3, 2, 5), (1, 2, 2), (4, 0, 6), (2, 1, 3)]:
        hs.append(H(f'table {rows}x{cols}', h_table, rows=rows, cols=cols, n=n))
    for iv, g in [(1, 2), (2, [1, 2]), (3, 1), (3, [2, 1])]:
        hs.append(H(f'schedule {iv} {g}', h_schedule, intervals=iv, groups=g))
    hs.append(H('schedule errors', h_schedule_errors))
    hs += [H('pushpull', h_pushpull, n=3), H('pushpull first', h_pushpull, n=3, first=1), H('pushpull cycles', h_pushpull, n=2, ncycles=2),
           H('pushpull samples', h_pushpull, n=2, ncycles=2, nsamples=2), H('pushpull constant', h_pushpull, n=3, const=True),
           H('pushpull vector', h_pushpull, n=3, vect=True, ncycles=2), H('pushpull vector first', h_pushpull, n=3, first=1, vect=True, nsamples=2),
           H('pushpull pattern', h_pushpull, n=2, pattern=3, ncycles=2), H('push', h_pushpull, n=3, push=True, ncycles=2),
           H('push vector first', h_pushpull, n=3, push=True, first=2, vect=True), H('pushpull orders', h_pushpull, n=9, first=4),
           H('pushpull errors', h_pushpull_errors)]
    for kind in ('NORMAL', 'UNIFORM', 'uniform'):
        for a, k, s in [(0, 0, 2), (2, 0, 1), (0, 2, 1), (2, 2, 2)]:
            hs.append(H(f'random {kind} {a} {k} {s}', h_random, kind=kind, amps=a, consts=k, size=s))
    for law in ('CONSTANT', 'INVERSE', 'LINEAR'):
        hs.append(H(f'modal rms {law}', h_modal_rms, n=7, law=law))
    hs += [H('vibration', h_vibration, nmodes=1, zero=False, two_d=False), H('vibration modes', h_vibration, nmodes=2, zero=False, two_d=True),
           H('vibration from zero', h_vibration, nmodes=2, zero=True, two_d=False)]
    if tier == 'thorough':
        for kind in ('SIN', 'SQUARE'):
            hs.append(H(f'wave {kind} long', h_wave, kind=kind, sizes=dict(amp=3, freq=3), n=4))
        hs.append(H('schedule long', h_schedule, intervals=4, groups=[1, 2, 1], n=4, max_paths=4000, budget=300))
        hs.append(H('pushpull long', h_pushpull, n=6, ncycles=3, nsamples=3))
    return hs
