"""C13: filters have the requested transfer function."""
from engine.common import H
from .util import simul_params, value, rejects

BOUNDS = ('1-3 modes with arbitrary gains and forgetting factors; every cut-off frequency below half the sampling rate for filters of order '
          '1, 2, 4 (6 thorough); every delay from 0 to 3 steps; controllers with up to 3 and plants with up to 3 arbitrary coefficients at '
          'every frequency up to Nyquist; transfer functions of degree up to 2 converted to and from the control library')
OUTSIDE = ('stability margins, poles and zeros and resonance searches (numerical root finding and scans); frequencies at which the '
           'denominator is smaller than 1e-3')


def poly(c, row, z):
    """lowest order first"""
    r = 0
    p = 1
    for a in row:
        r = r + a * p
        p = p * z
    return r


def h_gain(c, ff, n):
    from specula.data_objects.iir_filter_data import IirFilterData
    g = [c.real(f'g{i}', -2, 2) for i in range(n)]
    f = {None: [1] * n, 'one': [c.real('f', 0, 1)] * n, 'all': [c.real(f'f{i}', 0, 1) for i in range(n)]}[ff]
    k = {} if ff is None else dict(ff=f[0] if ff == 'one' else f)
    d = IirFilterData.from_gain_and_ff(g, target_device_idx=-1, **k)
    z = c.real('z', -2, 2)
    c.check(d.nfilter == n, 'one filter per gain')
    for m in range(n):
        num, den = poly(c, d.num[m], z), poly(c, d.den[m], z)
        c.check(d.den[m, -1] != 0, 'the filter is causal')
        c.close(num * (z - f[m]), g[m] * z * den, 'an integrator is g z / (z - ff)')


def h_groups(c, n_modes):
    from specula.data_objects.iir_filter_data import IirFilterData
    k = len(n_modes)
    num, den = c.arr('b', (k, 3), -2, 2), c.arr('a', (k, 3), -2, 2)
    den[:, -1] = 1.0
    d = IirFilterData([3] * k, [3] * k, num, den, n_modes=n_modes, target_device_idx=-1)
    idx = [i for i in range(k) for _ in range(n_modes[i])]
    c.check(d.nfilter == len(idx), 'one filter per mode')
    for m, i in enumerate(idx):
        c.equal(d.num[m], num[i], 'each mode has the numerator of its group')
        c.equal(d.den[m], den[i], 'each mode has the denominator of its group')
    c.check(rejects(lambda: IirFilterData([3] * k, [3] * k, num, den, n_modes=n_modes + [1], target_device_idx=-1)),
            'a list of groups of the wrong length is refused')


def h_setgain(c, size):
    """a gain change scales the transfer function"""
    from specula.data_objects.iir_filter_data import IirFilterData
    num, den = c.arr('b', (2, 2), -2, 2), c.arr('a', (2, 2), -2, 2)
    num[:, -1] = c.arr('g', 2, 0.25, 2)
    den[:, -1] = 1.0
    n0, d0 = num.copy(), den.copy()
    d = IirFilterData([2, 2], [2, 2], num, den, target_device_idx=-1)
    g1, g2 = [c.arr(f'ng{i}', size, -2, 2) if size else c.real(f'ng{i}', -2, 2) for i in range(2)]
    for g in (g1, g2):
        d.set_gain(g)
        for m in range(2):
            gm = g[m] if size else g
            for k in range(2):
                c.close(d.num[m, k] * n0[m, -1], gm * n0[m, k], 'a new gain replaces the old one and keeps the shape of the numerator')
    c.equal(d.den, d0, 'a new gain keeps the denominator')


def h_lpf(c, order, n=1, vector=False):
    from specula.data_objects.iir_filter_data import IirFilterData
    fs = c.pick('fs', [1000.0, 500.0])
    fc = [c.real(f'fc{i}', 0.01, 0.49) * fs for i in range(n)]
    d = IirFilterData.lpf_from_fc(fc if n > 1 or vector else fc[0], fs, n_ord=order, target_device_idx=-1)
    c.check(d.nfilter == n, 'one filter per cut-off frequency')
    for m in range(n):
        num, den = list(d.num[m]), list(d.den[m])
        c.close(sum(num), sum(den), 'a low-pass filter has unit gain at zero frequency', tol=1e-6)
        if order % 2 == 0:
            c.close(sum(a * (-1) ** i for i, a in enumerate(num)), 0, 'a low-pass filter of even order stops the Nyquist frequency', tol=1e-6)
        c.check(den[-1] == 1, 'the filter is causal')


def h_lpf_half(c, order):
    """half power at the cut-off frequency"""
    from specula.data_objects.iir_filter_data import IirFilterData
    import math
    fc = c.pick('fc', [10.0, 50.0, 125.0, 200.0, 300.0])
    d = IirFilterData.lpf_from_fc(fc, 1000.0, n_ord=order, target_device_idx=-1)
    x = 2 * math.pi * fc / 1000.0
    p = []
    for row in (d.num[0], d.den[0]):
        re = sum(a * math.cos(k * x) for k, a in enumerate(row))
        im = sum(a * math.sin(k * x) for k, a in enumerate(row))
        p.append(re * re + im * im)
    c.close(p[0] / p[1], 0.5, 'the power is halved at the cut-off frequency', tol=1e-6)


def h_ampl(c, n=1):
    from specula.data_objects.iir_filter_data import IirFilterData
    fc = [c.real(f'fc{i}', 0.01, 0.49) * 1000.0 for i in range(n)]
    am = [c.real(f'am{i}', 0.5, 4) for i in range(n)]
    d = IirFilterData.lpf_from_fc_and_ampl(fc, am, 1000.0, target_device_idx=-1)
    for m in range(n):
        num, den = list(d.num[m]), list(d.den[m])
        c.close(sum(num), sum(den), 'a low-pass filter with amplification has unit gain at zero frequency', tol=1e-6)
        c.check(den[-1] == 1, 'the filter is causal')


def h_default(c):
    """a low-pass filter object needs only its cut-off frequency"""
    from specula.processing_objects.low_pass_filter import LowPassFilter
    fc = c.real('fc', 0.01, 0.49) * 1000.0
    o = LowPassFilter(simul_params(time_step=0.001), cutoff_freq=fc, target_device_idx=-1)
    d = o.iir_filter_data
    c.close(sum(list(d.num[0])), sum(list(d.den[0])), 'a low-pass filter has unit gain at zero frequency', tol=1e-6)


def h_lpf_bad(c):
    from specula.data_objects.iir_filter_data import IirFilterData
    fc = c.real('fc', 0.5, 3) * 1000.0
    c.check(rejects(lambda: IirFilterData.lpf_from_fc(fc, 1000.0, n_ord=2), ValueError), 'a cut-off above Nyquist is refused')
    c.check(rejects(lambda: IirFilterData.lpf_from_fc(10.0, 1000.0, n_ord=c.pick('o', [3, 5])), ValueError), 'odd orders are refused')


def h_delay_tf(c, delay=None):
    from specula.data_objects.iir_filter_data import IirFilterData
    d = IirFilterData.from_gain_and_ff([1.0], target_device_idx=-1)
    dl = c.real('delay', 0, 3) if delay is None else delay
    num, den = d.discrete_delay_tf(dl)
    k = int(c.toint(c.floor(dl))) if delay is None else int(delay // 1)
    r = dl - k
    z = c.real('z', 0.5, 2)
    # num/den == (1-r) z^-k + r z^-(k+1)
    c.close(poly(c, num, z) * z ** (k + 1), ((1 - r) * z + r) * poly(c, den, z), 'a delay of d steps is z^-d, interpolated when fractional')


def respond(c, d, row, cs):
    """(re, im) of a polynomial (lowest order first) on the unit circle"""
    re = im = 0
    a, b = 1, 0
    for k in row:
        re, im = re + k * a, im + k * b
        a, b = a * cs[0] - b * cs[1], a * cs[1] + b * cs[0]
    return re, im


def cmul(a, b):
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


def h_loop(c, nc, plant, which, symplant=True):
    from specula.data_objects.iir_filter_data import IirFilterData
    import math
    modes = 2
    num, den = c.arr('b', (modes, nc), -2, 2), c.arr('a', (modes, nc), -2, 2)
    den[:, -1] = 1.0
    d = IirFilterData([nc] * modes, [nc] * modes, num, den, target_device_idx=-1)
    k = {}
    pn, pd = [1], [1]
    if plant:
        if symplant:
            dm, nw, dw = [c.arr(n, s, -1, 1) for n, s in zip(('dm', 'nw', 'dw'), plant)]
        else:
            dm, nw, dw = [c.const([0.5, -0.25, 0.75, 0.125][:s]) for s in plant]
        dm[-1] = 1.0
        dw[-1] = 1.0
        k = dict(dm=dm, nw=nw, dw=dw)
        pn = list(nw)
        pd = [sum(dm[i] * dw[j - i] for i in range(len(dm)) if 0 <= j - i < len(dw)) for j in range(len(dm) + len(dw) - 1)]
    mode = c.pick('mode', [0, 1]) if plant is None else 1
    if plant:
        c.assume(den[1, 0] > 0.05)         # the case of common zeros is that of the unit plant
        c.assume(dm[0] > 0.05 or len(dm) == 1) if symplant else None
        c.assume(dw[0] > 0.05 or len(dw) == 1) if symplant else None
    fs = 1000.0
    f = c.real('f', 0.001, 0.5)
    fr = c.const([0.0])
    fr[0] = f * fs
    x = f * 2 * math.pi
    cs = (c.cos(x), c.sin(x))
    N = cmul(respond(c, d, list(num[mode]), cs), respond(c, d, pn, cs))
    D = cmul(respond(c, d, list(den[mode]), cs), respond(c, d, pd, cs))
    T = (N[0] + D[0], N[1] + D[1])
    t2 = T[0] ** 2 + T[1] ** 2
    c.assume(t2 > 1e-6)
    got = [getattr(d, w)(mode, fs, freq=fr, plot=False, **k)[0] for w in which]
    for w, g in zip(which, got):
        p = D if w == 'RTF' else N
        c.check(g >= 0, f'{w} is a magnitude')
        c.close(g * g * t2, p[0] ** 2 + p[1] ** 2, f'{w} is the magnitude of {"1" if w == "RTF" else "CP"}/(1+CP)', tol=1e-5)


def h_freq(c, n):
    """the response at any frequency is num(z)/den(z) on the unit circle"""
    from specula.data_objects.iir_filter_data import IirFilterData
    d = IirFilterData.from_gain_and_ff([1.0], target_device_idx=-1)
    num, den = c.arr('b', n, -2, 2), c.arr('a', n, -1, 1)
    f = c.real('f', 0.001, 0.5)
    fs = c.pick('fs', [1000.0, 250.0])
    fr = c.const([0.0])
    fr[0] = f * fs
    import math
    x = f * 2 * math.pi
    cs = (c.cos(x), c.sin(x))
    N, D = respond(c, d, list(num), cs), respond(c, d, list(den), cs)
    c.assume(D[0] ** 2 + D[1] ** 2 > 1e-6)
    h = d.frequency_response(num, den, fs, freq=fr)[0]
    got = cmul((h.real, h.imag), D)
    c.close(got[0], N[0], 'the frequency response is num(z)/den(z)', tol=1e-6)
    c.close(got[1], N[1], 'the frequency response is num(z)/den(z)', tol=1e-6)


def h_closed(c, nc, npn, npd):
    from specula.data_objects.iir_filter_data import IirFilterData
    d = IirFilterData.from_gain_and_ff([1.0], target_device_idx=-1)
    cn, cd, pn, pd = [c.arr(n, s, -2, 2) for n, s in zip(('cn', 'cd', 'pn', 'pd'), (nc, nc, npn, npd))]
    r = d.closed_loop_denominator(cn, cd, pn, pd)
    z = c.real('z', -2, 2)
    c.close(poly(c, r, z), poly(c, cn, z) * poly(c, pn, z) + poly(c, cd, z) * poly(c, pd, z),
            'the closed loop denominator is that of 1 + CP')


class FakeTF:
    """control.TransferFunction as far as IirFilterData uses it: coefficients, highest order first, without leading zeros"""
    def __init__(self, num, den, dt=None):
        def clean(a):
            a = list(a)
            while len(a) > 1 and not hasattr(a[0], 'n') and a[0] == 0:
                a = a[1:]
            return a
        self._n, self._d, self.dt = clean(num), clean(den), dt

    def _wrap(self, a):
        from engine import shim
        return [[shim.asarray(a)]]
    num = property(lambda self: self._wrap(self._n))
    den = property(lambda self: self._wrap(self._d))


class FakeControl:
    TransferFunction = FakeTF


def with_control(c, fn):
    from specula.data_objects import iir_filter_data as m
    if not m.CONTROL_AVAILABLE:
        return None
    if not c.symbolic:
        return fn(m, m.control)
    real = m.control
    m.control = FakeControl
    try:
        return fn(m, FakeControl)
    finally:
        m.control = real


def h_tf_in(c, shapes, single=False):
    """filters built from transfer functions, lowest degree numerators included"""
    def body(m, control):
        tfs, spec = [], []
        for i, (a, b) in enumerate(shapes):
            n, dd = c.arr(f'n{i}', a, 0.25, 2), c.arr(f'd{i}', b, -2, 2)
            dd[0] = 1.0
            spec.append((list(n), list(dd)))
            tfs.append(control.TransferFunction(n, dd, dt=1.0))
        d = m.IirFilterData.from_control_tf(tfs[0] if single else tfs, target_device_idx=-1)
        z = c.real('z', 0.5, 2)
        for i, (n, dd) in enumerate(spec):
            num, den = poly(c, d.num[i], z), poly(c, d.den[i], z)
            c.check(d.den[i, -1] != 0, 'the filter is causal')
            c.close(num * poly(c, dd[::-1], z), poly(c, n[::-1], z) * den, 'the filter has the given transfer function', tol=1e-6)
    with_control(c, body)


def h_tf_out(c, n, modes=2):
    def body(m, control):
        num, den = c.arr('b', (modes, n), 0.25, 2), c.arr('a', (modes, n), 0.25, 2)
        zeros = c.pick('zeros', [0, 1])
        if zeros:
            num[:, 0] = 0.0
            den[:, 0] = 0.0
        d = m.IirFilterData([n] * modes, [n] * modes, num, den, target_device_idx=-1)
        tfs = d.to_control_tf_list(dt=1.0)
        c.check(len(tfs) == modes, 'one transfer function per mode')
        z = c.real('z', 0.5, 2)
        for i in range(modes):
            for tf in (tfs[i], d.to_control_tf(mode=i, dt=1.0)):
                a, b = list(tf.num[0][0])[::-1], list(tf.den[0][0])[::-1]
                c.close(poly(c, a, z) * poly(c, den[i], z), poly(c, b, z) * poly(c, num[i], z),
                        'the exported transfer function is that of the filter', tol=1e-6)
    with_control(c, body)


def harnesses(tier):
    out = []
    for ff, n in ((None, 2), ('one', 2), ('all', 3), ('all', 1)):
        out.append(H(f'gain {ff} {n}', h_gain, ff=ff, n=n))
    for nm in ([2], [1, 2], [2, 1, 1]):
        out.append(H(f'groups {nm}', h_groups, n_modes=nm))
    for s in (0, 2):
        out.append(H(f'set gain {s}', h_setgain, size=s))
    for o in (1, 2, 4):
        out.append(H(f'lpf {o}', h_lpf, order=o))
    out.append(H('lpf modes', h_lpf, order=2, n=2))
    for o in (2, 4, 6):
        out.append(H(f'lpf half power {o}', h_lpf_half, order=o))
    out.append(H('lpf ampl', h_ampl, n=2))
    out.append(H('lpf default', h_default))
    out.append(H('lpf refused', h_lpf_bad))
    out.append(H('delay', h_delay_tf))
    for d in (0, 1, 2, 3, 0.5, 1.25):
        out.append(H(f'delay {d}', h_delay_tf, delay=d))
    out.append(H('loop unity', h_loop, nc=2, plant=None, which=('RTF', 'NTF')))
    for w in ('RTF', 'NTF'):
        out.append(H(f'loop plant {w}', h_loop, nc=2, plant=(2, 1, 2), which=(w,), symplant=False))
        out.append(H(f'loop plant num {w}', h_loop, nc=2, plant=(1, 2, 3), which=(w,), symplant=False))
        out.append(H(f'loop any plant {w}', h_loop, nc=1, plant=(2, 2, 1), which=(w,)))
    out.append(H('response 2', h_freq, n=2))
    out.append(H('response 3', h_freq, n=3))
    for k in ((2, 1, 1), (2, 2, 3), (3, 3, 2)):
        out.append(H(f'closed loop {k}', h_closed, nc=k[0], npn=k[1], npd=k[2]))
    for i, sh in enumerate((((2, 2),), ((1, 2),), ((2, 3), (3, 3)), ((1, 2), (3, 3)), ((1, 3), (1, 2)))):
        out.append(H(f'from tf {sh}', h_tf_in, shapes=sh, single=len(sh) == 1))
    for n in (2, 3):
        out.append(H(f'to tf {n}', h_tf_out, n=n))
    if tier == 'thorough':
        out.append(H('lpf 6', h_lpf, order=6, budget=200, assert_timeout=60000))
        out.append(H('loop 3', h_loop, nc=3, plant=(2, 2, 2), which=('RTF', 'NTF'), budget=300, assert_timeout=60000))
        out.append(H('response 4', h_freq, n=4, budget=300, assert_timeout=60000))
    return out
