"""C14: exposure windows of detectors and averaging windows."""
from engine.common import H
from .util import simul_params, value, step

BOUNDS = ('exposures of 1-3 time steps, start times of 0-3 steps, simulations starting at step 0-4 and lasting 7 steps, time steps of 1 s, '
          '1 ms, 0.7 ms and 0.5 ms; every image and every weight; images of 1x2 pixels, vectors of 2 elements; single steps at any time up to 2000000 steps for any start time up to 1000000 steps')
OUTSIDE = 'longer runs (every phase of the window occurs within the bounds); start times that are not a multiple of the time step'


def schedule(c, k, s, first, steps):
    """-> (time step, [times in steps])"""
    return c.pick('time_step', [1.0, 0.001, 0.0007, 0.0005]), list(range(first, first + steps))


def ends(n, k, s):
    """step n is the last of an exposure window"""
    return n >= s and (n - s) % k == k - 1


def window(n, k, s, first):
    """steps of the window that ends at step n, as far as the simulation covered them"""
    return [j for j in range(n - k + 1, n + 1) if j >= first]


def h_ccd(c, k, s, first, steps=7):
    from specula.processing_objects.ccd import CCD
    from specula.data_objects.intensity import Intensity
    ts, ns = schedule(c, k, s, first, steps)
    bw = c.real('bandw', 0.5, 400)
    o = CCD(simul_params(time_step=ts), size=[2, 1], dt=k * ts, bandw=bw, start_time=s * ts, target_device_idx=-1)
    i = Intensity(2, 1, target_device_idx=-1)
    o.inputs['in_i'].set(i)
    o.setup()
    T = o.seconds_to_t(ts)
    img = {n: c.arr(f'i{n}', (1, 2), 0, 100) for n in ns}
    last, lasti, tm = None, None, None
    for n in ns:
        i.i[:] = img[n]
        i.generation_time = n * T
        step([o], n * T)
        px, it = o.outputs['out_pixels'], o.outputs['integrated_i']
        if ends(n, k, s):
            w = window(n, k, s, first)
            tot = [sum(img[j][0, e] for j in w) * bw * ts for e in range(2)]
            c.check(px.generation_time == n * T, 'pixels are output at the end of an exposure')
            c.check(it.generation_time == n * T, 'the integrated image is output at the end of an exposure')
            for e in range(2):
                c.close(px.pixels[0, e], tot[e], 'the pixels hold the light of the exposure window', tol=1e-4)
                c.close(it.i[0, e], tot[e], 'the integrated image holds the light of the exposure window', tol=1e-4)
            tm = n * T
            last, lasti = px.pixels.copy(), it.i.copy()
        else:
            c.check(px.generation_time == (-1 if tm is None else tm), 'no pixels are output within an exposure')
            c.check(it.generation_time == (-1 if tm is None else tm), 'no image is output within an exposure')
            if last is not None:
                c.equal(px.pixels, last, 'the last frame stays available during the next exposure')
                c.equal(it.i, lasti, 'the last image stays available during the next exposure')
        c.equal(i.i, img[n], 'the incident light is not altered')


def h_window(c, k, s, first, on_dt, steps=7):
    from specula.processing_objects.windowed_integration import WindowedIntegration
    ts, ns = schedule(c, k, s, first, steps)
    o = WindowedIntegration(simul_params(time_step=ts), n_elem=2, dt=k * ts, start_time=s * ts, update_time_on_dt=on_dt, target_device_idx=-1)
    v = value(c, c.const([0.0, 0.0]))
    o.inputs['input'].set(v)
    o.setup()
    T = o.seconds_to_t(ts)
    x = {n: c.arr(f'x{n}', 2, -10, 10) for n in ns}
    tm = None
    for n in ns:
        v.set_value(x[n])
        v.generation_time = n * T
        step([o], n * T)
        out = o.outputs['output']
        if ends(n, k, s):
            tm = n * T
            for e in range(2):
                c.close(out.value[e] * k, sum(x[j][e] for j in window(n, k, s, first)), 'the output is the mean over the window')
        else:
            c.close(out.value, c.const([0.0, 0.0]), 'the output is zero between the ends of windows')
        c.check(out.generation_time == ((-1 if tm is None else tm) if on_dt else n * T),
                'the output is refreshed ' + ('only at the end of a window' if on_dt else 'at every step'))


def h_any_time(c, k, what):
    """whether a window ends at a step depends only on its distance from the start time"""
    from specula.processing_objects.ccd import CCD
    from specula.processing_objects.windowed_integration import WindowedIntegration
    from specula.data_objects.intensity import Intensity
    s, n = c.int('start', 0, 1000000), c.int('n', 0, 2000000)
    if what == 'ccd':
        o = CCD(simul_params(), size=[1, 1], dt=float(k), bandw=1.0, start_time=s, target_device_idx=-1)
        i = Intensity(1, 1, target_device_idx=-1)
        o.inputs['in_i'].set(i)
    else:
        o = WindowedIntegration(simul_params(), n_elem=1, dt=float(k), start_time=s, update_time_on_dt=True, target_device_idx=-1)
        i = value(c, c.const([1.0]))
        o.inputs['input'].set(i)
    o.setup()
    t = n * o.seconds_to_t(1.0)
    i.generation_time = t
    step([o], t)
    emitted = o.outputs['out_pixels' if what == 'ccd' else 'output'].generation_time == t
    c.check(c.decide(c.And(n >= s, (n - s) % k == k - 1)) == bool(emitted), 'an output is produced exactly at the end of each exposure window')


def h_bad(c):
    """exposures that are not a positive multiple of the time step are refused"""
    from specula.processing_objects.ccd import CCD
    from specula.processing_objects.windowed_integration import WindowedIntegration
    n = c.int('ns', -3000, 6000)
    dt = n / 1000.0
    for mk in (lambda: CCD(simul_params(), size=[1, 1], dt=dt, bandw=1.0, target_device_idx=-1),
               lambda: WindowedIntegration(simul_params(), n_elem=1, dt=dt, target_device_idx=-1)):
        ok = True
        try:
            mk()
        except ValueError:
            ok = False
        c.check(c.decide(c.And(n > 0, n % 1000 == 0)) == ok, 'an exposure is accepted exactly if it is a positive multiple of the time step')


def harnesses(tier):
    hs = [H('bad exposures', h_bad)]
    for k in (1, 2, 3, 7) if tier == 'quick' else (1, 2, 3, 4, 5, 7, 10, 100):
        for what in ('ccd', 'window'):
            hs.append(H(f'{what} exposure {k} at any time', h_any_time, k=k, what=what))
    cases = [(1, 0, 0), (2, 0, 0), (3, 0, 0), (2, 1, 0), (2, 3, 0), (3, 2, 0), (3, 1, 3), (2, 1, 4), (3, 2, 2)]
    if tier == 'thorough':
        cases = [(k, s, f) for k in (1, 2, 3) for s in range(4) for f in range(5) if f <= s or (f - s) % k == 0]
    else:
        cases = [x for x in cases if x[2] <= x[1] or (x[2] - x[1]) % x[0] == 0]
    for k, s, f in cases:
        hs.append(H(f'detector exposure {k} start {s} from {f}', h_ccd, k=k, s=s, first=f))
        for on in (False, True):
            hs.append(H(f'window {k} start {s} from {f}{" timed" if on else ""}', h_window, k=k, s=s, first=f, on_dt=on))
    return hs
