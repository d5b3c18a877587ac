"""C25: frozen-flow turbulence."""
import contextlib
import math
import sys
from engine.common import H
from .util import simul_params, value, quiet, rejects

BOUNDS = ('1-3 layers of 2x2 to 4x4 pixels on square screens of 5x5 to 8x8 pixels with arbitrary content, 1-4 steps of irregular length, arbitrary wind '
          'speeds within the screen, the four quarter-turn directions, several seeing values, zenith angles and turbulence profiles; endless screens of '
          '2x2 visible pixels with arbitrary content and arbitrary random draws, wind along either axis')
OUTSIDE = 'wind directions between the quarter turns, the statistics of the generated screens, negative wind speeds on finite screens'
ASSUMPTIONS = ['the screen generator is replaced by arbitrary screens of the requested size; the endless screen keeps its own code and gets an arbitrary '
               'initial content, arbitrary small extrapolation matrices and arbitrary random draws']


def module(name):
    import importlib
    return importlib.import_module('specula.processing_objects.' + name)


@contextlib.contextmanager
def screens(c, store, nsq, D, mods):
    """replace the screen generator"""
    def gen(L0, dimension, pixel_pitch, directory, *a, seed=None, **k):
        c.check(int(dimension) == D, 'screens of the requested size are generated')
        c.check(len(seed) <= nsq, 'no more screens than needed')
        return [store[i].copy() for i in range(len(seed))]
    old = [(m, m.phasescreens_manager) for m in mods]
    for m in mods:
        m.phasescreens_manager = gen
    try:
        yield
    finally:
        for m, f in old:
            m.phasescreens_manager = f


def build(c, cls, store, D, pitch=1.0, n=2, L0=25.0, heights=(0.0,), Cn2=(1.0,), zenith=0.0, **k):
    m = module('atmo_evolution')
    mods = [m]
    if cls != 'AtmoEvolution':
        mods.append(module('atmo_evolution_up_down'))
    with screens(c, store, len(store), D, mods[:1]), quiet():
        o = getattr(mods[-1], cls)(simul_params(pixel_pupil=n, pixel_pitch=pitch, zenithAngleInDeg=zenith), L0=L0, heights=list(heights),
                                   Cn2=list(Cn2), data_dir='', pixel_phasescreens=D, target_device_idx=-1, **k)
    return o


def wire(c, o, see, v, th):
    ins = dict(seeing=value(c, see), wind_speed=value(c, v), wind_direction=value(c, th))
    for k, x in ins.items():
        o.inputs[k].set(x)
    o.setup()
    return ins


def go(c, o, ins, t):
    for x in ins.values():
        x.generation_time = t
    o.check_ready(t)
    o.trigger()
    o.post_trigger()


def strips(c, store, k, pl, Cn2, several_L0=False):
    """the strip of screen of every layer, in nm per unit of the seeing factor"""
    out = []
    per = 1 if several_L0 else store[0].shape[0] // pl
    for i in range(k):
        s = store[i // per]
        j = i % per
        p = s[pl * j:pl * (j + 1), :] * math.sqrt(Cn2[i])
        tot = sum(p[a, b] for a in range(p.shape[0]) for b in range(p.shape[1]))
        p = (p - tot / p.size) * (500.0 / (2 * math.pi))
        out.append(p[:, ::-1] if i % 2 else p)
    return out


def factor(pitch, seeing, zenith):
    if seeing == 0:
        return 0.0
    r0 = 0.9759 * 0.5 / (seeing * 4.848) * (1 / math.cos(math.radians(zenith))) ** (-3 / 5)
    return (pitch / r0) ** (5 / 6)


def turn(a, k):
    """quarter turns counterclockwise, rows counted downwards"""
    n = a.shape[0]
    for _ in range(int(k) % 4):
        b = a.copy()
        for i in range(n):
            for j in range(n):
                b[n - 1 - j, i] = a[i, j]
        a = b
    return a


def window(c, p, pos, n):
    """n x n pixels at a displacement pos along the columns, linear between pixels"""
    i = int(c.floor(pos)) if c.symbolic else math.floor(pos)
    f = pos - i
    a = p[0:n, i:i + n]
    return a + f * (p[0:n, i + 1:i + 1 + n] - a) if i + 1 + n <= p.shape[1] else a


def compare(c, ly, want, t, what):
    c.close(ly.phaseInNm, want, what, 1e-2)
    c.check(ly.generation_time == t, 'the layer is marked as of this step')
    c.equal(ly.A, 1 + 0 * ly.A, 'layers are transparent')


def h_flow(c, k=1, n=2, D=6, dts=(0, 500_000_000, 250_000_000), pitch=1.0, Cn2=(1.0,), seeing=None, zenith=0.0, L0=25.0, vary=False, extra=0.0,
           dirs=(0.0,), heights=None, updown=None):
    """displacement, interpolation, direction and strength of each layer"""
    several = not isinstance(L0, float) and len(set(L0)) > 1
    per = 1 if several else D // n
    store = [c.arr(f's{i}', (D, D), -2, 2) for i in range(-(-k // per))]
    kw = dict(extra_delta_time_down=updown[0], extra_delta_time_up=updown[1]) if updown else dict(extra_delta_time=extra)
    o = build(c, 'AtmoEvolutionUpDown' if updown else 'AtmoEvolution', store, D, pitch, n, L0, heights or [0.0] * k, Cn2, zenith, **kw)
    if hasattr(seeing, '__len__'):
        see = c.pick('seeing', list(seeing))
    else:
        see = seeing or 0.8
    th = [float(c.pick(f'dir{i}', list(dirs))) for i in range(k)]
    room = D - n
    T = sum(dts) * 1e-9
    offs = [0.0] if not updown and not extra else ([extra] if extra else list(updown))
    vmax = (room - 0.01) * pitch / (T + max(offs))
    vs = [c.real(f'v{i}', 0, vmax) for i in range(k)]
    ins = wire(c, o, c.const([see]), c.xp.array(vs), c.const(th))
    base = strips(c, store, k, n, Cn2, several)
    t, pos = 0, [0.0] * k
    for s, dt in enumerate(dts):
        t += dt
        if vary and s:
            for i in range(k):
                w = c.real(f'v{i}_{s}', 0, vmax)
                pos[i] = pos[i] + w * (dt * 1e-9) / pitch
                vs[i] = w
            ins['wind_speed'].value = c.xp.array(vs)
        else:
            pos = [p + v * (dt * 1e-9) / pitch for p, v in zip(pos, vs)]
        go(c, o, ins, t)
        lists = [(o.outputs['layer_list'], offs[0])] if not updown else \
            [(o.outputs['layer_list_down'], updown[0]), (o.outputs['layer_list_up'], updown[1])]
        for ls, e in lists:
            c.check(len(ls) == k, 'one layer for each height')
            for i in range(k):
                w = window(c, base[i], pos[i] + vs[i] * e / pitch, n) * factor(pitch, see, zenith)
                compare(c, ls[i], turn(w, th[i] / 90), t, 'screen displaced by wind speed times elapsed time')
    for i, ly in enumerate(o.outputs['layer_list']):
        c.close(ly.height, (heights or [0.0] * k)[i], 'layer heights are those requested')
        c.check(ly.pixel_pitch == pitch, 'layers have the pixel pitch of the pupil')


def h_proportional(c, n=2, D=6):
    """constant wind: the position does not depend on how time is divided into steps"""
    store = [c.arr('s', (D, D), -2, 2)]
    v = c.real('v', 0, D - n - 0.1)
    res = []
    for dts in ((1000,), (250, 750), (500, 250, 250), (300, 100, 500, 100)):
        o = build(c, 'AtmoEvolution', store, D)
        ins = wire(c, o, c.const([1.0]), c.xp.array([v]), c.const([0.0]))
        t = 0
        for dt in dts:
            t += dt * 1_000_000
            go(c, o, ins, t)
        res.append(o.outputs['layer_list'][0].phaseInNm.copy())
    for r in res[1:]:
        c.close(r, res[0], 'the same time in other steps gives the same layer', 1e-2)


def h_independent(c, n=2, D=5):
    """changing one layer's wind does not move another"""
    store = [c.arr('s', (D, D), -2, 2)]
    a, b, b2 = c.real('a', 0, 2.9), c.real('b', 0, 2.9), c.real('b2', 0, 2.9)
    res = []
    for w in (b, b2):
        o = build(c, 'AtmoEvolution', store, D, heights=(0.0, 0.0), Cn2=(0.25, 0.75))
        ins = wire(c, o, c.const([1.0]), c.xp.array([a, w]), c.const([0.0, 90.0 if w is b else 180.0]))
        go(c, o, ins, 1_000_000_000)
        res.append(o.outputs['layer_list'][0].phaseInNm.copy())
    c.close(res[0], res[1], 'a layer does not depend on the wind of another', 1e-3)


def h_end(c, n=2, D=5):
    """at the end of the screen the layer starts again, and stays within the screen"""
    store = [c.arr('s', (D, D), -2, 2)]
    o = build(c, 'AtmoEvolution', store, D)
    v = c.real('v', 0, 12)
    ins = wire(c, o, c.const([1.0]), c.xp.array([v]), c.const([0.0]))
    base = strips(c, store, 1, n, (1.0,))[0]
    pos = 0.0
    for s in range(1, 3):
        go(c, o, ins, s * 1_000_000_000)
        pos = pos + v
        if c.decide(pos + n >= D):
            pos = 0.0
        compare(c, o.outputs['layer_list'][0], window(c, base, pos, n) * factor(1.0, 1.0, 0.0), s * 1_000_000_000, 'at the end of the screen it starts again')


def h_size(c):
    """layers cover the pupil, its displacement and the field of view"""
    D = 64
    for n, pitch, zen, fov, hs, pos in ((4, 0.5, 0.0, 0.0, (0.0, 1e4), [0, 0]), (4, 0.5, 60.0, 40.0, (0.0, 1e4, 2e4), [0, 0]),
                                        (4, 1.0, 0.0, 0.0, (0.0,), [3.0, 4.0]), (4, 1.0, 0.0, 0.0, (0.0,), [-3.0, 4.0]),
                                        (4, 0.5, 0.0, 60.0, (0.0, 5e3), [0.0, -2.0])):
        store = [c.xp.zeros((D, D)) for _ in hs]
        k = len(hs)
        o = build(c, 'AtmoEvolution', store, D, pitch, n, 25.0, hs, [1.0 / k] * k, zen, fov=fov, pupil_position=pos)
        for h, ly in zip(hs, o.outputs['layer_list']):
            need = n + 2 * math.hypot(*pos) / pitch + h / math.cos(math.radians(zen)) / pitch * fov * math.pi / 180 / 3600
            c.check(need - 0.001 <= ly.size[0] <= need + 2.001 and ly.size[0] == ly.size[1], 'size of the layer')
            c.check(ly.size[0] % 2 == 0, 'layer sizes are even')
    o = build(c, 'AtmoEvolution', [c.xp.zeros((D, D))], D, 0.5, 4, 25.0, (0.0,), (1.0,), 0.0, fov_in_m=9.0)
    c.check(o.outputs['layer_list'][0].size == (18, 18), 'a field in metres sets the size of the layer')


def h_reject(c):
    store = [c.xp.zeros((8, 8))]
    c.check(rejects(lambda: build(c, 'AtmoEvolution', store, 8, heights=(0.0, 1.0), Cn2=(0.5, 0.6)), ValueError), 'a profile that does not add up to one is rejected')
    c.check(rejects(lambda: build(c, 'AtmoEvolution', store, 8, n=10), ValueError), 'screens smaller than the layer are rejected')
    c.check(rejects(lambda: build(c, 'AtmoEvolution', store, 8, seed=0), ValueError), 'seeds start at one')
    o = build(c, 'AtmoEvolution', store, 8)
    c.check(rejects(lambda: wire(c, o, c.const([1.0]), c.const([1.0, 2.0]), c.const([0.0])), ValueError), 'one wind speed for each layer')
    o = build(c, 'AtmoEvolution', store, 8)
    c.check(rejects(lambda: wire(c, o, c.const([1.0]), c.const([1.0]), c.const([0.0, 1.0])), ValueError), 'one wind direction for each layer')
    o = build(c, 'AtmoEvolution', store, 8)
    c.check(rejects(lambda: wire(c, o, c.const([1.0, 1.0]), c.const([1.0]), c.const([0.0])), ValueError), 'a single seeing')


# ---- endless screens

S = 3      # side of the hidden screen


@contextlib.contextmanager
def endless(c, first, draws, A, B):
    """the endless screen with a small hidden part, given content, extrapolation and random draws"""
    m = sys.modules.get('specula.data_objects.infinite_phase_screen') or __import__('importlib').import_module('specula.data_objects.infinite_phase_screen')
    K = m.InfinitePhaseScreen
    old = K.setup, K.set_stencil_coords
    made = []

    class Rng:
        def __init__(self, i):
            self.i, self.k = i, 0

        def standard_normal(self, size=None, **k):
            self.k += 1
            return draws[self.i][self.k - 1].copy()

    def setup(self):
        i = len(made)
        made.append(self)
        self.stencil_size = S
        self.n_stencils = S
        r = c.xp.arange(S)
        self.stencil_coords = [c.xp.stack((0 * r, r)).T, c.xp.stack((0 * r + S - 1, r)).T]
        self.A_mat, self.B_mat = [A, A], [B, B]
        self.full_scrn = first[i].copy()
        self.rng = Rng(i)
    K.setup, K.set_stencil_coords = setup, lambda self: None
    try:
        yield made
    finally:
        K.setup, K.set_stencil_coords = old


def tape(c, scr, draws, A, B, axis, back):
    """the screen unrolled along an axis in the direction of the wind: extended[j] is the j-th line"""
    a = scr if axis == 1 else scr.T           # lines along columns of a
    cols = [a[:, j] for j in range(S)]
    if back:
        cols = cols[::-1]
    for r in draws:
        cols.append(A.dot(cols[-1]) + B.dot(r))
    return cols


def h_endless(c, k=1, dirs=(0.0,), n=2, steps=2, pitch=1.0, Cn2=(1.0,), seeing=(0.7,), extra=0.0, zenith=0.0, vmax=1.9):
    m = module('atmo_infinite_evolution')
    first = [c.arr(f's{i}', (S, S), -2, 2) for i in range(k)]
    draws = [[c.arr(f'r{i}_{j}', S, -1, 1) for j in range(8)] for i in range(k)]
    A = c.const([[0.5, 0.25, 0.0], [0.0, 0.75, 0.25], [0.25, 0.0, 0.5]])
    B = c.const([[1.0, 0.0, 0.0], [0.5, 0.5, 0.0], [0.0, 0.25, 0.5]])
    see = c.pick('seeing', list(seeing))
    th = [float(c.pick(f'dir{i}', list(dirs))) for i in range(k)]
    with endless(c, first, draws, A, B), quiet():
        o = m.AtmoInfiniteEvolution(simul_params(pixel_pupil=n, pixel_pitch=pitch, zenithAngleInDeg=zenith), L0=[25.0] * k, heights=[0.0] * k,
                                    Cn2=list(Cn2), extra_delta_time=extra, target_device_idx=-1)
        v = [c.real(f'v{i}', 0.01, vmax) for i in range(k)]
        ins = wire(c, o, c.const([see]), c.xp.array(v), c.const(th))
        for s in range(steps):
            t = s * 1_000_000_000 if not extra else (s + 1) * 1_000_000_000
            go(c, o, ins, t)
            for i in range(k):
                axis, back = (1, th[i] == 180) if th[i] % 180 == 0 else (0, th[i] == 270)
                ext = tape(c, first[i], draws[i], A, B, axis, back)
                pos = v[i] * (t * 1e-9 + extra) / pitch
                j = int(c.floor(pos)) if c.symbolic else math.floor(pos)
                f = pos - j
                if c.symbolic:      # the code ignores fractions of a line below 1e-4
                    c.assume(c.Or(f == 0, c.And(f > 0.001, f < 0.999)))
                elif f != 0 and not 0.001 < f < 0.999:
                    c.assume(False)
                lines = [ext[q] + f * (ext[q + 1] - ext[q]) for q in range(j, j + S)]
                if back:
                    lines = lines[::-1]
                w = c.xp.stack(lines)
                if axis == 1:
                    w = w.T
                want = w[:n, :n] * (500 / (2 * math.pi)) * math.sqrt(Cn2[i]) * see ** (5 / 6)
                compare(c, o.outputs['layer_list'][i], want, t, 'endless screen displaced by wind speed times elapsed time')


def harnesses(tier):
    big = tier == 'thorough'
    q = 250_000_000
    out = [H('flow', h_flow), H('flow_varying', h_flow, vary=True, D=5), H('flow_pitch', h_flow, pitch=0.5, D=5, dts=(q, q)),
           H('flow_4x4', h_flow, n=4, D=6, dts=(q, 2 * q)), H('flow_dirs', h_flow, D=4, dts=(q,), dirs=(0, 90, 180, 270, -90, 360)),
           H('flow_seeing', h_flow, D=4, dts=(q,), seeing=(0.3, 1.0, 2.0, 0.0)), H('flow_zenith', h_flow, D=4, dts=(q,), zenith=60.0),
           H('flow_two', h_flow, k=2, D=4, dts=(q,), Cn2=(0.25, 0.75), dirs=(0, 90), heights=[0.0, 5000.0]),
           H('flow_three', h_flow, k=3, D=4, dts=(q,), Cn2=(0.25, 0.5, 0.25)), H('flow_L0', h_flow, k=2, D=4, dts=(q,), Cn2=(0.6, 0.4), L0=[20.0, 30.0]),
           H('flow_L0_same', h_flow, k=2, D=4, dts=(q,), Cn2=(0.6, 0.4), L0=[20.0, 20.0]), H('flow_extra', h_flow, D=5, dts=(q, q), extra=0.5),
           H('flow_updown', h_flow, D=5, dts=(q, q), updown=(0.0, 0.5)), H('flow_down', h_flow, D=5, dts=(0, q), updown=(0.25, 0.1)),
           H('proportional', h_proportional), H('independent', h_independent), H('end', h_end), H('size', h_size), H('reject', h_reject),
           H('endless', h_endless, dirs=(0, 90)), H('endless_back', h_endless, dirs=(180, 270)), H('endless_steps', h_endless, steps=3, vmax=1.2),
           H('endless_two', h_endless, k=2, dirs=(0, 90), Cn2=(0.3, 0.7), vmax=0.9), H('endless_seeing', h_endless, seeing=(0.4, 1.0, 0.0), zenith=60.0, vmax=0.9),
           H('endless_extra', h_endless, extra=0.5, pitch=0.5, vmax=0.6)]
    if big:
        out += [H('flow_big', h_flow, n=4, D=8, dts=(0, q, q), budget=200), H('flow_long', h_flow, D=8, dts=(0, q, 2 * q, q), vary=True, budget=400),
                H('endless_long', h_endless, steps=4, dirs=(0, 90, 180, 270), vmax=1.2, budget=300)]
    return out
