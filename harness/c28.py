"""C28: push-pull calibration."""
import math
import os
from engine.common import H
from .util import value, step, quiet, rejects

BOUNDS = ('2-4 modes, 1-3 slopes, 1-2 sensors, arbitrary linear responses, amplitudes of either sign, offsets; every mode order over 3-5 steps; '
          'command sequences of up to 5 modes, patterns of 1-3 pokes, 1-3 cycles, 1-2 samples, every first mode')
OUTSIDE = 'several modes poked in the same step; the linear=True and min_amplitude options of modal_pushpull_signal (no object uses them)'
ASSUMPTIONS = ['FITS files are replaced by a store that keeps header and data in the symbolic runs; calibration is done in double precision']
NS = 10 ** 9


def slopes(c, n):
    from specula.data_objects.slopes import Slopes
    return Slopes(slopes=c.xp.zeros(n), target_device_idx=-1, precision=0)


def calibrator(c, nmodes, s, cmd, first=0, tag='im', **k):
    from specula.processing_objects.im_calibrator import ImCalibrator
    o = ImCalibrator(nmodes=nmodes, data_dir=os.path.join(str(c.tmp), 'cal'), im_tag=tag, first_mode=first, target_device_idx=-1, precision=0, **k)
    o.inputs['in_slopes'].set(s)
    o.inputs['in_commands'].set(cmd)
    o.setup()
    return o


def multi(c, nmodes, ss, cmds, full='full'):
    from specula.processing_objects.multi_im_calibrator import MultiImCalibrator
    o = MultiImCalibrator(nmodes=nmodes, n_inputs=len(ss), data_dir=os.path.join(str(c.tmp), 'cal'), im_tag=[f'im{i}' for i in range(len(ss))],
                          full_im_tag=full, target_device_idx=-1, precision=0)
    o.inputs['in_slopes_list'].set(ss)
    o.inputs['in_commands_list'].set(cmds)
    o.setup()
    return o


def poke(c, cmd, R, sl, mode, amp, t, off=None):
    v = c.xp.zeros(cmd.value.shape[0])
    if mode is not None:
        v[mode] = amp
    cmd.value = v
    cmd.generation_time = t
    for r, s in zip(R, sl):
        y = c.xp.zeros(s.slopes.shape[0])
        for i in range(len(y)):
            y[i] = r[i, mode] * amp if mode is not None else 0.0
        s.slopes = y if off is None else y + off
        s.generation_time = t


def nonzero(c, name):
    a = c.real(name, -3, 3)
    c.assume(c.Or(a >= 0.1, a <= -0.1))
    return a


def h_history(c, nmodes=2, total=None, first=0, ns=2, steps=3):
    """any order of pokes with any amplitudes, idle steps included"""
    total = total or nmodes
    R = c.arr('R', (ns, total), -3, 3)
    s, cmd = slopes(c, ns), value(c, c.xp.zeros(total), precision=0)
    o = calibrator(c, nmodes, s, cmd, first)
    seen = set()
    for t in range(steps):
        m = c.pickint(f'm{t}', -1, total - 1)
        m = None if m < 0 else m
        poke(c, cmd, [R], [s], m, nonzero(c, f'a{t}'), t + 1)
        step([o], t + 1)
        if m is not None:
            seen.add(m)
        out = o.outputs['out_intmat']
        c.check(out.generation_time == t + 1, 'the matrix is marked as of this step')
    o.finalize()
    out = o.outputs['out_intmat']
    c.check(out.intmat.shape == (ns, nmodes), 'one column per mode, one row per slope')
    for k in range(nmodes):
        want = R[:, k + first] if k + first in seen else 0 * R[:, 0]
        c.close(out.intmat[:, k], want, 'response of the mode, and nothing else', 1e-4)
    from specula.data_objects.intmat import Intmat
    back = Intmat.restore(o.im_path, target_device_idx=-1)
    c.close(back.intmat, out.intmat, 'the saved matrix is the one computed', 1e-4)


def h_offset(c, ns=2, nmodes=2):
    """push-pull cancels a constant"""
    R, off = c.arr('R', (ns, nmodes), -3, 3), c.arr('off', ns, -3, 3)
    s, cmd = slopes(c, ns), value(c, c.xp.zeros(nmodes), precision=0)
    o = calibrator(c, nmodes, s, cmd)
    t = 0
    for m in range(nmodes):
        a = nonzero(c, f'a{m}')
        for g in (1, -1):
            t += 1
            poke(c, cmd, [R], [s], m, a * g, t, off)
            step([o], t)
    o.finalize()
    c.close(o.outputs['out_intmat'].intmat, R, 'push and pull cancel a constant', 1e-3)


def h_average(c, ns=1, k=3):
    """all pokes of a mode count alike"""
    s, cmd = slopes(c, ns), value(c, c.xp.zeros(2), precision=0)
    o = calibrator(c, 2, s, cmd)
    tot = 0
    for t in range(k):
        y, a = c.arr(f'y{t}', ns, -3, 3), nonzero(c, f'a{t}')
        v = c.xp.zeros(2)
        v[1] = a
        cmd.value, cmd.generation_time = v, t + 1
        s.slopes, s.generation_time = y, t + 1
        tot = tot + y / a
        step([o], t + 1)
        c.close(o.outputs['out_single_im'][1].modes[0], tot, 'contribution of the mode so far', 1e-3)
        c.close(o.outputs['out_single_im'][0].modes[0], 0 * tot, 'no contribution of the other mode', 1e-3)
    o.finalize()
    c.close(o.outputs['out_intmat'].intmat[:, 1], tot / k, 'average of the slopes per unit of command', 1e-3)


def h_stale(c, many=False):
    """commands without refreshed slopes are not a measurement"""
    R = c.arr('R', (2, 2), -3, 3)
    s, cmd = slopes(c, 2), value(c, c.xp.zeros(2), precision=0)
    o = multi(c, 2, [s], [cmd]) if many else calibrator(c, 2, s, cmd)
    poke(c, cmd, [R], [s], 0, nonzero(c, 'a0'), 1)
    step([o], 1)
    v = c.xp.zeros(2)
    v[1] = nonzero(c, 'a1')
    cmd.value, cmd.generation_time = v, 2
    step([o], 2)
    o.finalize()
    im = (o.outputs['out_intmat_list'][0] if many else o.outputs['out_intmat']).intmat
    c.close(im[:, 0], R[:, 0], 'response of the measured mode', 1e-4)
    c.close(im[:, 1], 0 * R[:, 0], 'slopes of another step are not a response', 1e-4)


def h_multi(c, nmodes=2, ns=(2, 1), steps=3, ncmd=1):
    R = [c.arr(f'R{i}', (n, nmodes), -3, 3) for i, n in enumerate(ns)]
    ss, cmd = [slopes(c, n) for n in ns], value(c, c.xp.zeros(nmodes), precision=0)
    idle = [value(c, c.xp.zeros(nmodes), precision=0) for _ in range(ncmd - 1)]
    o = multi(c, nmodes, ss, [cmd] + idle)
    seen = set()
    for t in range(steps):
        m = c.pickint(f'm{t}', -1, nmodes - 1)
        m = None if m < 0 else m
        poke(c, cmd, R, ss, m, nonzero(c, f'a{t}'), t + 1)
        step([o], t + 1)
        seen.add(m)
    o.finalize()
    from specula.data_objects.intmat import Intmat
    ims = o.outputs['out_intmat_list']
    want = []
    for i, n in enumerate(ns):
        c.check(ims[i].intmat.shape == (n, nmodes), 'one matrix per sensor')
        for k in range(nmodes):
            c.close(ims[i].intmat[:, k], R[i][:, k] if k in seen else 0 * R[i][:, 0], 'response of this sensor to this mode', 1e-4)
        c.close(Intmat.restore(os.path.join(str(c.tmp), 'cal', f'im{i}.fits'), target_device_idx=-1).intmat, ims[i].intmat, 'saved per sensor', 1e-4)
    full = o.outputs['out_intmat_full'].intmat
    c.check(full.shape == (sum(ns), nmodes), 'all sensors, one after the other')
    c.close(full, c.xp.vstack([im.intmat for im in ims]), 'in the order of the sensors', 1e-4)
    c.close(Intmat.restore(os.path.join(str(c.tmp), 'cal', 'full.fits'), target_device_idx=-1).intmat, full, 'saved together', 1e-4)


def degree(j):
    """radial degree of Zernike mode j (Noll, from 1)"""
    n = 0
    while j > (n + 1) * (n + 2) // 2:
        n += 1
    return n


def wanted(nmodes, first, amps, pattern, ncycles, nsamples, inner, full):
    """(mode, amplitude) per step"""
    seq = []
    for _ in range(ncycles if full else 1):
        for m in range(first, nmodes):
            loc = 1 if full else ncycles
            p = [x for x in pattern for _ in range(loc)] if inner and not full else list(pattern) * loc
            seq += [(m, amps[m - first] * x) for x in p]
    return [x for x in seq for _ in range(nsamples)]


def h_sequence(c, nmodes=3, first=0, kind='PUSHPULL', amp='amp', pattern=(1, -1), **k):
    from specula.processing_objects.push_pull_generator import PushPullGenerator
    a = {}
    if amp == 'vector':
        amps = [c.real(f'a{i}', -3, 3) for i in range(first, nmodes)]
        a['vect_amplitude'] = c.xp.array(amps) if c.symbolic else amps
    else:
        v = a['amp'] = c.real('amp', -3, 3)
        amps = [v if amp == 'constant' else v / math.sqrt(degree(i + 2)) for i in range(first, nmodes)]
        a['constant_amp'] = amp == 'constant'
    if kind == 'PUSHPULL':
        a['pattern'] = list(pattern)
    o = PushPullGenerator(nmodes, first_mode=first, push_pull_type=kind, target_device_idx=-1, precision=0, **a, **k)
    o.setup()
    seq = wanted(nmodes, first, amps, pattern if kind == 'PUSHPULL' else [1], k.get('ncycles', 1), k.get('nsamples', 1),
                 k.get('repeat_ncycles'), k.get('repeat_full_sequence'))
    c.check(o.time_hist.shape == (len(seq), nmodes), 'length of the sequence')
    for t, (m, v) in enumerate(seq):
        step([o], t)
        out = o.outputs['output']
        c.check(out.generation_time == t, 'marked as of this step')
        for i in range(nmodes):
            c.close(out.value[i], v if i == m else 0.0, 'one mode at a time, with its amplitude', 1e-5)


def h_whole(c, nmodes=3, first=0, ns=2, **k):
    """generator, linear sensor and calibrator together"""
    from specula.processing_objects.push_pull_generator import PushPullGenerator
    amps = [nonzero(c, f'a{i}') for i in range(first, nmodes)]
    g = PushPullGenerator(nmodes, first_mode=first, vect_amplitude=c.xp.array(amps), target_device_idx=-1, precision=0, **k)
    R = c.arr('R', (ns, nmodes), -3, 3)
    s = slopes(c, ns)
    o = calibrator(c, nmodes - first, s, g.outputs['output'], first)
    g.setup()
    for t in range(g.time_hist.shape[0]):
        step([g], t + 1)
        s.slopes = R @ g.outputs['output'].value
        s.generation_time = t + 1
        step([o], t + 1)
    o.finalize()
    c.close(o.outputs['out_intmat'].intmat, R[:, first:], 'the calibrated matrix is the response', 1e-3)


def h_build(c, nmodes=2, ns=2, steps=3):
    """matrix from recorded slopes and commands"""
    from specula.data_objects.intmat import Intmat
    R = c.arr('R', (ns, nmodes), -3, 3)
    sl, di, seen = {}, {}, set()
    for t in range(steps):
        m, a = c.pickint(f'm{t}', 0, nmodes - 1), nonzero(c, f'a{t}')
        v = c.xp.zeros(nmodes)
        v[m] = a
        di[t], sl[t] = v, R[:, m] * a
        seen.add(m)
    im = Intmat.build_from_slopes(sl, di, target_device_idx=-1)
    for k in range(nmodes):
        c.close(im.intmat[:, k], R[:, k] if k in seen else 0 * R[:, 0], 'response of the mode', 1e-4)


def h_null(c, ns=2, steps=3):
    """slope null: the average of all slopes seen"""
    from specula.processing_objects.sn_calibrator import SnCalibrator
    from specula.data_objects.slopes import Slopes
    s = slopes(c, ns)
    o = SnCalibrator(data_dir=os.path.join(str(c.tmp), 'cal'), output_tag='null', target_device_idx=-1, precision=0)
    o.inputs['in_slopes'].set(s)
    o.setup()
    ys = []
    for t in range(steps):
        y = c.arr(f'y{t}', ns, -3, 3)
        # the sensor rewrites its own storage
        s.slopes[:] = y
        ys.append(y)
        s.generation_time = t + 1
        step([o], t + 1)
    o.finalize()
    back = Slopes.restore(os.path.join(str(c.tmp), 'cal', 'null.fits'), target_device_idx=-1)
    c.close(back.slopes, sum(ys) / steps, 'average of the slopes', 1e-4)


def h_existing(c):
    """existing files are kept unless overwriting is asked for"""
    s, cmd = slopes(c, 2), value(c, c.xp.zeros(2), precision=0)
    R = c.arr('R', (2, 2), -3, 3)
    o = calibrator(c, 2, s, cmd)
    poke(c, cmd, [R], [s], 0, 1.0, 1)
    step([o], 1)
    o.finalize()
    c.check(rejects(lambda: calibrator(c, 2, s, cmd), FileExistsError), 'an existing matrix is not overwritten')
    o = calibrator(c, 2, s, cmd, overwrite=True)
    poke(c, cmd, [R], [s], 1, 1.0, 2)
    step([o], 2)
    o.finalize()
    from specula.data_objects.intmat import Intmat
    c.close(Intmat.restore(o.im_path, target_device_idx=-1).intmat[:, 1], R[:, 1], 'overwritten on request', 1e-4)


def h_reject(c):
    from specula.processing_objects.push_pull_generator import PushPullGenerator as P
    c.check(rejects(lambda: P(3, target_device_idx=-1), ValueError), 'no amplitude is rejected')
    c.check(rejects(lambda: P(3, push_pull_type='PUSH', amp=1.0, nsamples=2, target_device_idx=-1), ValueError), 'samples without push-pull are rejected')
    c.check(rejects(lambda: P(3, push_pull_type='PULL', amp=1.0, target_device_idx=-1), ValueError), 'an unknown type is rejected')
    s, cmd = slopes(c, 2), value(c, c.xp.zeros(2), precision=0)
    def bad():
        from specula.processing_objects.multi_im_calibrator import MultiImCalibrator
        o = MultiImCalibrator(nmodes=2, n_inputs=2, data_dir=str(c.tmp), im_tag=['a', 'b'], target_device_idx=-1)
        o.inputs['in_slopes_list'].set([s])
        o.inputs['in_commands_list'].set([cmd])
        o.setup()
    c.check(rejects(bad, ValueError), 'a wrong number of sensors is rejected')


def harnesses(tier):
    T = tier == 'thorough'
    r = [H('history', h_history, budget=120),
         H('history, three modes', h_history, nmodes=3, ns=1, steps=3, budget=120),
         H('history, first mode 1', h_history, nmodes=2, total=4, first=1, ns=1, steps=3, budget=180),
         H('history, first mode 2', h_history, nmodes=2, total=4, first=2, ns=2, steps=2, budget=120),
         H('constant offset', h_offset, budget=60),
         H('average', h_average, budget=60),
         H('average of one', h_average, k=1, ns=2, budget=60),
         H('stale slopes', h_stale, budget=60),
         H('stale slopes, several sensors', h_stale, many=True, budget=60),
         H('several sensors', h_multi, budget=120),
         H('several sensors and commands', h_multi, ns=(1, 2), steps=2, ncmd=2, budget=120),
         H('recorded slopes', h_build, budget=90),
         H('slope null', h_null),
         H('existing files', h_existing),
         H('requests that make no sense', h_reject)]
    if T:
        r += [H('history, 5 steps', h_history, nmodes=2, ns=2, steps=5, budget=300, max_paths=5000),
              H('history, 4 of 4 modes', h_history, nmodes=4, ns=1, steps=4, budget=300, max_paths=5000),
              H('three sensors', h_multi, ns=(1, 2, 1), steps=3, budget=240)]
    for n, f in [(2, 0), (3, 0), (3, 1), (3, 2), (5, 0), (5, 3)]:
        for amp in ('amp', 'constant', 'vector'):
            r.append(H(f'sequence n={n} first={f} {amp}', h_sequence, nmodes=n, first=f, amp=amp))
    for k in [dict(ncycles=2), dict(ncycles=3, nsamples=2), dict(ncycles=2, repeat_ncycles=True), dict(ncycles=2, repeat_full_sequence=True),
              dict(ncycles=2, repeat_ncycles=True, repeat_full_sequence=True), dict(ncycles=2, nsamples=2, repeat_ncycles=True),
              dict(nsamples=2, pattern=(1, -1, 0.5)), dict(ncycles=2, pattern=(0.5, -1, -2), repeat_ncycles=True), dict(kind='PUSH', ncycles=2),
              dict(kind='PUSH'), dict(kind='push', ncycles=2, repeat_full_sequence=True), dict(pattern=(2,))]:
        for f in (0, 1):
            r.append(H(f'sequence {k} first={f}', h_sequence, first=f, **k))
    for k in [dict(), dict(first=1), dict(ncycles=2), dict(ncycles=2, repeat_full_sequence=True), dict(ncycles=2, nsamples=2, repeat_ncycles=True)]:
        r.append(H(f'calibration {k}', h_whole, budget=90, **k))
    return r
