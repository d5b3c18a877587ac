"""C09: recordings hold every selected sample once, and replay them at their own times."""
import os
import shutil
import tempfile
from engine.common import H
from .util import value, quiet
from . import zoo

BOUNDS = ('4 steps (quick) or 6 (thorough) with any refresh pattern of one or two inputs and arbitrary values; any start and step in '
          'ns with times up to 3*10^12; downsampling 1-3 (global or per input), start time, splitting every 2-3 steps, FITS and '
          'pickle, single and double global precision; recording of every storable data object')
OUTSIDE = 'the file formats themselves (astropy, pickle) are replaced by stand-ins in the symbolic runs; storage is double precision'


def scratch(c):
    return tempfile.mkdtemp(dir=c.tmp)


def make_store(c, d, inputs, **k):
    from specula.processing_objects.data_store import DataStore
    from specula.connections import InputValue
    st = DataStore(store_dir=d, **k)
    for nm, v in inputs.items():
        st.inputs[nm] = InputValue(type=type(v))
        st.inputs[nm].set(v)
    st.setParams({'main': {'class': 'SimulParams'}})
    st.setup()
    return st


def read_back(c, dirs, names, times, fmt):
    """-> name -> list over the directories of [(step, value)], read with DataSource"""
    from specula.processing_objects.data_source import DataSource
    res = {n: [] for n in names}
    for d in dirs:
        for n in names:
            if not os.path.exists(os.path.join(d, f'{n}.{fmt}')):
                res[n].append([])
                continue
            src = DataSource(outputs=[n], store_dir=d, data_format=fmt)
            o = src.outputs[n]
            got = []
            for i, t in enumerate(times):
                before = o.generation_time
                src.check_ready(t)
                src.trigger()
                src.post_trigger()
                if c.decide(o.generation_time == t):
                    v = o.get_value()
                    got.append((i, v.copy() if hasattr(v, 'copy') else v))
                else:
                    c.check(o.generation_time == before, f'{n}: not refreshed at step {i}')
            c.check(len(src.storage[n]) == len(got), f'{n}: every entry has the time of a step')
            res[n].append(got)
    return res


def h_record(c, fmt='fits', steps=4, two=True, down=False, start=False, split=0, late=False, precision=0, kind='value', tmax=None,
             sparse=True):
    import specula
    from specula import base_time_obj
    d = scratch(c)
    prec = base_time_obj.global_precision
    try:
        base_time_obj.global_precision = precision
        ins = {'x': source(c, kind)}
        if two:
            ins['y'] = value(c, c.const([0.0]))
        k = {}
        factor = {n: 1 for n in ins}
        if down == 'all':
            f = c.pickint('factor', 1, 3)
            k['downsample_factor'] = f
            factor = {n: f for n in ins}
        elif down:
            f = c.pickint('factor', 1, 3)
            k['downsample_factor_by_input'] = {'x': f}
            factor['x'] = f
        dt = c.int('dt', 1, tmax or 10 ** 11)
        t0 = c.int('t0', 0, tmax or 10 ** 12)
        times = [t0 + i * dt for i in range(steps)]
        ts = 0
        if start:
            s = c.pickint('startstep', 0, 2)
            ts = times[s]
        st = make_store(c, d, ins, data_format=fmt, split_size=split, create_tn=bool(split), **k)
        if start:
            st.start_time = ts
        want = {n: [] for n in ins}
        count = {n: 0 for n in ins}
        fed = 0
        with quiet():
            for i, t in enumerate(times):
                fresh = False
                for n, v in ins.items():
                    if (sparse or n == 'y') and not c.flag(f'{n}{i}'):
                        continue
                    fresh = True
                    feed(c, v, f'{n}v{i}', t)
                    if start and i < s:
                        continue
                    if count[n] % factor[n] == 0:
                        want[n].append((i, data(v), fed))
                    count[n] += 1
                st.check_ready(t)
                c.check(st.inputs_changed == fresh, 'runs when refreshed')
                if fresh:
                    st.trigger()
                    st.post_trigger()
                    if not (start and i < s):
                        fed += 1
            if late:
                # an object that completes its output in finalize(), at the time of the last step
                st.check_ready(times[-1])
                n = 'y'
                again = want[n] and want[n][-1][0] == steps - 1
                seen = c.decide(ins[n].generation_time == times[-1])
                feed(c, ins[n], 'last', times[-1])
                if again and split and want[n][-1][2] // split < fed // split:
                    pass                    # already written with its chunk
                elif again:
                    want[n][-1] = (steps - 1, data(ins[n]), want[n][-1][2])
                elif not seen:
                    if count[n] % factor[n] == 0:
                        want[n].append((steps - 1, data(ins[n]), fed))
                    count[n] += 1
            st.finalize()
        if split:
            dirs = sorted(os.listdir(d), key=lambda q: int(q.rsplit('_', 1)[1]))
            firsts = [int(q.rsplit('_', 1)[1]) for q in dirs]
            c.check(all(f % split == 0 for f in firsts), 'chunk names')
            dirs = [os.path.join(d, q) for q in dirs]
        else:
            dirs = [d]
        got = read_back(c, dirs, list(ins), times, fmt)
        for n in ins:
            flat = [g for ch in got[n] for g in ch]
            c.check([g[0] for g in flat] == [w[0] for w in want[n]], f'{n}: recorded steps')
            if [g[0] for g in flat] != [w[0] for w in want[n]]:
                continue
            for g, w in zip(flat, want[n]):
                c.close(g[1], w[1], f'{n}: value of step {g[0]}')
            if split and not late:
                for q, f in enumerate(firsts):
                    c.check([g[0] for g in got[n][q]] == [w[0] for w in want[n] if f <= w[2] < f + split], f'{n}: chunk {f}')
    finally:
        base_time_obj.global_precision = prec
        shutil.rmtree(d, ignore_errors=True)


def source(c, kind):
    from specula.data_objects.slopes import Slopes
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.intensity import Intensity
    if kind == 'value':
        return value(c, c.const([0.0, 0.0]))
    if kind == 'scalar':
        return value(c, 0.0)
    if kind == 'ef':
        return zoo.efield(c, 'src', 2, 3)
    if kind == 'layer':
        return zoo.layer(c, 'src', 2, 3)
    if kind == 'slopes':
        return Slopes(length=4, interleave=True, target_device_idx=-1)
    if kind == 'pixels':
        return Pixels(3, 2, bits=16, target_device_idx=-1)
    return Intensity(3, 2, target_device_idx=-1)


def feed(c, v, name, t):
    x = v.get_value()
    if hasattr(x, 'shape') and x.shape != ():
        if type(v).__name__ == 'Pixels':
            v.set_value(c.xp.array([c.int(f'{name}_{i}', 0, 1000) for i in range(6)], dtype=v.pixels.dtype).reshape(2, 3))
        else:
            v.set_value(c.arr(name, x.shape))
    else:
        v.set_value(c.real(name))
    v.generation_time = t


def data(v):
    x = v.get_value()
    return x.copy() if hasattr(x, 'copy') else x


def h_buffer(c, steps=5, size=2):
    from specula.processing_objects.data_buffer import DataBuffer
    from specula.connections import InputValue
    b = DataBuffer(buffer_size=size)
    ins = {'x': value(c, c.const([0.0, 0.0])), 'y': value(c, c.const([0.0]))}
    for n, v in ins.items():
        b.inputs[n] = InputValue(type=type(v))
        b.inputs[n].set(v)
    b.setOutputs()
    b.setup()
    pend = {n: [] for n in ins}
    runs = 0
    with quiet():
        for t in range(steps):
            fresh = False
            for n, v in ins.items():
                if c.flag(f'{n}{t}'):
                    fresh = True
                    feed(c, v, f'{n}v{t}', t)
                    pend[n].append(data(v))
            b.check_ready(t)
            if b.inputs_changed:
                b.trigger()
                b.post_trigger()
                runs += 1
            emit = fresh and runs % size == 0
            for n in ins:
                o = b.outputs[n + '_buffered']
                if emit and pend[n]:
                    c.check(o.generation_time == t, f'{n}: emitted at step {t}')
                    c.check(len(o.value) == len(pend[n]), f'{n}: number of samples at step {t}')
                    for i, w in enumerate(pend[n][:len(o.value)]):
                        c.close(o.value[i], w, f'{n}: sample {i} at step {t}')
                else:
                    c.check(o.generation_time != t, f'{n}: nothing emitted at step {t}')
            if emit:
                pend = {n: [] for n in ins}
        b.finalize()
    for n in ins:
        o = b.outputs[n + '_buffered']
        if pend[n]:
            c.check(len(o.value) == len(pend[n]), f'{n}: samples at the end')
            for i, w in enumerate(pend[n][:len(o.value)]):
                c.close(o.value[i], w, f'{n}: final sample {i}')


def h_simulation(c, steps=3, fmt='fits'):
    """a whole simulation, recorded and replayed from its own replay configuration"""
    from specula.simul import Simul
    from specula.loop_control import LoopControl
    from specula.base_processing_obj import BaseProcessingObj
    d = scratch(c)
    u = c.arr('u', (steps, 2), -3, 3)
    g = c.real('g', 0, 1)
    params = {
        'main': {'class': 'SimulParams', 'root_dir': d, 'time_step': 0.02, 'total_time': 0.02 * steps, 'pixel_pupil': 4,
                 'pixel_pitch': 1.0},
        'th': {'class': 'TimeHistory', 'time_history': u, 'target_device_idx': -1},
        'dist': {'class': 'TimeHistoryGenerator', 'time_hist_ref': 'th', 'target_device_idx': -1},
        'gain': {'class': 'BaseOperation', 'constant_mul': g, 'target_device_idx': -1, 'inputs': {'in_value1': 'dist.output'}},
        'two': {'class': 'BaseOperation', 'sum': True, 'target_device_idx': -1,
                'inputs': {'in_value1': 'gain.out_value', 'in_value2': 'dist.output'}},
        'store': {'class': 'DataStore', 'store_dir': d, 'create_tn': False, 'data_format': fmt,
                  'inputs': {'input_list': ['gg-gain.out_value']}},
    }

    def run(p):
        s = Simul('none.yml')
        order, idx = s.build_trigger_order(p)
        rp = s.build_replay(p) if not s.isReplay(p) else None
        s.build_objects(p)
        s.create_input_list_inputs(p)
        s.connect_objects(p)
        loop = LoopControl()
        for nm, i in zip(order, idx):
            if isinstance(s.objs[nm], BaseProcessingObj):
                loop.add(s.objs[nm], i)
        loop.start(0.02 * steps, 0.02)
        tr = []
        for t in range(steps):
            loop.iter()
            tr.append(s.objs['two'].outputs['out_value'].value.copy() if 'two' in s.objs else None)
        return s, loop, rp, tr
    import copy
    with quiet():
        s, loop, rp, tr = run(copy.deepcopy(params))
        st = s.objs['store']
        st.setParams({})
        st.save_params = lambda: None
        loop.finish()
        ds = [n for n in rp if rp[n]['class'] == 'DataSource']
        c.check(len(ds) == 1, 'one data source')
        rp[ds[0]]['store_dir'] = st.tn_dir
        rp['two'] = copy.deepcopy(params['two'])
        rp['two']['inputs'] = {'in_value1': 'data_source.gg', 'in_value2': 'dist.output'}
        rp['dist'] = copy.deepcopy(params['dist'])
        rp['th'] = copy.deepcopy(params['th'])
        s2, loop2, _, tr2 = run(rp)
    for t in range(steps):
        c.close(tr[t], [g * u[t, 0] + u[t, 0], g * u[t, 1] + u[t, 1]], f'simulated step {t}')
        c.close(tr2[t], tr[t], f'replayed step {t}')
    shutil.rmtree(d, ignore_errors=True)


def harnesses(tier):
    n = 4 if tier == 'quick' else 6
    hs = []
    for fmt in ('fits', 'pickle'):
        hs += [H(f'record_{fmt}', h_record, fmt=fmt, steps=n, budget=150),
               H(f'down_{fmt}', h_record, fmt=fmt, steps=n, down=True, budget=150),
               H(f'start_{fmt}', h_record, fmt=fmt, steps=n, start=True, two=False, budget=150),
               H(f'single_{fmt}', h_record, fmt=fmt, steps=3, two=False, precision=1, budget=150)]
    hs += [H('down_all', h_record, steps=n - 1, down='all', budget=150),
           H('down_start', h_record, steps=n, down='all', start=True, two=False, budget=150),
           H('split2', h_record, steps=n, split=2, budget=150),
           H('split3', h_record, steps=n + 1, split=3, two=False, fmt='pickle', budget=150),
           H('split_down', h_record, steps=n, split=2, down=True, two=False, budget=150),
           H('split_start', h_record, steps=n, split=2, start=True, two=False, budget=150),
           H('late', h_record, steps=3, late=True, down=True, budget=150),
           H('late_all', h_record, steps=3, late=True, down='all', budget=150),
           H('late_split', h_record, steps=3, late=True, split=2, budget=150)]
    for k in ('scalar', 'ef', 'layer', 'slopes', 'pixels', 'intensity'):
        hs += [H(f'kind_{k}_{fmt}', h_record, steps=3, two=False, kind=k, fmt=fmt) for fmt in ('fits', 'pickle')]
    hs += [H('buffer2', h_buffer, steps=n, size=2, budget=150), H('buffer3', h_buffer, steps=n + 1, size=3, budget=150)]
    hs += [H('simulation', h_simulation), H('simulation_pickle', h_simulation, fmt='pickle')]
    return hs
