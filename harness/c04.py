"""C04: current values on ordinary links, the previous step's on delayed ones."""
from engine.common import H
from .util import value, quiet, simul_params
from . import zoo

BOUNDS = ('graphs of 3 objects with 3-4 links, each absent, plain or delayed towards any object, executed for 3 steps with arbitrary '
          'drives and weights; outputs written in the trigger or the post-trigger phase; every object of the zoo between a '
          'source and a delayed reader for 3 steps; a configured closed loop for 4 steps')
OUTSIDE = 'outputs exchanged between processes (C31); delays of more than one step (not supported by the configuration syntax)'


def node_class(c):
    from specula.base_processing_obj import BaseProcessingObj
    from specula.base_value import BaseValue
    from specula.connections import InputValue, InputList

    class Node(BaseProcessingObj):
        """out = drive(t) + sum(weight * input)"""
        def __init__(self, name, slots, drive, weights, init, read_early, write_late):
            super().__init__(target_device_idx=-1, precision=0)
            self.name = name
            self.drive, self.weights = drive, weights
            self.read_early, self.write_late = read_early, write_late
            self.slots = slots
            self.n = -1
            for s in slots:
                self.inputs[s] = InputList(type=BaseValue) if s.startswith('l') else InputValue(type=BaseValue)
            self.out = BaseValue(value=c.const([init]), target_device_idx=-1)
            self.outputs['out'] = self.out
            self.trace = []

        def read(self):
            self.n += 1
            v = self.drive[self.n]
            k = 0
            for s in self.slots:
                if s == 'clk':
                    continue
                ins = self.local_inputs[s]
                for x in (ins if isinstance(ins, list) else [ins]):
                    v = v + self.weights[k] * x.value[0]
                    k += 1
            return v

        def prepare_trigger(self, t):
            super().prepare_trigger(t)
            if self.read_early:
                self.v = self.read()

        def write(self):
            self.out.value[:] = self.v
            self.out.generation_time = self.current_time
            self.trace.append(self.v)

        def trigger_code(self):
            if not self.read_early:
                self.v = self.read()
            if not self.write_late:
                self.write()

        def post_trigger(self):
            super().post_trigger()
            if self.write_late:
                self.write()
    return Node


def execute(s, params, steps, dt=1e-9):
    from specula.loop_control import LoopControl
    order, idx = s.build_trigger_order(params)
    s.create_input_list_inputs(params)
    s.connect_objects(params)
    loop = LoopControl()
    for nm, i in zip(order, idx):
        loop.add(s.objs[nm], i)
    loop.run(steps * dt, dt)
    return order


def h_graph(c, slots, steps=3, early=None, late=None, first=None):
    """slots: per node, tuple of link counts (0: single link input, k: list of k links)"""
    from specula.simul import Simul
    n = len(slots)
    names = [f'o{i}' for i in range(n)]
    opts = [None] + [(j, d) for j in range(n) for d in (0, 1)]
    Node = node_class(c)
    params = {'clk': {'class': 'X'}}
    links = {}
    cnt = 0
    s = Simul('none.yml')
    init = [c.real(f'init{i}', -3, 3) for i in range(n)]
    drive = [[c.real(f'd{i}_{t}', -3, 3) for t in range(steps)] for i in range(n)]
    s.objs['clk'] = Node('clk', [], [0] * steps, [], 0, False, False)
    for i in range(n):
        inp = {'clk': 'clk.out'}
        ln = []
        names_in = ['clk']
        for j, kind in enumerate(slots[i]):
            refs = []
            for q in range(kind or 1):
                if cnt == 0 and first is not None:
                    o = opts[first]
                else:
                    o = c.pick(f's{cnt}', opts)
                cnt += 1
                if o is None:
                    continue
                refs.append(f'o{o[0]}.out' + (':-1' if o[1] else ''))
                ln.append(o)
            if refs:
                nm = f'l{j}' if kind else f'i{j}'
                names_in.append(nm)
                inp[nm] = refs if kind else refs[0]
        links[i] = ln
        params[names[i]] = {'class': 'X', 'inputs': inp}
        w = [c.real(f'w{i}_{k}', -2, 2) for k in range(len(ln))]
        links[i] = list(zip(ln, w))
        s.objs[names[i]] = Node(names[i], names_in, drive[i], w, init[i],
                                bool(early and i in early), bool(late and i in late))
    s.all_objs_ranks = {k: 0 for k in s.objs}
    with quiet():
        try:
            order = execute(s, params, steps)
        except ValueError as e:
            if 'ircular' not in str(e) and 'order' not in str(e):
                raise
            return                                # rejected configuration (C03)
    live = [i for i in range(n) if names[i] in order]
    prev = list(init)
    want = {i: [] for i in live}
    for t in range(steps):
        cur = list(prev)
        done = set()
        todo = list(live)
        while todo:
            i = next((i for i in todo if all(d == 1 or j in done for (j, d), w in links[i])), None)
            if i is None:
                c.check(False, 'accepted configuration has an execution order')
                return
            v = drive[i][t]
            for (j, d), w in links[i]:
                v = v + w * (prev[j] if d else cur[j])
            cur[i] = v
            want[i].append(v)
            done.add(i)
            todo.remove(i)
        prev = cur
    for i in live:
        c.check(len(s.objs[names[i]].trace) == steps, f'{names[i]} executed at every step')
        c.close(s.objs[names[i]].trace, want[i], f'{names[i]} values')


def h_zoo(c, kind, steps=3):
    """source -> object -> delayed and plain readers"""
    from specula.base_processing_obj import BaseProcessingObj
    from specula.simul import Simul
    from specula.connections import InputValue
    obj, ins, what = zoo.ZOO[kind](c)
    arrs = {}
    for k, v in ins.items():
        for a in ('value', 'phaseInNm', 'A', 'slopes', 'pixels', 'i'):
            x = getattr(v, a, None)
            if x is not None and hasattr(x, 'shape') and not callable(x):
                arrs.setdefault(k, []).append((a, x))

    class Src(BaseProcessingObj):
        def __init__(self):
            super().__init__(target_device_idx=-1, precision=0)
            self.name = 'src'
            self.n = 0
            for k, v in ins.items():
                self.outputs[k] = v

        def trigger_code(self):
            for k, v in ins.items():
                for a, x in arrs.get(k, []):
                    if self.n:
                        lo, hi = (0, 1) if a == 'A' else (-3, 3)
                        x[...] = c.arr(f'{k}{a}{self.n}', x.shape, lo, hi)
                v.generation_time = self.current_time
            self.n += 1

    def reader(name):
        class Rd(BaseProcessingObj):
            def __init__(self):
                super().__init__(target_device_idx=-1, precision=0)
                self.name = name
                self.inputs['clk'] = InputValue(type=type(next(iter(ins.values()))))
                self.inputs['x'] = InputValue(type=type(next(iter(obj.outputs.values()))))
                self.trace = []

            def trigger_code(self):
                self.trace.append(snap(self.local_inputs['x']))
        return Rd()

    def snap(o):
        r = []
        for a in ('value', 'phaseInNm', 'A', 'slopes', 'pixels', 'i'):
            x = getattr(o, a, None)
            if x is not None and hasattr(x, 'shape') and not callable(x):
                r.append(x.copy())
        return r
    s = Simul('none.yml')
    src = Src()
    outs = list(obj.outputs)
    rds = {}
    params = {'src': {'class': 'X'}, 'z': {'class': 'X', 'inputs': {k: (f'src.{k}' if k in obj.inputs else None) for k in ins}}}
    if any(v is None for v in params['z']['inputs'].values()):
        nm = next(k for k in obj.inputs)
        params['z']['inputs'] = {nm: [f'src.{k}' for k in ins]}
    clk = f'src.{next(iter(ins))}'
    s.objs = {'src': src, 'z': obj}
    obj.name = 'z'
    for k in obj.inputs:              # rewire through the configuration
        i = obj.inputs[k]
        for a in ('input_values', '_values', 'values'):
            if hasattr(i, a):
                getattr(i, a).clear()
    for o in outs:
        if isinstance(obj.outputs[o], list):
            continue
        for d in (0, 1):
            nm = f'r{d}_{o}'
            rds[nm] = reader(nm)
            rds[nm].inputs['x'] = InputValue(type=type(obj.outputs[o]))
            s.objs[nm] = rds[nm]
            params[nm] = {'class': 'X', 'inputs': {'clk': clk, 'x': f'z.{o}' + (':-1' if d else '')}}
    s.all_objs_ranks = {k: 0 for k in s.objs}
    with quiet():
        order = execute(s, params, steps)
    c.check(order.index('z') > order.index('r1_' + outs[0]), 'delayed reader first')
    for o in outs:
        if isinstance(obj.outputs[o], list):
            continue
        now, late = rds[f'r0_{o}'].trace, rds[f'r1_{o}'].trace
        c.check(len(now) == steps and len(late) == steps, f'{o}: readers run each step')
        for t in range(1, steps):
            for a, b in zip(late[t], now[t - 1]):
                c.close(a, b, f'{o}: delayed reader at step {t} sees step {t - 1}')


def h_loop(c, steps=4, deltacomm=True, delay=0):
    """a closed loop given as a parameter dictionary: residual = disturbance - correction"""
    from specula.simul import Simul
    from specula.data_objects.time_history import TimeHistory
    from specula.loop_control import LoopControl
    u = c.arr('u', (steps, 2), -3, 3)
    g = c.real('g', 0, 1)
    params = {
        'main': {'class': 'SimulParams', 'root_dir': c.tmp, 'time_step': 0.001, 'total_time': 0.001 * steps, 'pixel_pupil': 4,
                 'pixel_pitch': 1.0},
        'ctrl': {'class': 'Integrator', 'simul_params_ref': 'main', 'int_gain': [0.5], 'n_modes': [2], 'delay': delay,
                 'target_device_idx': -1, 'inputs': {'delta_comm': 'gain.out_value'}, 'outputs': ['out_comm']},
        'gain': {'class': 'BaseOperation', 'constant_mul': g, 'target_device_idx': -1, 'inputs': {'in_value1': 'res.out_value'}},
        'res': {'class': 'BaseOperation', 'sub': True, 'target_device_idx': -1,
                'inputs': {'in_value1': 'dist.output', 'in_value2': 'ctrl.out_comm:-1'}},
        'dist': {'class': 'TimeHistoryGenerator', 'time_hist_ref': 'th', 'target_device_idx': -1},
        'th': {'class': 'TimeHistory', 'time_history': u, 'target_device_idx': -1},
    }
    s = Simul('none.yml')
    with quiet():
        s.trigger_order, s.trigger_order_idx = s.build_trigger_order({k: v for k, v in params.items()})
        s.build_objects(params)
        s.create_input_list_inputs(params)
        s.connect_objects(params)
    loop = LoopControl()
    from specula.base_processing_obj import BaseProcessingObj
    for nm, i in zip(s.trigger_order, s.trigger_order_idx):
        if isinstance(s.objs[nm], BaseProcessingObj):
            loop.add(s.objs[nm], i)
    tr = []
    with quiet():
        loop.start(0.001 * steps, 0.001)
        for t in range(steps):
            loop.iter()
            tr.append((s.objs['res'].outputs['out_value'].value.copy(), s.objs['ctrl'].outputs['out_comm'].value.copy()))
    for m in range(2):
        integ = [0.0]
        for t in range(steps):
            seen = integ[max(t - delay, 0)]          # what the loop reads at step t
            r = u[t, m] - seen
            integ.append(integ[-1] + 0.5 * g * r)
            c.close(tr[t][0][m], r, f'residual of mode {m} at step {t}')
            k = max(t + 1 - delay, 0)
            c.close(tr[t][1][m], integ[k], f'command of mode {m} at step {t}')


def harnesses(tier):
    hs = [H(f'graph_{p}', h_graph, budget=100, max_paths=3000, models=6, slots=[(0,), (0,), (2,)], first=p) for p in range(7) if p != 2]
    hs += [H('late', h_graph, budget=100, max_paths=3000, models=6, slots=[(0,), (0,), (0,)], late=(0, 2)),
           H('early', h_graph, budget=100, max_paths=3000, models=6, slots=[(0,), (0,), (0,)], early=(0, 1)),
           H('early_late', h_graph, budget=100, max_paths=3000, models=6, slots=[(0,), (0,), (0,)], early=(0, 1), late=(1, 2))]
    hs += [H(f'loop_d{d}', h_loop, delay=d) for d in (0, 1, 2)]
    for k in zoo.ZOO:
        hs.append(H(f'zoo_{k}', h_zoo, kind=k))
    if tier == 'thorough':
        hs += [H(f'graph4_{p}', h_graph, budget=600, max_paths=20000, models=6, slots=[(0,), (0,), (0,), (2,)], first=p, steps=3)
               for p in range(9) if p != 2]
    return hs
