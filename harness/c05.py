"""C05: an object runs in a step exactly when one of its inputs was refreshed."""
from engine.common import H
from .util import value, quiet, rejects
from . import zoo

BOUNDS = ('up to 3 inputs of every kind (single, optional, unset, lists of 1-2), generation times and current time any integer '
          'in [-1, 10^6]; runs of up to 4 steps with any refresh pattern; 18 real processing objects over 2 steps')
OUTSIDE = 'inputs arriving from other processes; objects whose only unset input is an optional list'


def make(c, kinds, log):
    from specula.base_processing_obj import BaseProcessingObj
    from specula.base_value import BaseValue
    from specula.connections import InputValue, InputList

    class Obj(BaseProcessingObj):
        def __init__(self):
            super().__init__(target_device_idx=-1, precision=0)
            self.name = 'obj'
            self.out = BaseValue(value=self.xp.zeros(1), target_device_idx=-1)
            self.outputs['out'] = self.out

        def prepare_trigger(self, t):
            super().prepare_trigger(t)
            log.append(('prepare', t))

        def trigger_code(self):
            log.append(('trigger', self.current_time))
            self.out.value[:] = self.out.value + 1
            self.out.generation_time = self.current_time

        def post_trigger(self):
            super().post_trigger()
            log.append(('post', self.current_time))
    o = Obj()
    srcs = []
    for i, k in enumerate(kinds):
        nm = f'in{i}'
        if k.startswith('list'):
            o.inputs[nm] = InputList(type=BaseValue, optional=k.endswith('o'))
            vs = [value(c, c.const([0.0])) for _ in range(int(k[4]))]
            o.inputs[nm].set(vs)
            srcs += vs
        else:
            o.inputs[nm] = InputValue(type=BaseValue, optional=k != 'one')
            if k != 'unset':
                v = value(c, c.const([0.0]))
                o.inputs[nm].set(v)
                srcs.append(v)
    return o, srcs


def h_decision(c, kinds):
    log = []
    o, srcs = make(c, kinds, log)
    t = c.int('t', 0, 10 ** 6)
    g = []
    for i, s in enumerate(srcs):
        s.generation_time = c.int(f'g{i}', -1, 10 ** 6)
        g.append(s.generation_time)
    before = (o.out.value.copy(), o.out.generation_time)
    o.setup()
    from specula.loop_control import LoopControl
    loop = LoopControl()
    loop.add(o, idx=0)
    with quiet():
        loop.start(10, 1)
    loop.t = t
    with quiet():
        loop.iter()
    runs = True if not srcs else c.Or(*[x >= t for x in g])
    if log:
        c.check(runs, 'executes only when refreshed')
        c.check([x[0] for x in log] == ['prepare', 'trigger', 'post'], 'callbacks once each, in order')
        for k, tt in log:
            c.check(tt == t, f'{k} at the current time')
        c.check(o.out.generation_time == t, 'output time stamp')
    else:
        c.check(c.Not(runs), 'executes whenever refreshed')
        c.check(o.out.generation_time == before[1], 'output time untouched')
        c.close(o.out.value, before[0], 'output untouched')


def h_history(c, kinds, n):
    """n consecutive steps, each source refreshed at will in each of them"""
    from specula.loop_control import LoopControl
    log = []
    o, srcs = make(c, kinds, log)
    loop = LoopControl()
    loop.add(o, idx=0)
    dt = c.int('dt', 1, 10 ** 6)
    with quiet():
        loop.start(10, 1)
    loop.dt = dt
    last, count = o.out.generation_time, 0
    for i in range(n):
        t = i * dt
        loop.t = t
        fresh = []
        for j, s in enumerate(srcs):
            f = c.boolean(f'f{i}_{j}')
            s.generation_time = c.ite(f, t, s.generation_time)
            fresh.append(f)
        del log[:]
        with quiet():
            loop.iter()
        ran = c.Or(*fresh) if fresh else True
        if log:
            c.check(ran, f'step {i}: executes only when refreshed')
            c.check([x[0] for x in log] == ['prepare', 'trigger', 'post'], f'step {i}: callbacks once each, in order')
            last, count = t, count + 1
        else:
            c.check(c.Not(ran), f'step {i}: executes whenever refreshed')
        c.check(o.out.generation_time == last, f'step {i}: output time stamp')
        c.close(o.out.value, c.const([float(count)]), f'step {i}: output value')


def h_refused(c, obj=None):
    log = []
    if obj:
        o, ins, kind = zoo.ZOO[obj](c)
        srcs = list(ins.values())
        o.setup()
    else:
        o, srcs = make(c, ['one', 'opt'], log)
    c.check(rejects(o.trigger), 'trigger refused before any ready check')
    c.check(rejects(o.post_trigger), 'post-trigger refused before any ready check')
    t = c.int('t', 0, 10 ** 6)
    for i, s in enumerate(srcs):
        s.generation_time = c.int(f'g{i}', -1, 10 ** 6)
    fresh = c.Or(*[s.generation_time >= t for s in srcs])
    with quiet():
        o.check_ready(t)
    if c.decide(fresh):
        o.trigger()
        o.post_trigger()
        c.check(rejects(o.trigger), 'trigger refused after post-trigger')
        c.check(rejects(o.post_trigger), 'second post-trigger refused')
    else:
        c.check(rejects(o.trigger), 'trigger refused without refreshed inputs')
        c.check(rejects(o.post_trigger), 'post-trigger refused without refreshed inputs')


def snapshot(o, kind):
    return {k: (zoo.payload(v, kind).copy(), v.generation_time) for k, v in o.outputs.items() if hasattr(v, kind)}


def h_real(c, obj):
    """a real object: refreshed first step runs and stamps its outputs; a second step may or may not be refreshed"""
    o, ins, kind = zoo.ZOO[obj](c)
    from specula.loop_control import LoopControl
    loop = LoopControl()
    loop.add(o, idx=0)
    with quiet():
        loop.start(10, 1)
    dt = loop.dt
    for s in ins.values():
        s.generation_time = 0
    with quiet():
        loop.iter()
    for k, v in o.outputs.items():
        c.check(v.generation_time == 0 or obj == 'modalrec' and 'pseudo' in k, f'{k} stamped')
    snap = snapshot(o, kind)
    times = {k: v.generation_time for k, v in o.outputs.items()}
    fresh = False
    for j, s in enumerate(ins.values()):
        s.generation_time = c.int(f'g{j}', -1, 3) * dt
        fresh = c.Or(fresh, s.generation_time >= dt)
    with quiet():
        loop.iter()
    if c.decide(fresh):
        for k, v in o.outputs.items():
            if not (obj == 'modalrec' and 'pseudo' in k):
                c.check(v.generation_time == dt, f'{k} stamped again')
    else:
        for k, (v, g) in snap.items():
            c.close(zoo.payload(o.outputs[k], kind), v, f'{k} keeps its content')
        for k, v in o.outputs.items():
            c.check(v.generation_time == times[k], f'{k} keeps its time')


def h_refused_lift(c):
    from specula.base_processing_obj import BaseProcessingObj
    from specula.processing_objects.lift import Lift
    o = Lift.__new__(Lift)      # the refusal does not depend on the rest of the construction
    BaseProcessingObj.__init__(o, target_device_idx=-1, precision=0)
    o.in_pixels = None
    c.int('unused', 0, 1)
    c.check(rejects(o.trigger, RuntimeError), 'trigger refused before any ready check')


def harnesses(tier):
    hs = []
    combos = [(), ('one',), ('opt',), ('unset',), ('list1',), ('list2',), ('list2o',), ('one', 'one'), ('one', 'opt'), ('one', 'unset'),
              ('unset', 'unset'), ('opt', 'unset'), ('one', 'list2'), ('unset', 'list2'), ('one', 'opt', 'list2'),
              ('one', 'unset', 'one'), ('opt', 'list1o', 'one')]
    for k in combos:
        hs.append(H('decide_' + ('_'.join(k) or 'none'), h_decision, kinds=list(k)))
    n = 3 if tier == 'quick' else 5
    for k in [(), ('one',), ('one', 'opt'), ('list2',), ('unset', 'one')]:
        hs.append(H('history_' + ('_'.join(k) or 'none'), h_history, kinds=list(k), n=n, budget=100))
    hs.append(H('refused', h_refused))
    hs.append(H('refused_lift', h_refused_lift))
    for z in zoo.ZOO:
        hs.append(H('refused_' + z, h_refused, obj=z))
        hs.append(H('real_' + z, h_real, obj=z))
    return hs
