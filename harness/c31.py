"""C31: copies of data objects, in memory and between processes."""
import copy
import types
from engine.common import H
from .util import simul_params, value, quiet, step

BOUNDS = ('every data object kind exchanged by processing objects with arbitrary arrays up to 2x3x3; one write after the copy at any element; '
          'exchanges of up to 4 steps between two processes with every refresh pattern, delayed and not, every way of refreshing a value')
OUTSIDE = 'lists of objects sent between processes (the receiving side reads a single object); GPU transfers; the MPI library itself'
ASSUMPTIONS = ['message passing is replaced by in-order mailboxes that copy what they are given when it is sent, as buffered sends do']


# ------------------------------------------------------------------ kinds
def kinds(c):
    from specula.data_objects.electric_field import ElectricField
    from specula.data_objects.layer import Layer
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.intensity import Intensity
    from specula.data_objects.slopes import Slopes
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.recmat import Recmat
    from specula.data_objects.time_history import TimeHistory
    from specula.data_objects.ifunc import IFunc
    from specula.data_objects.pupdata import PupData
    from specula.data_objects.subap_data import SubapData
    from specula.data_objects.m2c import M2C
    from specula.base_value import BaseValue
    K = dict(target_device_idx=-1, precision=0)
    z = c.xp.zeros
    i3 = lambda: c.xp.zeros((2, 4), dtype=int)
    return {
        'value': (lambda: BaseValue(value=z(3), **K), ('value',)),
        'electric field': (lambda: ElectricField(3, 2, 1.0, S0=1.0, **K), ('field',)),
        'layer': (lambda: Layer(3, 2, 1.0, 0.0, **K), ('field',)),
        'pixels': (lambda: Pixels(3, 2, bits=32, signed=1, **K), ('pixels',)),
        'intensity': (lambda: Intensity(3, 2, **K), ('i',)),
        'slopes': (lambda: Slopes(slopes=z(4), **K), ('slopes',)),
        'interaction matrix': (lambda: Intmat(z((3, 2)), **K), ('intmat',)),
        'reconstruction matrix': (lambda: Recmat(z((2, 3)), **K), ('recmat',)),
        'time history': (lambda: TimeHistory(z((2, 2)), **K), ('time_history',)),
        'influence functions': (lambda: IFunc(ifunc=z((2, 3)), mask=c.xp.asarray([[1.0, 0.0], [1.0, 1.0]]), **K), ('_influence_function',)),
        'pupil data': (lambda: PupData(ind_pup=i3(), radius=z(4), cx=z(4), cy=z(4), framesize=[4, 4], **K), ('ind_pup', 'radius', 'cx', 'cy')),
        'subapertures': (lambda: SubapData(i3(), c.xp.zeros(2, dtype=int), 1, 2, **K), ('idxs',)),
        'modes to commands': (lambda: M2C(z((3, 2)), **K), ('m2c',)),
    }


def fill(c, o, attrs, name):
    out = {}
    for a in attrs:
        v = getattr(o, a)
        ints = v.dtype.kind in 'iu'
        vals = c.arr(name + a.strip('_'), v.shape) if not ints else None
        if ints:
            vals = c.xp.asarray([c.int(f'{name}{a}{i}', 0, 9) for i in range(v.size)]).reshape(v.shape)
        if ints:
            setattr(o, a, vals)
            vals = vals.copy()
        else:
            v[...] = vals
        out[a] = vals
    return out


def each(c, o, want, label):
    for a, v in want.items():
        g = getattr(o, a)
        c.check(tuple(g.shape) == tuple(v.shape), label + ': shape')
        c.close(g, v, label, 1e-6)


def write(c, o, attr):
    v = getattr(o, attr)
    k = c.pickint('where', 0, v.size - 1)
    old = v.reshape(-1)[k]
    v.reshape(-1)[k] = old + 1
    return k


def h_transfer(c, kind, force=False):
    make, attrs = kinds(c)[kind]
    a, b = make(), make()
    va, vb = fill(c, a, attrs, 'a'), fill(c, b, attrs, 'b')
    a.generation_time, b.generation_time = c.int('ta', 0, 9), c.int('tb', 0, 9)
    ta = a.generation_time + 0
    store = {k: getattr(b, k) for k in attrs}
    with quiet():
        a.transferDataTo(b, **({'force_reallocation': True} if force else {}))
    each(c, b, va, 'copy equals its source')
    each(c, a, va, 'source untouched')
    c.check(b.generation_time == ta, 'copy has the time of its source')
    c.check(a.generation_time == ta, 'source keeps its time')
    if not force:
        c.check(all(getattr(b, k) is store[k] for k in attrs), 'the copy keeps its own storage')
    att = attrs[c.pickint('attr', 0, len(attrs) - 1)]
    if c.flag('write the source'):
        write(c, a, att)
        each(c, b, va, 'writing the source does not change the copy')
    else:
        write(c, b, att)
        each(c, a, va, 'writing the copy does not change the source')
    a.generation_time = ta + 1
    c.check(b.generation_time == ta, 'times are independent')


def h_transfer_properties(c):
    """arrays next to ones that cannot be copied in place"""
    from specula.base_data_obj import BaseDataObj

    class Thing(BaseDataObj):
        def __init__(self, v, w):
            super().__init__(target_device_idx=-1, precision=0)
            self.a, self.m, self.z = v
            self.number = w

        @property
        def half(self):
            return self.a / 2
    A = Thing([c.arr(f'a{i}', (2,)) for i in range(3)], 1)
    vals = [A.a.copy(), A.m.copy(), A.z.copy()]
    B = Thing([c.arr(f'b{i}', (2,)) for i in range(3)], 2)
    missing = c.pick('missing', (None, 'a', 'm', 'z'))
    if missing:
        setattr(B, missing, None)
    keep = {k: getattr(B, k) for k in 'amz'}
    with quiet():
        A.transferDataTo(B)
    for k, v in zip('amz', vals):
        c.close(getattr(B, k), v, 'copy equals its source')
        c.check(k == missing or getattr(B, k) is keep[k], 'arrays of the copy keep their storage')
        getattr(A, k)[0] = getattr(A, k)[0] + 1
        c.close(getattr(B, k), v, 'writing the source does not change the copy')


def h_copy(c, kind):
    """a copy for the device the object is already on is the object"""
    make, attrs = kinds(c)[kind]
    a = make()
    va = fill(c, a, attrs, 'a')
    b = a.copyTo(-1)
    each(c, b, va, 'copy equals its source')


def h_set_value(c, kind):
    make, attrs = kinds(c)[kind]
    o = make()
    n = attrs[0]
    fill(c, o, (n,), 'old')
    keep = getattr(o, n)
    src = make()
    v = fill(c, src, (n,), 'new')[n]
    given = getattr(src, n)
    o.set_value(given)
    c.check(getattr(o, n) is keep, 'the receiver keeps its own storage')
    c.close(getattr(o, n), v, 'value set')
    k = c.pickint('where', 0, given.size - 1)
    given.reshape(-1)[k] = given.reshape(-1)[k] + 1
    c.close(getattr(o, n), v, 'later changes of the given array do not show')
    c.close(o.get_value(), v, 'value read back')


def h_value(c, first='vector', second='vector'):
    """values of any kind: arrays, scalars, nothing"""
    from specula.base_value import BaseValue
    K = dict(target_device_idx=-1, precision=0)

    def make(kind, n):
        if kind == 'nothing':
            return BaseValue(**K), None
        if kind == 'scalar':
            x = c.real(n, -9, 9)
            b = BaseValue(**K)
            b.value = x
            return b, x
        x = c.arr(n, (2,))
        return BaseValue(value=x, **K), x
    a, va = make(first, 'a')
    b, _ = make(second, 'b')
    a.generation_time = c.int('t', 0, 9)
    with quiet():
        a.transferDataTo(b)
    if va is None:
        c.check(b.value is None, 'nothing transferred as nothing')
    else:
        c.check(b.value is not None, 'value transferred')
        c.close(b.value, va, 'value transferred')
    c.check(b.generation_time == a.generation_time, 'time transferred')


# ------------------------------------------------------------------ processes
class Mail:
    """in-order mailboxes, one per tag; copies what it is given when it is sent"""
    class Empty(Exception):
        pass

    def __init__(self, c):
        self.c, self.box = c, {}

    def _put(self, tag, kind, v):
        self.box.setdefault(tag, []).append((kind, v))

    def ibsend(self, obj, dest=None, tag=0):
        for k, v in getattr(obj, '__dict__', {}).items():
            if isinstance(v, types.ModuleType):
                raise TypeError(f'cannot pickle module in {k}')
        if hasattr(obj, '__dict__') and not hasattr(obj, 'shape') and hasattr(obj, 'generation_time'):
            new = copy.copy(obj)
            for k, v in vars(obj).items():
                if hasattr(v, 'shape') and hasattr(v, 'copy') and not isinstance(v, type):
                    setattr(new, k, v.copy())
            obj = new
        self._put(tag, 'pickle', obj)

    bsend = send = isend = ibsend

    def Ibsend(self, buf, dest=None, tag=0):
        self._put(tag, 'buffer', self.c.xp.array(buf))

    Bsend = Send = Isend = Ibsend

    def _get(self, tag, kind):
        q = self.box.get(tag, [])
        if not q:
            raise Mail.Empty(f'nothing sent with tag {tag}: the receiver waits forever')
        k, v = q.pop(0)
        if k != kind:
            raise Mail.Empty(f'{k} sent, {kind} expected')
        return v

    def recv(self, source=None, tag=0):
        return self._get(tag, 'pickle')

    def Recv(self, buf, source=None, tag=0):
        v = self._get(tag, 'buffer')
        if tuple(v.shape) != tuple(buf.shape):
            raise Mail.Empty('size of the message')
        buf[...] = v

    def left(self):
        return sum(len(q) for q in self.box.values())


def pair(c, build, delay, remote, mail=None, tags=(11,)):
    """producer and consumers of its output, connected locally or through messages"""
    import specula.base_processing_obj as bpo
    from specula.connections import InputValue

    class Producer(bpo.BaseProcessingObj):
        def __init__(self):
            super().__init__(target_device_idx=-1, precision=0)
            self.outputs['out'] = build()

        def trigger_code(self):
            pass

    class Consumer(bpo.BaseProcessingObj):
        def __init__(self, kind):
            super().__init__(target_device_idx=-1, precision=0)
            self.inputs['in'] = InputValue(type=kind)
            self.ran = []

        def trigger_code(self):
            self.ran.append(self.current_time)
    p = Producer()
    p.name = 'p'
    qs = []
    for t in tags:
        q = Consumer(type(p.outputs['out']))
        q.name = 'q'
        if remote:
            q.inputs['in'].append(None, remote_rank=1, tag=t)
            p.remote_outputs.setdefault('out', []) if not isinstance(p.remote_outputs, dict) else None
            p.addRemoteOutput('out', (0, t, delay))
        else:
            q.inputs['in'].append(p.outputs['out'])
        qs.append(q)
    return p, qs


def refresh(c, o, how, v, t):
    """the ways processing objects publish a new value"""
    n = {'BaseValue': 'value', 'ElectricField': 'field', 'Slopes': 'slopes', 'Pixels': 'pixels', 'Intensity': 'i'}[type(o).__name__]
    cur = getattr(o, n)
    if how == 'assign':
        setattr(o, n, v)
    elif how == 'set' or cur is None:
        o.set_value(v)
    else:
        cur[...] = v
    o.generation_time = t


def read(o):
    v = o.get_value()
    return None if v is None else (v + 0)


def h_processes(c, kind='value', delay=0, steps=3, start='set', how=None, n=1, late=False):
    """a consumer in another process reads at each step what one in the same process reads"""
    import specula.base_processing_obj as bpo
    import specula.connections as con
    from specula.base_value import BaseValue
    K = dict(target_device_idx=-1, precision=0)
    shp = {'value': (2,), 'scalar': (), 'electric field': (2, 2, 3), 'slopes': (4,), 'pixels': (2, 3), 'intensity': (2, 3)}[kind]

    def vals(t):
        return c.real(f'v{t}', -5, 5) if shp == () else c.arr(f'v{t}', shp)

    def build():
        if kind in ('value', 'scalar'):
            b = BaseValue(**K)
            if start == 'set':
                b.value = vals('init')
            return b
        return kinds(c)[kind][0]()
    mail = Mail(c)
    runs = []
    how = how or c.pick('how', ('assign', 'set', 'in place') if kind != 'scalar' else ('assign', 'set'))
    fresh = [(not late or t > 0) and c.flag(f'refresh{t}') for t in range(steps)]
    old = con.process_comm, bpo.process_comm
    try:
        for remote in (False, True):
            con.process_comm = bpo.process_comm = mail if remote else None
            p, qs = pair(c, build, delay, remote, tags=tuple(11 + 7 * k for k in range(n)))
            out = p.outputs['out']
            log = []
            if remote:
                p.send_outputs(skip_delayed=False, first_mpi_send=True)
            p.setup()
            if remote:
                p.send_outputs(delayed_only=True, first_mpi_send=False)
            for q in qs:
                q.setup()

            def produce(t):
                if fresh[t]:
                    refresh(c, out, how, vals(t), t + 1)
                if remote:
                    p.send_outputs(skip_delayed=t == steps - 1, first_mpi_send=False)

            def consume(t):
                for q in qs:
                    q.check_ready(t + 1)
                    li = q.local_inputs['in']
                    log.append((read(li), li.generation_time, q.inputs_changed))
                    if q.inputs_changed:
                        q.trigger()
            for t in range(steps):
                (produce, consume)[delay < 0](t)
                (consume, produce)[delay < 0](t)
            runs.append(log)
            c.check(all([x is not None for x, _, _ in log]) or start != 'set', 'a value is read at each step')
    except Mail.Empty as e:
        c.check(False, f'messages sent and expected agree ({e})')
        return
    finally:
        con.process_comm, bpo.process_comm = old
    for (a, ta, ra), (b, tb, rb) in zip(*runs):
        c.check((a is None) == (b is None), 'the same value is delivered')
        if a is not None:
            c.close(b, a, 'the same value is delivered', 1e-6)
        c.check(ta == tb, 'the same time is delivered')
        c.check(ra == rb, 'the consumer runs at the same steps')
    c.check(mail.left() == 0, 'every message is read')


def harnesses(tier):
    deep = tier == 'thorough'
    names = ('value', 'electric field', 'layer', 'pixels', 'intensity', 'slopes', 'interaction matrix', 'reconstruction matrix', 'time history',
             'influence functions', 'pupil data', 'subapertures', 'modes to commands')
    L = []
    for k in names:
        L += [H(f'transfer: {k}', h_transfer, kind=k), H(f'transfer with new arrays: {k}', h_transfer, kind=k, force=True), H(f'copy: {k}', h_copy, kind=k)]
    L += [H(f'set value: {k}', h_set_value, kind=k) for k in names if k not in ('influence functions', 'subapertures', 'layer')]
    L += [H('arrays that cannot be copied in place', h_transfer_properties)]
    L += [H(f'{a} into {b}', h_value, first=a, second=b) for a in ('vector', 'scalar', 'nothing') for b in ('vector', 'scalar', 'nothing')]
    for d in (0, -1):
        w = 'delayed ' if d else ''
        L += [H(f'{w}messages: {k}', h_processes, kind=k, delay=d, steps=4 if deep else 3)
              for k in ('value', 'scalar', 'electric field', 'slopes', 'pixels', 'intensity')]
        L += [H(f'{w}messages: {k} set later', h_processes, kind=k, delay=d, start='nothing', steps=4) for k in ('value', 'scalar')]
        L += [H(f'{w}messages to two consumers', h_processes, delay=d, n=2, how='in place')]
    return L
