"""C21: signal routing and arithmetic."""
from engine.common import H
from .util import simul_params, value, step, rejects

BOUNDS = ('vectors of 1-5 arbitrary values over 1-2 steps; every operation, constant, padding and remapping option; every slice '
          '(start, stop, step of both signs) and index list within vectors of 4; insertions at arbitrary places; '
          'combinations of 2-4 command vectors')
OUTSIDE = 'longer vectors (the code is uniform in the length)'
T0 = 3


def drive(c, o, ins, out, law, steps=2, post=None):
    """runs o over inputs {name: (size, lo, hi) or list of them}; law(dict of lists) -> wanted values"""
    vals = {}
    for k, spec in ins.items():
        if isinstance(spec, list):
            vals[k] = [value(c, c.arr(f'{k}{i}', *s)) for i, s in enumerate(spec)]
        else:
            vals[k] = value(c, c.arr(k, *spec))
        o.inputs[k].set(vals[k])
    o.setup()
    kept = []
    for n in range(steps):
        cur = {}
        for k, v in vals.items():
            for i, x in enumerate(v if isinstance(v, list) else [v]):
                spec = ins[k][i] if isinstance(v, list) else ins[k]
                x.set_value(c.arr(f'{k}{i}_{n}', *spec))
                x.generation_time = T0 + n
            cur[k] = [list(x.value) for x in v] if isinstance(v, list) else list(v.value)
        step([o], T0 + n)
        want = law(cur)
        for name, w in (want.items() if isinstance(want, dict) else [(out, want)]):
            r = o.outputs[name]
            c.check(r.generation_time == T0 + n, 'the output is marked as of this step')
            c.check(c.xp.size(r.value) == len(w), 'the output has one value per element')
            c.equal(c.xp.atleast_1d(r.value), c.xp.array(w), 'the output follows the declared operation')
        for k, v in vals.items():
            for i, x in enumerate(v if isinstance(v, list) else [v]):
                c.equal(x.value, c.xp.array(cur[k][i] if isinstance(v, list) else cur[k]), 'inputs are left alone')
    # later changes of the inputs do not reach the outputs
    for v in vals.values():
        for x in (v if isinstance(v, list) else [v]):
            x.set_value(x.value + 100)
    want = law(cur)
    for name, w in (want.items() if isinstance(want, dict) else [(out, want)]):
        c.equal(c.xp.atleast_1d(o.outputs[name].value), c.xp.array(w), 'the output does not follow later changes of the inputs')


def op(c, **k):
    from specula.processing_objects.base_operation import BaseOperation
    return BaseOperation(target_device_idx=-1, **k)


OPS = dict(mul=lambda a, b: a * b, div=lambda a, b: a / b, sum=lambda a, b: a + b, sub=lambda a, b: a - b,
           max=lambda a, b: a if a > b else b, min=lambda a, b: a if a < b else b)


def h_constant(c, what='mul', vector=False, n=2):
    k = c.arr('k', n, 0.5, 5) if vector else c.real('k', 0.5, 5)
    if what in ('sum', 'sub', 'max', 'min') and not vector:
        k = c.real('k2', -5, 5)
    o = op(c, **{f'constant_{what}': list(k) if vector else k})
    drive(c, o, {'in_value1': (n, -10, 10)}, 'out_value',
          lambda v: [OPS[what](a, k[i] if vector else k) for i, a in enumerate(v['in_value1'])])


def h_binary(c, what='mul', n=3):
    drive(c, op(c, **{what: True}), {'in_value1': (n, -10, 10), 'in_value2': (n, 0.5, 10)}, 'out_value',
          lambda v: [OPS[what](a, b) for a, b in zip(v['in_value1'], v['in_value2'])])


def h_short(c, what='mul', n=3, m=2):
    neutral = 1 if what == 'div' else 0
    drive(c, op(c, value2_is_shorter=True, **{what: True}), {'in_value1': (n, -10, 10), 'in_value2': (m, 0.5, 10)}, 'out_value',
          lambda v: [OPS[what](a, b) for a, b in zip(v['in_value1'], v['in_value2'] + [neutral] * (n - m))])


def h_remap(c, what='sum', n=3, m=2):
    place = [c.pickint(f'p{i}', 0, n - 1) for i in range(m)]
    c.assume(len(set(place)) == m)
    neutral = 1 if what == 'div' else 0

    def law(v):
        b = [neutral] * n
        for i, p in enumerate(place):
            b[p] = v['in_value2'][i]
        return [OPS[what](x, y) for x, y in zip(v['in_value1'], b)]
    drive(c, op(c, value2_remap=place, **{what: True}), {'in_value1': (n, -10, 10), 'in_value2': (m, 0.5, 10)}, 'out_value', law)


def h_concat(c, n=2, m=3):
    drive(c, op(c, concat=True), {'in_value1': (n, -10, 10), 'in_value2': (m, -10, 10)}, 'out_value',
          lambda v: v['in_value1'] + v['in_value2'])


def h_missing(c):
    for what in ('mul', 'div', 'sum', 'sub', 'concat'):
        o = op(c, **{what: True})
        o.inputs['in_value1'].set(value(c, c.arr('a' + what, 2)))
        c.check(rejects(o.setup), 'a missing second operand is rejected')


def slicer(**k):
    from specula.processing_objects.base_slicer import BaseSlicer
    return BaseSlicer(target_device_idx=-1, **k)


def h_slice(c, n=4, steps=(None, 1, 2, -1, -2)):
    opts = [None] + list(range(-n, n + 1))
    start, stop, stp = c.pick('start', opts), c.pick('stop', opts), c.pick('step', list(steps))
    o = slicer(slice_args=[start, stop, stp])
    drive(c, o, {'in_value': (n, -10, 10)}, 'out_value', lambda v: v['in_value'][slice(start, stop, stp)], steps=1)


def h_slice_short(c, n=5):
    """one and two arguments"""
    a, b = c.pickint('a', 0, n), c.pickint('b', 0, n)
    one = c.flag('one')
    args = [a] if one else [a, b]
    drive(c, slicer(slice_args=args), {'in_value': (n, -10, 10)}, 'out_value', lambda v: v['in_value'][slice(*args)], steps=2)


def h_indices(c, n=4, m=2, negative=False):
    idx = [c.pickint(f'i{k}', -n if negative else 0, n - 1) for k in range(m)]
    drive(c, slicer(indices=idx), {'in_value': (n, -10, 10)}, 'out_value', lambda v: [v['in_value'][i] for i in idx], steps=1)


def h_index(c, n=3):
    i = c.pickint('i', -n, n - 1)
    drive(c, slicer(indices=i), {'in_value': (n, -10, 10)}, 'out_value', lambda v: [v['in_value'][i]])


def h_slice_all(c, n=3):
    drive(c, slicer(), {'in_value': (n, -10, 10)}, 'out_value', lambda v: v['in_value'])


def h_reject(c):
    from specula.processing_objects.base_inserter import BaseInserter
    from specula.processing_objects.mvm import MVM
    from specula.data_objects.recmat import Recmat
    c.check(rejects(lambda: slicer(indices=[0], slice_args=[0, 1])), 'indices and a slice together are rejected')
    c.check(rejects(lambda: BaseInserter(3, indices=[[0], [1]], slice_args=[[0, 1], [0, 1]], target_device_idx=-1)),
            'indices and slices together are rejected when inserting')
    c.check(rejects(lambda: BaseInserter(3, target_device_idx=-1)), 'an insertion without places is rejected')
    o = MVM(Recmat(c.arr('M', (2, 3)), target_device_idx=-1), target_device_idx=-1)
    o.inputs['in_vector'].set(value(c, c.arr('v', 2)))
    c.check(rejects(o.setup), 'a vector that does not fit the matrix is rejected')
    c.check(rejects(lambda: MVM(None, target_device_idx=-1)), 'a missing matrix is rejected')


def inserter(n, **k):
    from specula.processing_objects.base_inserter import BaseInserter
    return BaseInserter(n, target_device_idx=-1, **k)


def h_insert_indices(c, n=4, m=3, pairs=1, k=2):
    src = [[c.pickint(f's{p}{i}', 0, m - 1) for i in range(k)] for p in range(pairs)]
    dst = [[c.pickint(f'd{p}{i}', 0, n - 1) for i in range(k)] for p in range(pairs)]
    flat = [d for q in dst for d in q]
    c.assume(len(set(flat)) == len(flat))
    arg = [[a, b] for a, b in zip(src, dst)]

    def law(v):
        out = [0] * n
        for a, b in zip(src, dst):
            for i, j in zip(a, b):
                out[j] = v['in_value'][i]
        return out
    drive(c, inserter(n, indices=arg if pairs > 1 else arg[0]), {'in_value': (m, -10, 10)}, 'out_value', law, steps=1)


def h_insert_slices(c, n=5, m=3, two=False):
    l = c.pickint('l', 1, m)
    a, b = c.pickint('a', 0, m - 1), c.pickint('b', 0, n - 1)
    c.assume(a + l <= m)
    c.assume(b + l <= n)
    arg = [[[a, a + l], [b, b + l]]]
    if two:
        arg.append([[0, m, 2], [0, n, 3]])

    def law(v):
        out = [0] * n
        for s, d in arg:
            out[slice(*d)] = v['in_value'][slice(*s)]
        return out
    if two:
        c.assume(len(range(0, m, 2)) == len(range(0, n, 3)))
    drive(c, inserter(n, slice_args=arg if two else arg[0]), {'in_value': (m, -10, 10)}, 'out_value', law, steps=2)


def h_mvm(c, m=2, n=3):
    from specula.processing_objects.mvm import MVM
    from specula.data_objects.recmat import Recmat
    M = c.arr('M', (m, n), -3, 3)
    M0 = M.copy()
    drive(c, MVM(Recmat(M, target_device_idx=-1), target_device_idx=-1), {'in_vector': (n, -10, 10)}, 'out_vector',
          lambda v: [sum(M0[i, j] * v['in_vector'][j] for j in range(n)) for i in range(m)])
    c.equal(M, M0, 'the matrix is left alone')


def h_lincomb(c, focus=True, lift=True, ps=None, nl=6):
    """LGS modes with tip-tilt from the NGS loop, focus and LIFT modes"""
    from specula.processing_objects.linear_combination import LinearCombination
    o = LinearCombination(simul_params(), no_focus=not focus, no_lift=not lift, plate_scale_idx=ps, target_device_idx=-1)
    coef = [0, 0, 0]
    if ps is not None:
        pc = c.arr('ps', 3, -2, 2)
        o.ps_coeff = pc
        coef = list(pc)
    sizes = [(nl, -10, 10)] + [(1, -10, 10)] * focus + [(2, -10, 10)] * lift + [(5 if ps is not None else 2, -10, 10)]

    def law(v):
        v = list(v['in_vectors_list'])
        lgs = list(v.pop(0))
        foc = v.pop(0) if focus else None
        lif = v.pop(0) if lift else []
        ngs = v.pop(0)
        lgs[:2] = ngs[:2]
        if focus:
            lgs[2] = foc[0]
        if ps is not None:
            for i in range(3):
                lgs[2 + i] = lgs[2 + i] - ngs[2 + i] * coef[i]
            for i in range(3):
                lgs[ps + i] = ngs[2 + i]
        return lgs + list(lif)
    drive(c, o, {'in_vectors_list': sizes}, 'out_vector', law)


def h_lincomb_reject(c):
    from specula.processing_objects.linear_combination import LinearCombination
    for n in range(1, 6):
        for foc in (False, True):
            for lift in (False, True):
                o = LinearCombination(simul_params(), no_focus=not foc, no_lift=not lift, target_device_idx=-1)
                o.inputs['in_vectors_list'].set([value(c, c.arr(f'v{n}{foc}{lift}{i}', 3)) for i in range(n)])
                c.check(rejects(o.setup) == (n != 2 + foc + lift), 'exactly the needed number of vectors is accepted')


def h_combinator(c, p=2, steps=2):
    """three mirrors: [4, 1, 4] commands, low orders [2, 0, 1], one focus"""
    from specula.processing_objects.mirror_commands_combinator import MirrorCommandsCombinator
    from specula.data_objects.recmat import Recmat
    A = c.arr('A', (9, max(p, 1)), -2, 2)
    k = c.arr('k', 1, -2, 2)
    o = MirrorCommandsCombinator(k, Recmat(A, target_device_idx=-1), dims_LO=[2, 0, 1], dims_P=p, dims_F=1, out_dims=[4, 1, 4],
                                 target_device_idx=-1)

    def law(v):
        ho, lo, f, pp = (v['in_commands' + x] for x in ('HO', 'LO', 'F', 'P'))
        y1 = [lo[0], lo[1], f[0] + k[0] * lo[2], ho[0]]
        if p:
            y1 = [y + sum(A[i, j] * pp[j] for j in range(p)) for i, y in enumerate(y1)]
        return {'out_result_commands1': y1, 'out_result_commands2': [ho[1]],
                'out_result_commands3': [lo[2], ho[2], ho[3], ho[4]]}
    drive(c, o, {'in_commandsHO': (5, -10, 10), 'in_commandsLO': (3, -10, 10), 'in_commandsF': (1, -10, 10),
                 'in_commandsP': (max(p, 1), -10, 10)}, None, law, steps=steps)


def h_platescale(c, m2c=False, start=0):
    """the plate scale coefficient of a mode is its projection on the same mode of the ground mirror"""
    from specula.lib.platescale_coeff import platescale_coeff

    class Dm:
        pass
    mask = c.xp.array([[0, 1, 1, 0], [1, 1, 1, 1], [1, 1, 1, 1], [0, 1, 1, 0]]) * 1.0
    import numpy as np
    # pixels of the central 2x2 region among the 12 valid ones
    ii = [i for i, (y, x) in enumerate(zip(*np.where(np.array([[0, 1, 1, 0], [1, 1, 1, 1], [1, 1, 1, 1], [0, 1, 1, 0]]))))
          if y in (1, 2) and x in (1, 2)]
    base = np.array([[1, 1, -1, -1], [1, -1, 1, -1], [1, -1, -1, 1]]) * 1.0   # zero mean, orthogonal
    a = c.xp.array(np.zeros((5, 12))) + 0.0
    for m in range(3):
        for q, i in enumerate(ii):
            a[2 + m, i] = base[m, q]
    b = c.arr('b', (5, 12), -3, 3)
    d1, d2 = Dm(), Dm()
    for d, f in ((d1, a), (d2, b)):
        d.ifunc, d.mask, d.m2c = f, mask, None
    r = platescale_coeff([d1, d2], [0, start], 2)
    c.check(r.shape == (1, 3), 'one coefficient per mode')
    off = 2 if start == 0 else 0
    for m in range(3):
        v = [b[off + m, i] for i in ii]
        mean = sum(v) / 4
        want = 0 if start > 2 else sum((x - mean) * base[m, q] for q, x in enumerate(v)) / 4
        c.close(r[0, m], want, 'the coefficient is the projection on the ground mode', 1e-6)


def harnesses(tier):
    big = tier == 'thorough'
    out = []
    for w in OPS:
        out.append(H(f'constant_{w}', h_constant, what=w))
        if w not in ('max', 'min'):
            out += [H(f'constant_{w}_vector', h_constant, what=w, vector=True), H(f'binary_{w}', h_binary, what=w),
                    H(f'short_{w}', h_short, what=w), H(f'remap_{w}', h_remap, what=w)]
    out += [H('concat', h_concat), H('concat_1', h_concat, n=1, m=1), H('missing', h_missing), H('slice', h_slice),
            H('slice_short', h_slice_short), H('indices', h_indices), H('indices_negative', h_indices, negative=True, n=3),
            H('index', h_index), H('slice_all', h_slice_all), H('reject', h_reject),
            H('insert_indices', h_insert_indices), H('insert_pairs', h_insert_indices, pairs=2, k=1), H('insert_one', h_insert_indices, k=1),
            H('insert_slices', h_insert_slices), H('insert_slices_2', h_insert_slices, two=True),
            H('mvm', h_mvm), H('mvm_1', h_mvm, m=3, n=1),
            H('lincomb', h_lincomb), H('lincomb_nofocus', h_lincomb, focus=False), H('lincomb_nolift', h_lincomb, lift=False),
            H('lincomb_two', h_lincomb, focus=False, lift=False), H('lincomb_ps', h_lincomb, ps=3), H('lincomb_ps_end', h_lincomb, ps=5, nl=8, focus=False),
            H('lincomb_reject', h_lincomb_reject), H('combinator', h_combinator), H('combinator_p0', h_combinator, p=0),
            H('platescale', h_platescale), H('platescale_start1', h_platescale, start=1), H('platescale_start3', h_platescale, start=3)]
    if big:
        out += [H('slice_5', h_slice, n=5, steps=(None, 1, 2, 3, -1, -2, -3), budget=600, max_paths=3000), H('indices_3', h_indices, m=3, n=4, negative=True, budget=300),
                H('insert_indices_big', h_insert_indices, n=4, m=4, k=3, budget=600, max_paths=3000), H('remap_3', h_remap, n=4, m=3, budget=100)]
    return out
