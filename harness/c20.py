"""C20: modal reconstruction."""
from engine.common import H
from .util import value, step, rejects, quiet

BOUNDS = ('2-4 slopes, 1-3 modes, 1-3 sensors, arbitrary reconstruction, interaction and projection matrices, arbitrary slopes and '
          'commands over 1-3 steps with an arbitrary pattern of refreshed sensors; buffers of 1-3 samples')
OUTSIDE = 'larger matrices'
T0 = 5


def mods():
    from specula.processing_objects.modalrec import Modalrec
    from specula.processing_objects.modalrec_implicit_polc import ModalrecImplicitPolc
    from specula.data_objects.recmat import Recmat
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.slopes import Slopes
    return Modalrec, ModalrecImplicitPolc, Recmat, Intmat, Slopes


def mv(M, v):
    return [sum(M[i, j] * v[j] for j in range(M.shape[1])) for i in range(M.shape[0])]


def slo(c, name, n):
    return mods()[4](slopes=c.arr(name, n, -10, 10), target_device_idx=-1)


def connect(c, o, ss, cmds=None):
    """connects slopes (list -> in_slopes_list) and commands; returns nothing"""
    if isinstance(ss, list):
        o.inputs['in_slopes_list'].set(ss)
    else:
        o.inputs['in_slopes'].set(ss)
    if cmds is not None:
        if isinstance(cmds, list):
            o.inputs['in_commands_list'].set(cmds)
        else:
            o.inputs['in_commands'].set(cmds)


def flat(x, attr):
    x = x if isinstance(x, list) else [x]
    return [v for o in x for v in list(getattr(o, attr))]


def refresh(x, t):
    for o in (x if isinstance(x, list) else [x]):
        o.generation_time = t


def h_plain(c, nm=2, sizes=(4,), steps=2, lst=False):
    Modalrec, _, Recmat, _, _ = mods()
    R = c.arr('R', (nm, sum(sizes)), -3, 3)
    R0 = R.copy()
    o = Modalrec(recmat=Recmat(R, target_device_idx=-1), target_device_idx=-1)
    ss = [slo(c, f's{i}', n) for i, n in enumerate(sizes)]
    ss = ss if lst else ss[0]
    connect(c, o, ss)
    o.setup()
    for k in range(steps):
        for i, s in enumerate(ss if lst else [ss]):
            s.slopes = c.arr(f's{i}_{k}', sizes[i], -10, 10)
        v = flat(ss, 'slopes')
        refresh(ss, T0 + k)
        step([o], T0 + k)
        out = o.outputs['out_modes']
        c.equal(out.value, c.xp.array(mv(R0, v)), 'modes are the matrix times the slopes')
        c.check(out.generation_time == T0 + k, 'modes are marked as of this step')
        c.equal(c.xp.array(flat(ss, 'slopes')), c.xp.array(v), 'slopes are left alone')
    c.equal(R, R0, 'the matrix is left alone')


def h_identity(c, n=3):
    Modalrec = mods()[0]
    o = Modalrec(nmodes=n, identity=True, target_device_idx=-1)
    s = slo(c, 's', n)
    connect(c, o, s)
    o.setup()
    refresh(s, T0)
    step([o], T0)
    c.equal(o.outputs['out_modes'].value, s.slopes, 'the identity returns the slopes')


def h_cut(c, nm=3, ns=2, cut=1, filt=False):
    Modalrec, _, Recmat, _, _ = mods()
    R = c.arr('R', (nm, ns), -3, 3)
    rec = Recmat(R, target_device_idx=-1)
    F = c.arr('F', (ns, ns), -3, 3) if filt else None
    s = slo(c, 's', ns)
    refresh(s, T0)
    for rep in range(2):
        with quiet():
            o = Modalrec(recmat=rec, ncutmodes=cut or None, filtmat=F, target_device_idx=-1)
        connect(c, o, s)
        o.setup()
        step([o], T0)
        want = mv(R, mv(F, s.slopes) if filt else s.slopes)[:nm - cut]
        c.equal(o.outputs['out_modes'].value, c.xp.array(want), f'cut and filtered reconstruction, use {rep}')
    c.check(rec.recmat.shape == (nm, ns), 'the given matrix keeps its modes')


def h_from_intmat(c, ns=3, nm=1, keep=None):
    Modalrec, _, _, Intmat, Slopes = mods()
    D = c.arr('D', (ns, nm), 1, 3)
    if nm > 1:
        for i in range(ns):
            for j in range(nm):
                if i > j:
                    D[i, j] = D[i, j] * 0
    kept = keep or nm
    o = Modalrec(intmat=Intmat(D.copy(), target_device_idx=-1), nmodes=keep, target_device_idx=-1)
    m = c.arr('m', kept, -2, 2)
    s = Slopes(slopes=c.xp.array(mv(D[:, :kept], m)), target_device_idx=-1)
    refresh(s, T0)
    connect(c, o, s)
    o.setup()
    step([o], T0)
    c.close(o.outputs['out_modes'].value, m, 'the modes behind the slopes are recovered', 1e-6)


def polc(c, kind, R, P, D, ncmd):
    Modalrec, Impl, Recmat, Intmat, _ = mods()
    k = dict(recmat=Recmat(R.copy(), target_device_idx=-1), intmat=Intmat(D.copy(), target_device_idx=-1),
             target_device_idx=-1)
    if P is not None:
        k['projmat'] = Recmat(P.copy(), target_device_idx=-1)
    return Modalrec(polc=True, **k) if kind == 'explicit' else Impl(**k)


def h_polc(c, kind='explicit', nm=2, nl=2, ns=2, nsens=1, ncs=1, steps=2, proj=True):
    """nl reconstructed layers' modes projected to nm commands"""
    R = c.arr('R', (nl, ns * nsens), -2, 2)
    P = c.arr('P', (nm, nl), -2, 2) if proj else None
    D = c.arr('D', (ns * nsens, nm), -2, 2)
    o = polc(c, kind, R, P, D, nm)
    ss = [slo(c, f's{i}', ns) for i in range(nsens)]
    ss = ss if nsens > 1 else ss[0]
    per = nm // ncs
    cc = [value(c, c.arr(f'c{i}', per, -3, 3)) for i in range(ncs)]
    cc = cc if ncs > 1 else cc[0]
    connect(c, o, ss, cc)
    o.setup()
    for k in range(steps):
        for i, s in enumerate(ss if nsens > 1 else [ss]):
            s.slopes = c.arr(f's{i}_{k}', ns, -10, 10)
        for i, v in enumerate(cc if ncs > 1 else [cc]):
            v.value = c.arr(f'c{i}_{k}', per, -3, 3)
        s, com = flat(ss, 'slopes'), flat(cc, 'value')
        refresh(ss, T0 + k)
        refresh(cc, T0 + k)
        step([o], T0 + k)
        pol = mv(R, [a + b for a, b in zip(s, mv(D, com))])
        want = [a - b for a, b in zip(mv(P, pol) if proj else pol, com)]
        c.equal(o.outputs['out_modes'].value, c.xp.array(want), 'modes are those of the open loop minus the commands')
        c.check(o.outputs['out_modes'].generation_time == T0 + k, 'modes are marked as of this step')
        if kind == 'explicit':
            c.equal(o.outputs['out_pseudo_ol_modes'].value, c.xp.array(pol), 'open loop modes include the commands')
            c.check(o.outputs['out_pseudo_ol_modes'].generation_time == T0 + k, 'open loop modes are marked as of this step')
        c.equal(c.xp.array(flat(cc, 'value')), c.xp.array(com), 'commands are left alone')
        c.equal(c.xp.array(flat(ss, 'slopes')), c.xp.array(s), 'slopes are left alone')


def h_polc_first(c, kind='explicit'):
    """commands not produced yet count as zero"""
    R, P, D = c.arr('R', (2, 3), -2, 2), c.arr('P', (2, 2), -2, 2), c.arr('D', (3, 2), -2, 2)
    o = polc(c, kind, R, P, D, 2)
    s = slo(c, 's', 3)
    connect(c, o, s, value(c, None))
    o.setup()
    refresh(s, T0)
    step([o], T0)
    c.equal(o.outputs['out_modes'].value, c.xp.array(mv(P, mv(R, s.slopes))), 'missing commands count as zero')


def h_polc_stale(c, kind='explicit', nsens=2, steps=2):
    """a step without fresh slopes leaves the outputs alone, any fresh sensor makes one"""
    R, P, D = c.arr('R', (1, 2 * nsens), -2, 2), c.arr('P', (1, 1), 1, 2), c.arr('D', (2 * nsens, 1), -2, 2)
    o = polc(c, kind, R, P, D, 1)
    ss = [slo(c, f's{i}', 2) for i in range(nsens)]
    cc = value(c, c.arr('c', 1, -3, 3))
    connect(c, o, ss if nsens > 1 else ss[0], cc)
    o.setup()
    last, lastt = o.outputs['out_modes'].value.copy(), o.outputs['out_modes'].generation_time
    for k in range(steps):
        t = T0 + k
        fresh = [c.flag(f'f{i}_{k}') for i in range(nsens)]
        for s, f in zip(ss, fresh):
            if f:
                s.slopes = c.arr(f's{ss.index(s)}_{k}', 2, -10, 10)
                s.generation_time = t
        cc.value = c.arr(f'c_{k}', 1, -3, 3)
        cc.generation_time = t
        step([o], t)
        out = o.outputs['out_modes']
        if any(fresh):
            s, com = flat(ss, 'slopes'), cc.value
            last = c.xp.array([a - b for a, b in zip(mv(P, mv(R, [a + b for a, b in zip(s, mv(D, com))])), com)])
            lastt = t
        c.equal(out.value, last, 'modes of the last step with fresh slopes')
        c.check(out.generation_time == lastt, 'modes carry the time of their slopes')


def h_multirate(c, sizes=(2, 1), nm=2, steps=1):
    from specula.processing_objects.modalrec_multirate import ModalrecMultirate
    Recmat = mods()[2]
    n = len(sizes)
    masks = [[bool(k >> i & 1) for i in range(n)] for k in range(1, 2 ** n)]
    Rs = [c.arr(f'R{k}', (nm, sum(sizes)), -3, 3) for k in range(len(masks))]
    miss = c.pickint('missing', 0, len(masks)) if n > 1 else len(masks)
    use = [k for k in range(len(masks)) if k != miss]
    o = ModalrecMultirate([Recmat(Rs[k], target_device_idx=-1) for k in use], [masks[k] for k in use], nm, target_device_idx=-1)
    ss = [slo(c, f's{i}', m) for i, m in enumerate(sizes)]
    o.inputs['in_slopes_list'].set(ss)
    o.setup()
    last = [[0] * nm for _ in sizes]
    lastt = [o.outputs[f'out_modes_{i}'].generation_time for i in range(n)]
    for k in range(steps):
        t = T0 + k
        fresh = [c.flag(f'f{i}_{k}') for i in range(n)]
        for i, f in enumerate(fresh):
            if f:
                ss[i].slopes = c.arr(f's{i}_{k}', sizes[i], -10, 10)
                ss[i].generation_time = t
        if any(fresh):
            idx = masks.index(fresh)
            if idx == miss:
                c.check(rejects(lambda: step([o], t)), 'an unknown combination of sensors is rejected')
                return
            off = 0
            for i, f in enumerate(fresh):
                last[i] = mv(Rs[idx][:, off:off + sizes[i]], ss[i].slopes) if f else [0] * nm
                lastt[i] = t
                off += sizes[i]
        step([o], t)
        for i in range(n):
            out = o.outputs[f'out_modes_{i}']
            c.equal(out.value, c.xp.array(last[i]), f'modes of sensor {i} come from its own columns of the matching matrix')
            c.check(out.generation_time == lastt[i], f'time of the modes of sensor {i}')


def h_multirate_reject(c):
    from specula.processing_objects.modalrec_multirate import ModalrecMultirate
    Recmat = mods()[2]
    R = Recmat(c.arr('R', (2, 3), -3, 3), target_device_idx=-1)
    mk = lambda rs, ms, n=2: ModalrecMultirate(rs, ms, n, target_device_idx=-1)
    c.check(rejects(lambda: mk([R], [[True]], 3)), 'a wrong number of modes is rejected')
    c.check(rejects(lambda: mk([R, R], [[True, False]])), 'a missing mask is rejected')
    c.check(rejects(lambda: mk([R, R], [[True, False], [True, False]])), 'a repeated mask is rejected')
    c.check(rejects(lambda: mk([R, R], [[True, False], [True]])), 'masks of different lengths are rejected')
    o = mk([R], [[True, True]])
    o.inputs['in_slopes_list'].set([slo(c, 'a', 2), slo(c, 'b', 2)])
    c.check(rejects(o.setup), 'slopes that do not fit the columns are rejected')
    o = mk([R], [[True, True]])
    o.inputs['in_slopes_list'].set([slo(c, 'd', 3)])
    c.check(rejects(o.setup), 'a wrong number of sensors is rejected')


def h_sizes(c):
    """slopes that do not fit the matrices are refused"""
    Modalrec, Impl, Recmat, Intmat, _ = mods()
    R, D = c.arr('R', (2, 3), -3, 3), c.arr('D', (3, 2), -3, 3)
    s = slo(c, 's', 2)
    refresh(s, T0)
    a = Modalrec(recmat=Recmat(R, target_device_idx=-1), target_device_idx=-1)
    connect(c, a, s)
    b = polc(c, 'explicit', R, None, D, 2)
    connect(c, b, s, value(c, c.arr('c', 2)))
    for o in (a, b):
        o.setup()
        c.check(rejects(lambda: step([o], T0)), 'slopes of the wrong length are refused')
    for o in (Modalrec(recmat=Recmat(R, target_device_idx=-1), target_device_idx=-1),
              polc(c, 'explicit', R, None, D, 2)):
        c.check(rejects(o.setup), 'missing slopes are refused')
    o = polc(c, 'explicit', R, None, D, 2)
    connect(c, o, slo(c, 'z', 3))
    c.check(rejects(o.setup), 'missing commands are refused')


def h_buffer(c, size=2, steps=4, n=2):
    from specula.processing_objects.data_buffer import DataBuffer
    o = DataBuffer(buffer_size=size)
    vs = [value(c, c.arr(f'v{i}', 2)) for i in range(n)]
    from specula.connections import InputValue
    from specula.base_value import BaseValue
    for i, v in enumerate(vs):
        o.inputs[f'x{i}'] = InputValue(type=BaseValue)
        o.inputs[f'x{i}'].set(v)
    o.setOutputs()
    o.setup()
    held = [[] for _ in vs]
    count = 0
    last, lastt = [None] * n, [-1] * n
    for k in range(steps):
        t = T0 + k
        fresh = [c.flag(f'f{i}_{k}') for i in range(n)]
        for i, f in enumerate(fresh):
            if f:
                vs[i].set_value(c.arr(f'v{i}_{k}', 2))
                vs[i].generation_time = t
                held[i].append(vs[i].value.copy())
        step([o], t)
        if any(fresh):
            count += 1
        if count == size:
            count = 0
            for i in range(n):
                if held[i]:
                    last[i], lastt[i], held[i] = held[i], t, []
        check_buffer(c, o, last, lastt, n)
    o.finalize()
    for i in range(n):
        if held[i]:
            last[i], lastt[i] = held[i], T0 + steps - 1
    check_buffer(c, o, last, lastt, n, ' after the end')


def check_buffer(c, o, last, lastt, n, when=''):
    for i in range(n):
        b = o.outputs[f'x{i}_buffered']
        c.check(b.generation_time == lastt[i], f'buffer {i} is emitted when full{when}')
        if last[i] is not None:
            c.check(b.value.shape == (len(last[i]), 2), f'buffer {i} holds every sample{when}')
            for a, w in zip(b.value, last[i]):
                c.equal(a, w, f'buffer {i} keeps the samples in order{when}')


def harnesses(tier):
    big = tier == 'thorough'
    out = [H('plain', h_plain), H('plain_1', h_plain, nm=1, sizes=(2,), steps=3), H('plain_3', h_plain, nm=3, sizes=(4,), steps=1),
           H('list', h_plain, lst=True, sizes=(2, 1)), H('list_3', h_plain, lst=True, sizes=(1, 2, 1), steps=1),
           H('identity', h_identity),
           H('cut', h_cut), H('filter', h_cut, cut=0, filt=True), H('cut_filter', h_cut, filt=True, cut=2),
           H('from_intmat', h_from_intmat), H('from_intmat_2', h_from_intmat, ns=2, nm=2),
           H('from_intmat_keep', h_from_intmat, ns=3, nm=2, keep=1)]
    for kind in ('explicit', 'implicit'):
        out += [H(f'{kind}', h_polc, kind=kind), H(f'{kind}_wide', h_polc, kind=kind, nm=2, nl=3, ns=4, steps=1),
                H(f'{kind}_lists', h_polc, kind=kind, nm=2, nl=1, ns=1, nsens=2, ncs=2),
                H(f'{kind}_list_commands', h_polc, kind=kind, nm=3, nl=1, ns=2, ncs=3, steps=1),
                H(f'{kind}_first', h_polc_first, kind=kind), H(f'{kind}_stale', h_polc_stale, kind=kind),
                H(f'{kind}_stale_one', h_polc_stale, kind=kind, nsens=1, steps=3)]
    out += [H('explicit_noproj', h_polc, proj=False), H('explicit_noproj_lists', h_polc, proj=False, nsens=2, ncs=2, ns=1),
            H('multirate', h_multirate), H('multirate_steps', h_multirate, sizes=(1, 2), nm=1, steps=2),
            H('multirate_3', h_multirate, sizes=(1, 1, 1), nm=1), H('multirate_one', h_multirate, sizes=(2,), steps=2),
            H('multirate_reject', h_multirate_reject), H('sizes', h_sizes),
            H('buffer', h_buffer, steps=3), H('buffer_1', h_buffer, size=1, steps=2), H('buffer_3', h_buffer, size=3, steps=5, n=1)]
    if big:
        out += [H('plain_big', h_plain, nm=4, sizes=(3, 2, 3), lst=True, steps=3, budget=200),
                H('explicit_steps', h_polc, steps=4, nl=3, ns=3, budget=200), H('implicit_steps', h_polc, kind='implicit', steps=4, nl=3, ns=3, budget=200),
                H('stale_3', h_polc_stale, nsens=3, steps=2, budget=200), H('stale_3_implicit', h_polc_stale, kind='implicit', nsens=3, steps=2, budget=200),
                H('multirate_long', h_multirate, sizes=(2, 1), nm=2, steps=3, budget=300), H('buffer_long', h_buffer, steps=5, budget=300),
                H('from_intmat_big', h_from_intmat, ns=3, nm=2, budget=200)]
    return out
