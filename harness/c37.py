"""C37: objects are built from exactly the parameters of their section."""
import itertools
import sys
import types
import typing
from engine.common import H
from .util import quiet, rejects

BOUNDS = ('3 sections of user classes before or after the main one, in each of their orders, with every acyclic choice of references (single, list, dictionary); '
          'arbitrary parameter values; tagged and restored data objects (arrays of 2 elements with arbitrary content); every kind of invalid section; '
          'every class of the package; every placement of 3 sections on 2 processes')
OUTSIDE = 'PupData sections (the class has a module name of its own and is only loaded through parameters); circular references; the constructors of the individual classes (covered by the other properties); devices'
ASSUMPTIONS = ['FITS files return what was stored in them (in-memory stand-in; concrete replays use real files)']


def probe():
    from specula.base_processing_obj import BaseProcessingObj
    from specula.data_objects.m2c import M2C
    from specula.data_objects.recmat import Recmat
    from specula.data_objects.slopes import Slopes
    from specula.data_objects.simul_params import SimulParams
    built = []

    class Probe(BaseProcessingObj):
        def __init__(self, simul_params: SimulParams = None, number: float = 7.0, other=None, items_list: list = None, items_dict: dict = None,
                     m2c: M2C = None, recmat: typing.Optional[Recmat] = None, slopes_list: list[Slopes] = None,
                     recs_dict: dict[str, Recmat] = None, table=None, untyped=None, params_dict=None, input_ref_getter=None,
                     output_ref_getter=None, info_getter=None, target_device_idx=None, precision=None):
            super().__init__(target_device_idx=target_device_idx, precision=precision)
            self.got = {k: v for k, v in locals().items() if k not in ('self', '__class__')}
            built.append(self)

    class Probe2(Probe):
        def __init__(self, simul_params, number, other=None, extra=5, outputs=(), target_device_idx=None, precision=None):
            super().__init__(simul_params=simul_params, number=number, other=other, target_device_idx=target_device_idx, precision=precision)
            self.extra = extra
            self.outs = outputs
    top, sub, sub2 = types.ModuleType('verifmods'), types.ModuleType('verifmods.probe'), types.ModuleType('verifmods.probe2')
    sub.Probe, sub2.Probe2 = Probe, Probe2
    top.__path__ = []
    sys.modules['verifmods'], sys.modules['verifmods.probe'], sys.modules['verifmods.probe2'] = top, sub, sub2
    return Probe, built


def main(c):
    return {'class': 'SimulParams', 'root_dir': c.tmp, 'add_modules': ['verifmods'], 'time_step': 0.001, 'pixel_pupil': 8, 'pixel_pitch': 0.5}


def build(params, **k):
    from specula.simul import Simul
    s = Simul('none.yml')
    with quiet():
        s.build_objects(params)
    return s


DEFAULTS = dict(simul_params=None, number=7.0, other=None, items_list=None, items_dict=None, m2c=None, recmat=None, slopes_list=None,
                recs_dict=None, table=None, untyped=None)


def h_refs(c, kinds):
    """every section becomes one object, whatever the order of the sections; references are those objects"""
    P, built = probe()
    names = ['a', 'b', 'd']
    params = {'main': main(c)}
    want = {}
    body = {}
    for i, n in enumerate(names):
        p = {'class': 'Probe', 'number': c.real('x' + n, -5, 5)}
        w = dict(DEFAULTS, number=p['number'])
        if i == 0 and c.flag('sp' + n):
            p['simul_params_ref'] = 'main'
            w['simul_params'] = 'main'
        k = kinds[i]
        older = ['main'] + names[:i]
        if k == 'one':
            t = older[c.pickint('t' + n, 0, i)]
            p['other_ref'] = t
            w['other'] = t
        elif k in ('list', 'dict'):
            t = [x for x in older if c.flag(f't{n}{x}')]
            if c.flag('rev' + n):
                t = t[::-1]
            p[f'items_{k}_ref'] = list(t)
            w[f'items_{k}'] = t if k == 'list' else {x: x for x in t}
        body[n], want[n] = p, w
    perms = list(itertools.permutations(names))
    k = c.pickint('order', 0, len(perms) - 1)
    params = {}
    pos = 3 * c.pickint('main', 0, 1)
    for i, n in enumerate(perms[k]):
        if i == pos:
            params['main'] = main(c)
        params[n] = body[n]
    params.setdefault('main', main(c))
    s = build(params)
    c.check(sorted(s.objs) == sorted(params), 'one object per section')
    c.check(len(built) == 3 and all(any(s.objs[n] is b for b in built) for n in names), 'each section is built once')
    for n in names:
        o = s.objs[n]
        c.check(type(o) is P and o.name == n, 'of the class of its section, with its name')
        for q, v in want[n].items():
            g = o.got[q]
            if q in ('simul_params', 'other'):
                c.check((g is None) if v is None else g is s.objs[v], f'{q}: the referenced object')
            elif q == 'items_list' and v is not None:
                c.check(len(g) == len(v) and all(x is s.objs[y] for x, y in zip(g, v)), 'items_list: the referenced objects in order')
            elif q == 'items_dict' and v is not None:
                c.check(set(g) == set(v) and all(g[x] is s.objs[x] for x in v), 'items_dict: the referenced objects by name')
            elif v is None:
                c.check(g is None, f'{q}: its default when the section does not set it')
            else:
                c.equal(g, v, f'{q}: the value of the section')


def h_values(c):
    """values, defaults and objects handed to constructors"""
    P, built = probe()
    x, y = c.real('x', -5, 5), c.real('y', -5, 5)
    lst = [x, y]
    sect = {'class': 'Probe'}
    give = {}
    for n, v in (('number', x), ('other', lst), ('items_list', [1, y]), ('items_dict', {'k': y}), ('table', y), ('untyped', None)):
        if c.flag('g' + n):
            sect[n] = give[n] = v
    sect['inputs'] = {'in': 'z.out'}
    sect['outputs'] = ['q']
    sect['target_device_idx'] = -1
    sect['precision'] = 0
    params = {'main': main(c), 'a': sect, 'b': {'class': 'Probe2', 'number': y, 'simul_params_ref': 'main', 'outputs': ['u', 'v'], 'inputs': {}}}
    s = build(params)
    o, b = s.objs['a'], s.objs['b']
    for n, v in DEFAULTS.items():
        g = o.got[n]
        w = give.get(n, v)
        if w is None:
            c.check(g is None, f'{n}: its default')
        elif isinstance(w, list):
            c.check(isinstance(g, list) and len(g) == len(w), f'{n}: the list of the section')
            for p, q in zip(g, w):
                c.equal(p, q, f'{n}: the list of the section')
        elif isinstance(w, dict):
            c.check(list(g) == list(w), f'{n}: the dictionary of the section')
            c.equal(g['k'], w['k'], f'{n}: the dictionary of the section')
        else:
            c.equal(g, w, f'{n}: the value of the section')
    c.check(o.target_device_idx == -1 and o.got['precision'] == 0, 'device and precision of the section')
    c.check(o.got['params_dict'] is params, 'constructors that ask for it see the whole configuration')
    c.check(o.got['info_getter'] == s.get_info and o.got['input_ref_getter'] == s.input_ref and o.got['output_ref_getter'] == s.output_ref,
            'and the accessors of this simulation') if 'info_getter' in o.got else None
    c.equal(b.got['number'], y, 'number of the second object')
    c.check(b.extra == 5 and b.got['simul_params'] is s.objs['main'], 'defaults of the second object')
    c.check(list(b.outs) == ['u', 'v'], 'outputs, for constructors that ask for them')
    m = s.objs['main']
    c.check(m.pixel_pupil == 8 and m.time_step == 0.001 and m.root_dir == c.tmp, 'the main section')


BADS = ['unknown', 'unknown_ref', 'noclass', 'noref', 'notlist', 'nodict', 'untyped', 'listtype', 'tagextra', 'nofile', 'nodata', 'badclass', 'missing', 'typo',
        'listref_other']


def h_reject(c):
    """sections that cannot be honoured are rejected, not ignored"""
    P, built = probe()
    import os
    from specula.calib_manager import CalibManager
    from specula.data_objects.m2c import M2C
    from specula.data_objects.recmat import Recmat
    cm = CalibManager(c.tmp)
    with quiet():
        for kind, o in (('M2C', M2C(c.const([[1.0]]), target_device_idx=-1)), ('Recmat', Recmat(c.const([[1.0]]), target_device_idx=-1))):
            os.makedirs(cm.root_subdir(kind), exist_ok=True)
            o.save(cm.filename(kind, 't1'))
    sect = {'class': 'Probe', 'number': c.real('x', -5, 5)}
    k = c.pickint('bad', 0, len(BADS))
    bad = BADS[k] if k < len(BADS) else None
    klass = 'Probe'
    if bad == 'unknown':
        sect['nunber'] = 1.0
    elif bad == 'typo':
        sect['Number'] = 1.0
    elif bad == 'unknown_ref':
        sect['thing_ref'] = 'main'
    elif bad == 'noclass':
        del sect['class']
    elif bad == 'noref':
        sect['other_ref'] = 'zzz'
    elif bad == 'notlist':
        sect['items_list_ref'] = 'main'
    elif bad == 'listref_other':
        sect['items_list_ref'] = ['main', 'zzz']
    elif bad == 'nodict':
        sect['recs_dict_object'] = ['t1']
    elif bad == 'untyped':
        sect['untyped_object'] = 't1'
    elif bad == 'listtype':
        sect['items_list_object'] = ['t1']
    elif bad == 'tagextra':
        sect = {'class': 'M2C', 'tag': 't1', 'norm_factor': 1.0}
    elif bad == 'nofile':
        sect['m2c_object'] = 'nothing'
    elif bad == 'nodata':
        sect['table_data'] = 'nothing'
    elif bad == 'badclass':
        sect['class'] = 'Prob'
    elif bad == 'missing':
        sect = {'class': 'Probe2', 'simul_params_ref': 'main'}
    params = {'main': main(c), 'a': sect}
    if bad is None:
        s = build(params)
        c.equal(s.objs['a'].got['number'], sect['number'], 'a valid section is built')
    else:
        c.check(rejects(lambda: build(params), Exception), f'invalid section rejected: {bad}')
        c.check(len(built) == 0, 'and no object is made of it')


def h_objects(c):
    """parameters and sections restored from files"""
    import os
    P, built = probe()
    from specula.calib_manager import CalibManager
    from specula.data_objects.m2c import M2C
    from specula.data_objects.recmat import Recmat
    from specula.data_objects.slopes import Slopes
    cm = CalibManager(c.tmp)
    D = dict(target_device_idx=-1, precision=0)
    v = {n: c.arr(n, (2, 2), -5, 5) for n in ('m1', 'm2', 'r1', 'r2')}
    sl = {n: c.arr(n, (2,), -5, 5) for n in ('s1', 's2')}
    tab = c.arr('tab', (2,), -5, 5)
    for kind in ('M2C', 'Recmat', 'Slopes', 'data'):
        os.makedirs(cm.root_subdir(kind), exist_ok=True)
    with quiet():
        for n in ('m1', 'm2'):
            M2C(v[n], **D).save(cm.filename('M2C', n))
        for n in ('r1', 'r2'):
            Recmat(v[n], **D).save(cm.filename('Recmat', n))
        for n in ('s1', 's2'):
            o = Slopes(2, **D)
            o.slopes[:] = sl[n]
            o.save(cm.filename('Slopes', n))
        cm.write_data('tab', tab)
    sect = {'class': 'Probe', 'number': 1.0}
    m = ['m1', 'm2', None][c.pickint('m', 0, 2)]
    r = ['r1', 'r2', None][c.pickint('r', 0, 2)]
    L = [[], ['s1'], ['s2', 's1'], ['s1', 's2'], None][c.pickint('L', 0, 4)]
    R = [{}, {'x': 'r1'}, {'x': 'r2', 'y': 'r1'}, None][c.pickint('R', 0, 3)]
    t = 'tab' if c.flag('t') else None
    sect.update(m2c_object=m, recmat_object=r, slopes_list_object=L, recs_dict_object=R, table_data=t)
    tag = ['m1', 'm2'][c.pickint('tag', 0, 1)]
    params = {'main': main(c), 'a': sect, 'x': {'class': 'M2C', 'tag': tag}, 'y': {'class': 'Probe', 'other_ref': 'x'}}
    s = build(params)
    g = s.objs['a'].got

    def is_(o, kind, attr, want, name):
        c.check(type(o) is kind, 'a data object of the declared kind')
        c.check(o.tag == name, 'which knows its tag')
        c.equal(getattr(o, attr), want, 'with the content of its file')
    if m is None:
        c.check(g['m2c'] is None, 'no object for an empty tag')
    else:
        is_(g['m2c'], M2C, 'm2c', v[m], m)
    if r is None:
        c.check(g['recmat'] is None, 'no object for an empty tag')
    else:
        is_(g['recmat'], Recmat, 'recmat', v[r], r)
    if L is None:
        c.check(g['slopes_list'] is None, 'no list for an empty tag')
    else:
        c.check(len(g['slopes_list']) == len(L), 'one object per tag')
        for o, n in zip(g['slopes_list'], L):
            is_(o, Slopes, 'slopes', sl[n], n)
    if R is None:
        c.check(g['recs_dict'] is None, 'no dictionary for an empty tag')
    else:
        c.check(list(g['recs_dict']) == list(R), 'one object per tag')
        for q, n in R.items():
            is_(g['recs_dict'][q], Recmat, 'recmat', v[n], n)
    if t is None:
        c.check(g['table'] is None, 'no data for an empty name')
    else:
        c.equal(g['table'], tab, 'the data of the file')
    is_(s.objs['x'], M2C, 'm2c', v[tag], tag)
    c.check(s.objs['x'].name == 'x' and s.objs['y'].got['other'] is s.objs['x'], 'a restored section can be referenced')


def h_ranks(c):
    """with more than one process every section is built by its own process"""
    import specula.simul as sm
    from specula.data_objects.m2c import M2C
    P, built = probe()
    old = sm.process_rank
    names = ['a', 'b', 'd']
    me = [None, 0, 1][c.pickint('me', 0, 2)]
    rank = {n: [None, 0, 1][c.pickint('r' + n, 0, 2)] for n in names}
    params = {'main': main(c)}
    x = {n: c.real('x' + n, -5, 5) for n in names}
    for n in names:
        params[n] = {'class': 'Probe', 'number': x[n], 'simul_params_ref': 'main'}
        if rank[n] is not None:
            params[n]['target_rank'] = rank[n]
    sm.process_rank = me
    try:
        s = build(params)
    finally:
        sm.process_rank = old
    for n in names:
        mine = me is None or me == (rank[n] or 0)
        c.check((n in s.objs) == mine, 'a section is built by the process it is assigned to')
        c.check((n in s.remote_objs_ranks) == (not mine), 'and is remote for the others')
        c.check(s.all_objs_ranks[n] == (rank[n] or 0), 'every process knows where each object lives')
        if mine:
            c.equal(s.objs[n].got['number'], x[n], 'with its own parameters')
        else:
            c.check(s.remote_objs_ranks[n] == (rank[n] or 0), 'every process knows where each object lives')
    c.check('main' in s.objs, 'data objects exist on every process')
    c.check(len(built) == sum(n in s.objs for n in names), 'nothing is built twice')


def h_class(c):
    """every class of the package is found by its name"""
    import importlib
    import os
    import specula
    from specula.lib.utils import import_class
    root = os.path.dirname(specula.__file__)
    todo = []
    for d in ('processing_objects', 'data_objects'):
        for f in sorted(os.listdir(os.path.join(root, d))):
            if f.endswith('.py') and f != '__init__.py':
                todo.append((d, f[:-3]))
    n = 0
    for d, f in todo:
        mod = importlib.import_module(f'specula.{d}.{f}')
        short = f.replace('_', '')
        for k, v in vars(mod).items():
            if isinstance(v, type) and v.__module__ == mod.__name__ and k.lower() == short and k != 'PupData':
                try:
                    c.check(import_class(k) is v, f'found by its name: {k}')
                except (ImportError, AttributeError):
                    c.check(False, f'found by its name: {k}')
                n += 1
    c.check(n > 60, 'the classes of the package')


def harnesses(tier):
    r = []
    for kinds in (('none', 'one', 'one'), ('none', 'one', 'list'), ('none', 'one', 'dict'), ('none', 'list', 'dict'), ('one', 'list', 'one')):
        r.append(H('refs ' + ' '.join(kinds), h_refs, kinds=list(kinds), max_paths=5000, models=16))
    r.append(H('values', h_values))
    r.append(H('reject', h_reject))
    r.append(H('objects', h_objects, max_paths=5000, models=16))
    r.append(H('ranks', h_ranks))
    r.append(H('class', h_class))
    return r
