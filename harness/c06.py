"""C06: inputs are wired to exactly the outputs named in the configuration."""
from engine.common import H
from .util import value, quiet, rejects

BOUNDS = ('3 producers (single, list, field outputs, one of them a data object), one consumer with a mandatory, an optional and a '
          'list input (up to 2 references quick, 3 thorough); every reference any of 14 names, existing or not, delayed or not')
OUTSIDE = 'remote objects; other producers and names'


def build(c):
    from specula.base_processing_obj import BaseProcessingObj
    from specula.base_value import BaseValue
    from specula.connections import InputValue, InputList
    from specula.data_objects.electric_field import ElectricField
    from specula.simul import Simul

    class P(BaseProcessingObj):
        pass

    def bv():
        return BaseValue(value=c.const([0.0]), target_device_idx=-1)
    p = P(target_device_idx=-1, precision=0)
    p.outputs['a'] = bv()
    p.outputs['b'] = bv()
    p.outputs['lst'] = [bv(), bv()]
    p.outputs['single'] = [bv()]
    p.outputs['empty'] = []
    p.outputs['ef'] = ElectricField(2, 2, 1.0, target_device_idx=-1)
    q = P(target_device_idx=-1, precision=0)
    q.outputs['a'] = bv()
    d = bv()
    cons = P(target_device_idx=-1, precision=0)
    cons.inputs['one'] = InputValue(type=BaseValue)
    cons.inputs['opt'] = InputValue(type=BaseValue, optional=True)
    cons.inputs['many'] = InputList(type=BaseValue)
    s = Simul('none.yml')
    s.objs = {'p': p, 'q': q, 'd': d, 'cons': cons}
    for k, o in s.objs.items():
        o.name = k
    s.all_objs_ranks = {k: 0 for k in s.objs}
    return s, p, q, d, cons


REFS = ['p.a', 'p.b', 'p.lst', 'p.single', 'p.ef', 'q.a', 'p.a:-1', 'q.a:-1', 'd', 'p', 'p.zz', 'zz.a', 'zz', 'q.b']


def items(p, q, d):
    """what each reference stands for; None: not a valid reference to values"""
    L = p.outputs['lst']
    return [[p.outputs['a']], [p.outputs['b']], L, p.outputs['single'], None, [q.outputs['a']], [p.outputs['a']], [q.outputs['a']],
            [d], None, None, None, None, None]


def same(got, want):
    if not isinstance(got, list):
        got = [] if got is None else [got]
    return len(got) == len(want) and all(x is y for x, y in zip(got, want))


def h_wire(c, slots, as_list=()):
    """slots: input name -> number of references (0: not set)"""
    s, p, q, d, cons = build(c)
    it = items(p, q, d)
    params = {'p': {'class': 'X'}, 'q': {'class': 'X'}, 'd': {'class': 'X'}, 'cons': {'class': 'X', 'inputs': {}}}
    sels = {}
    for name, n in slots.items():
        refs, ks = [], []
        for i in range(n):
            t, k = c.text(f'{name}{i}', REFS)
            refs.append(t)
            ks.append(k)
        sels[name] = ks
        if n:
            params['cons']['inputs'][name] = refs[0] if n == 1 and name not in as_list else refs
    bad = []
    for name, ks in sels.items():
        for k in ks:
            bad += [k == i for i, w in enumerate(it) if w is None]
    if not sels.get('one'):
        bad.append(True)
    err = None
    with quiet():
        try:
            s.create_input_list_inputs(params)
            s.connect_objects(params)
            cons.setup()
        except ValueError as e:
            err = str(e)
    if err is not None:
        # too many values on a single input are also errors
        for name in ('one', 'opt'):
            ks = sels.get(name, [])
            if len(ks) > 1:
                bad.append(True)
            for k in ks:
                bad += [k == i for i, w in enumerate(it) if w is not None and len(w) != 1]
        c.check(c.Or(*bad), 'only wrong configurations are rejected')
        return
    c.check(c.Not(c.Or(*bad)) if bad else True, 'wrong references are rejected')
    for name, ks in sels.items():
        idx = [c.index(k) for k in ks]
        want = [x for i in idx for x in it[i]]
        got = cons.inputs[name].get(-1)
        c.check(same(got, want), f'{name}: connected to what the configuration names')
        if name != 'many':
            c.check(len(want) <= 1, f'{name}: one value at most')


def h_names(c):
    """unknown input names, undeclared outputs and values of the wrong type are errors"""
    s, p, q, d, cons = build(c)
    what = c.pick('what', ['ok', 'input', 'output', 'type', 'missing'])
    inp = 'one' if what != 'input' else c.pick('iname', ['zz', 'On', ''])
    ref = 'p.a' if what != 'type' else c.pick('ref', [5, None, {'p': 'a'}, ('p.a',), 1.5, True])
    params = {'p': {'class': 'X', 'outputs': ['a', 'b' if what != 'output' else c.pick('oname', ['zz', 'A', ''])]},
              'cons': {'class': 'X', 'inputs': {inp: ref}}}
    if what == 'missing':
        params['cons']['inputs'] = {'opt': 'p.a'}
    with quiet():
        try:
            s.create_input_list_inputs(params)
            s.connect_objects(params)
            cons.setup()
            ok = True
        except ValueError:
            ok = False
    c.check(ok == (what == 'ok'), f'{what}: accepted exactly if correct')
    if ok:
        c.check(cons.inputs['one'].get(-1) is p.outputs['a'], 'connected')


def h_input_list(c, cls, n):
    """the input_list of DataStore and DataBuffer creates one named input per entry"""
    from specula.processing_objects.data_store import DataStore
    from specula.processing_objects.data_buffer import DataBuffer
    s, p, q, d, cons = build(c)
    it = items(p, q, d)
    it[4] = [p.outputs['ef']]
    store = DataStore(c.path('store')) if cls == 'DataStore' else DataBuffer(buffer_size=3)
    store.name = 'store'
    s.objs['store'] = store
    names = ['x', 'y', 'z']
    opts = [f'{nm}-{r}' for nm in names for r in REFS]
    refs, ks = [], []
    for i in range(n):
        t, k = c.text(f'e{i}', opts)
        refs.append(t)
        ks.append(k)
    params = {'p': {'class': 'X'}, 'q': {'class': 'X'}, 'store': {'class': cls, 'inputs': {'input_list': refs}}}
    nr = len(REFS)
    bad = []
    for k in ks:
        bad += [k == j * nr + i for j in range(len(names)) for i, w in enumerate(it) if w is None]
    for a in range(n):
        for b in range(a):
            bad += [c.And(ks[a] >= j * nr, ks[a] < (j + 1) * nr, ks[b] >= j * nr, ks[b] < (j + 1) * nr)
                    for j in range(len(names))]
    err = None
    with quiet():
        try:
            s.create_input_list_inputs(params)
            s.connect_objects(params)
        except ValueError as e:
            err = str(e)
    # a bare processing object is only refused when its data is asked for
    bare = [k == j * nr + 9 for k in ks for j in range(len(names))]
    if err is not None:
        c.check(c.Or(*bad), 'only wrong entries are rejected')
        return
    c.check(c.Or(c.Not(c.Or(*bad)), *bare), 'wrong entries are rejected')
    if c.decide(c.Or(*bare)):
        return
    want = {}
    for k in ks:
        v = c.index(k)
        want[names[v // nr]] = it[v % nr]
    c.check(set(store.inputs) == set(want), 'one input per entry')
    for nm, w in want.items():
        c.check(same(store.inputs[nm].get(-1), w), 'each recorded under its own name')


def h_inputs_api(c):
    """InputList / InputValue: nested lists are flattened in order, wrong types refused"""
    from specula.base_value import BaseValue
    from specula.connections import InputValue, InputList
    from specula.data_objects.electric_field import ElectricField
    vs = [BaseValue(value=c.const([0.0]), target_device_idx=-1) for _ in range(4)]
    wrong = ElectricField(2, 2, 1.0, target_device_idx=-1)
    single = c.flag('single')
    x = (InputValue if single else InputList)(type=BaseValue, optional=True)
    nest = c.pick('nest', [[0], [], [0, 1], [[0], 1], [0, [1, [2]]], [[[0]], [], [1, 2, 3]]])

    def conv(n):
        return [conv(k) for k in n] if isinstance(n, list) else vs[n]

    def flatten(n):
        return [y for k in n for y in flatten(k)] if isinstance(n, list) else [vs[n]]
    x.set(conv(nest))
    extra = c.pick('extra', [None, 3, 'wrong'])
    want = flatten(nest)
    if extra == 'wrong':
        c.check(rejects(lambda: x.append(wrong), ValueError), 'wrong type refused')
        c.check(rejects(lambda: x.append([vs[0], [wrong]]), ValueError), 'wrong type in a list refused')
        return
    if extra is not None:
        x.append(vs[extra])
        want = want + [vs[extra]]
    if single and len(want) > 1:
        c.check(rejects(lambda: x.get(-1), ValueError), 'several values on a single-value input')
    else:
        c.check(same(x.get(-1), want), 'values in the listed order')
    x.set(vs[1])
    c.check(same(x.get(-1), [vs[1]]), 'set replaces')


def h_refs(c):
    """_ref parameters of a built configuration point to the objects named"""
    from specula.simul import Simul
    names = ['s1', 's2', 's3']
    params = {'main': {'class': 'SimulParams', 'root_dir': c.tmp, 'pixel_pupil': 4, 'pixel_pitch': 1.0, 'time_step': 0.001,
                       'total_time': 0.002}}
    order = c.pick('order', [['s1', 's2', 's3'], ['s3', 's1', 's2'], ['s2', 's3', 's1']])
    refs = c.pick('refs', [['s1'], ['s1', 's2'], ['s2', 's1'], ['s3', 's1'], ['s1', 's2', 's3'], ['s1', 'zz']])
    prop = {'class': 'AtmoPropagation', 'simul_params_ref': 'main', 'source_dict_ref': refs}
    if c.flag('first'):
        params['prop'] = prop
    for i, n in enumerate(order):
        params[n] = {'class': 'Source', 'polar_coordinates': [float(int(n[1])), 0.0], 'magnitude': 5, 'wavelengthInNm': 500}
    params['prop'] = prop
    s = Simul('none.yml')
    try:
        with quiet():
            s.build_objects(params)
    except Exception:
        c.check('zz' in refs, 'only unknown references are rejected')
        return
    c.check('zz' not in refs, 'unknown references are rejected')
    o = s.objs['prop']
    c.check([k for k in o.outputs] == [f'out_{r}_ef' for r in refs], 'one output per named source')
    c.check(list(o.source_dict) == refs and all(o.source_dict[r] is s.objs[r] for r in refs), 'sources are the named ones')
    for n in names:
        c.check(s.objs[n].name == n and abs(float(s.objs[n].r_arcsec) - int(n[1])) < 1e-9, 'each object has its own parameters')


def harnesses(tier):
    hs = [H('one', h_wire, slots=dict(one=1)),
          H('one_opt', h_wire, slots=dict(one=1, opt=1)),
          H('one_listed', h_wire, slots=dict(one=1), as_list=('one',)),
          H('one_two', h_wire, slots=dict(one=2)),
          H('missing', h_wire, slots=dict(one=0, opt=1)),
          H('many2', h_wire, slots=dict(one=1, many=1), budget=150),
          H('many', h_wire, slots=dict(one=1, many=2), budget=300, max_paths=6000),
          H('names', h_names),
          H('store2', h_input_list, cls='DataStore', n=2, budget=300, max_paths=6000),
          H('buffer', h_input_list, cls='DataBuffer', n=1, budget=100),
          H('api', h_inputs_api), H('refs', h_refs)]
    if tier == 'thorough':
        hs += [H('many3', h_wire, slots=dict(many=3, one=1), budget=2000, max_paths=60000),
               H('one_opt_many', h_wire, slots=dict(one=1, opt=1, many=1), budget=2000, max_paths=60000),
               H('buffer2', h_input_list, cls='DataBuffer', n=2, budget=2000, max_paths=60000)]
    return hs
