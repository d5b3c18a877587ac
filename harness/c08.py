"""C08: a replay configuration serves every recorded output from the recording."""
import copy
from engine.common import H
from .util import quiet
from .c07 import same

BOUNDS = ('configurations of 5 objects and a DataStore recording 0-3 outputs; the recorded outputs and every input reference '
          '(single, listed, delayed, prefixed) any of 10 references; every choice of one or two targets')
OUTSIDE = 'other sizes; recordings of several stores are a known finding'

OBJS = ['a', 'b', 'd', 'e']
RECS = ['a.o1', 'a.o2', 'b.o', 'd.o', 'e.o']
REFS = ['a.o1', 'a.o2', 'b.o', 'd.o', 'a.o1:-1', 'b.o:-1', 'd.o:-1', 'e.o', 'n-a.o1', 'n-b.o:-1']


def split(r):
    r, _, delay = r.partition(':')
    pre, _, r = r.rpartition('-')
    return (pre + '-' if pre else ''), r, (':' + delay if delay else '')


def config(c, nrec, slots, refs=False, fixed_recs=None):
    """-> parameters with the chosen recordings and references"""
    recs = []
    for i in range(nrec):
        r = fixed_recs[i] if fixed_recs else c.pick(f'rec{i}', RECS)
        if r in recs:
            return None
        recs.append(r)
    it = iter(range(99))

    def ref():
        i = next(it)
        return c.text(f's{i}', REFS)[0] if i < slots else 'a.o1'
    p = {'main': {'class': 'SimulParams', 'root_dir': '.'},
         'a': {'class': 'A', 'gains': [1, 2]},
         'b': {'class': 'B', 'inputs': {'x': ref()}},
         'd': {'class': 'D', 'inputs': {'l': [ref(), 'b.o']}},
         'e': {'class': 'E', 'inputs': {'x': ref(), 'y': 'a.o2:-1'}, 'par': 3},
         'store': {'class': 'DataStore', 'store_dir': 'dir', 'data_format': 'fits',
                   'inputs': {'input_list': [f'n{i}-{r}' for i, r in enumerate(recs)]}}}
    if refs:
        t = c.pick('reft', OBJS)
        kind = c.pick('refk', ['x_ref', 'x_list_ref', 'x_dict_ref'])
        p[c.pick('reff', ['b', 'e'])][kind] = t if kind == 'x_ref' else [t, 'main']
    return p, recs


def inputs_of(pars):
    for k, v in pars.get('inputs', {}).items():
        for r in (v if isinstance(v, list) else [v]):
            yield r


def refs_of(pars):
    for k, v in pars.items():
        if k.endswith('_ref'):
            yield from ([v] if isinstance(v, str) else v)


def rewired(pars, recs):
    q = copy.deepcopy(pars)

    def one(r):
        pre, body, delay = split(str(r))
        if body in recs:
            return f'{pre}data_source.n{recs.index(body)}{delay}'
        return r
    for k, v in q.get('inputs', {}).items():
        q['inputs'][k] = [one(x) for x in v] if isinstance(v, list) else one(v)
    return q


def source(recs, store_dir='dir'):
    return {'class': 'DataSource', 'outputs': [f'n{i}' for i in range(len(recs))], 'data_format': 'fits', 'store_dir': store_dir}


def needs(pars, recs):
    out = set()
    for r in inputs_of(pars):
        _, body, _ = split(str(r))
        if body not in recs:
            out.add(body.split('.')[0])
    return out | set(refs_of(pars))


def h_replay(c, nrec, slots, refs=False):
    from specula.simul import Simul
    cf = config(c, nrec, slots, refs)
    if cf is None:
        return
    params, recs = cf
    orig = copy.deepcopy(params)
    s = Simul('none.yml')
    with quiet():
        got = s.build_replay(params)
    same(c, params, orig, 'original configuration')
    keep = {o for o in ['main'] + OBJS if not any(r.startswith(o + '.') for r in recs)}
    while True:
        more = set().union(*[needs(orig[o], recs) for o in keep]) - keep
        if not more:
            break
        keep |= more
    want = {o: rewired(orig[o], recs) for o in keep}
    want['data_source'] = source(recs)
    same(c, got, want, 'replay')
    # independent of the original from now on
    got['e' if 'e' in got else 'main']['class'] = 'other'
    for o in ('b', 'e'):
        if o in got:
            got[o]['inputs']['x'] = 'changed'
    same(c, params, orig, 'original configuration')


def h_targeted(c, nrec, slots, refs=False, ntargets=1):
    from specula.simul import Simul
    cf = config(c, nrec, slots, refs)
    if cf is None:
        return
    params, recs = cf
    targets = [c.pick(f't{i}', OBJS) for i in range(ntargets)]
    orig = copy.deepcopy(params)
    sd = c.pick('set_dir', [None, 'other'])
    s = Simul('none.yml')
    with quiet():
        got = s.build_targeted_replay(params, *targets, set_store_dir=sd)
    same(c, params, orig, 'original configuration')
    keep = {'main'} | set(targets)
    while True:
        more = set().union(*[needs(orig[o], recs) for o in keep]) - keep
        if not more:
            break
        keep |= more
    want = {o: rewired(orig[o], recs) for o in keep}
    want['data_source'] = source(recs, sd or 'dir')
    same(c, got, want, 'replay')
    for o in list(got):
        if 'inputs' in got[o]:
            got[o]['inputs']['x'] = 'changed'
        got[o]['class'] = 'other'
    same(c, params, orig, 'original configuration')


def h_no_store(c):
    """nothing recorded: a replay is the simulation itself"""
    from specula.simul import Simul
    params, _ = config(c, 0, 2)
    del params['store']
    orig = copy.deepcopy(params)
    with quiet():
        got = Simul('none.yml').build_replay(params)
    same(c, got, orig, 'replay')


def h_no_class(c):
    from specula.simul import Simul
    params, _ = config(c, 1, 0)
    del params['d']['class']
    try:
        with quiet():
            Simul('none.yml').build_replay(params)
        ok = True
    except KeyError:
        ok = False
    c.check(not ok, 'objects without class are rejected')


def h_two_stores(c, targeted):
    """two DataStores record one output each: both must be served"""
    from specula.simul import Simul
    params = {'main': {'class': 'SimulParams'}, 'a': {'class': 'A'}, 'b': {'class': 'B'},
              'e': {'class': 'E', 'inputs': {'x': 'a.o', 'y': 'b.o'}},
              's1': {'class': 'DataStore', 'store_dir': 'dir', 'inputs': {'input_list': ['n0-a.o']}},
              's2': {'class': 'DataStore', 'store_dir': 'dir', 'inputs': {'input_list': ['n1-b.o']}}}
    swap = c.flag('swap')
    if swap:
        params['s1'], params['s2'] = params['s2'], params['s1']
    s = Simul('none.yml')
    with quiet():
        got = s.build_targeted_replay(params, 'e') if targeted else s.build_replay(params)
    for i, k in enumerate('xy'):
        ref = got['e']['inputs'][k]
        src, _, out = ref.partition('.')
        ok = src in got and got[src].get('class') == 'DataSource' and out == f'n{i}' and out in got[src]['outputs']
        c.check(ok, f'recorded output {i} is read from a recording')


def harnesses(tier):
    hs = [H('replay1', h_replay, nrec=1, slots=2, budget=200, max_paths=6000),
          H('replay2', h_replay, nrec=2, slots=1, budget=200, max_paths=6000),
          H('replay_refs', h_replay, nrec=2, slots=0, refs=True, budget=200, max_paths=6000),
          H('targeted1', h_targeted, nrec=1, slots=2, budget=300, max_paths=6000),
          H('targeted2', h_targeted, nrec=2, slots=1, budget=300, max_paths=6000),
          H('targeted_refs', h_targeted, nrec=1, slots=0, refs=True, ntargets=1, budget=300, max_paths=6000),
          H('targeted_two', h_targeted, nrec=1, slots=1, ntargets=2, budget=300, max_paths=6000),
          H('no_store', h_no_store), H('no_class', h_no_class),
          H('two_stores', h_two_stores, targeted=False), H('two_stores_targeted', h_two_stores, targeted=True)]
    if tier == 'thorough':
        hs += [H('replay3', h_replay, nrec=2, slots=3, budget=3000, max_paths=100000),
               H('replay3refs', h_replay, nrec=2, slots=2, refs=True, budget=3000, max_paths=100000),
               H('targeted3', h_targeted, nrec=2, slots=3, budget=3000, max_paths=100000, ntargets=1),
               H('targeted3refs', h_targeted, nrec=2, slots=1, refs=True, budget=3000, max_paths=100000, ntargets=2)]
    return hs
