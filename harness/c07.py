"""C07: combining parameter files applies exactly the requested changes."""
import copy
from engine.common import H
from .util import quiet

BOUNDS = ('base configuration of 5 objects; additional files of 1-2 entries (3 thorough), each any of 16 kinds: new object, '
          'duplicate, override, removal of one or two objects, with or without a simulation index; references of the base '
          'configuration symbolic; simulation index any integer 0..12; command-line overrides of 1-2 dotted keys')
OUTSIDE = 'overrides of configurations with more nesting levels'


def base(refs):
    return {
        'main': {'class': 'SimulParams', 'n': 1},
        'a': {'class': 'A', 'gain': 0.5},
        'b': {'class': 'B', 'inputs': {'x': refs[0], 'y': refs[1]}, 'par': [1, 2]},
        'c': {'class': 'C', 'inputs': {'l': [refs[2], refs[3], 'main.out'], 'k': 'b.out'}},
        'd_1': {'class': 'D', 'inputs': {'input_list': ['n1-a.out', 'n2-b.out:-1']}, 'flag': True},
    }


REFS = ['a.out', 'b.out', 'main.out', 'c.out:-1', 'd_1.out', 'a.out2:-1']
OWN = ['a', 'b', 'main', 'c', 'd_1', 'a']

# name, value ; the index suffix is added by the harness
ENTRIES = [
    ('new', {'class': 'N', 'inputs': {'x': 'a.out'}}),
    ('a', {'class': 'Z'}),
    ('a_override', {'gain': 2.0}),
    ('b_override', {'par': [3], 'extra': 'e'}),
    ('c_override', {'inputs': {'k': 'a.out'}}),
    ('zz_override', {'gain': 1}),
    ('remove', ['a']),
    ('remove', ['b', 'c']),
    ('remove', ['d_1']),
    ('remove', ['zz']),
    ('remove', []),
    ('new2', {'class': 'N2'}),
    ('main_override', {'n': 5, 'class': 'S2'}),
]


def oracle(params, entries, owner, c):
    """-> expected parameters or None (rejected)"""
    p = copy.deepcopy(params)
    for name, value in entries:
        if name == 'remove':
            for o in value:
                if o not in p:
                    return None
                del p[o]
                for q in p.values():
                    for k, r in list(q.get('inputs', {}).items()):
                        if isinstance(r, list):
                            q['inputs'][k] = [x for x in r if owner(x) != o]
                        elif owner(r) == o:
                            del q['inputs'][k]
        elif name.endswith('_override'):
            o = name[:-len('_override')]
            if o not in p:
                return None
            p[o].update(copy.deepcopy(value))
        else:
            if name in p:
                return None
            p[name] = copy.deepcopy(value)
    return p


def owner(ref):
    return ref.split(':')[0].split('-')[-1].split('.')[0]


def same(c, got, want, label):
    if isinstance(want, dict) and isinstance(got, dict):
        c.check(set(got) == set(want), f'{label}: keys')
        for k in want:
            if k in got:
                same(c, got[k], want[k], f'{label}.{k}')
    elif isinstance(want, list) and isinstance(got, list):
        c.check(len(got) == len(want), f'{label}: length')
        for i, w in enumerate(want):
            if i < len(got):
                same(c, got[i], w, f'{label}[{i}]')
    else:
        c.check(got == want, label)


def h_combine(c, n, nrefs, entries=None, indexed=False):
    from specula.simul import Simul
    refs = ['a.out', 'main.out', 'a.out2:-1', 'b.out']
    for i in range(nrefs):
        refs[i] = c.text(f'r{i}', REFS)[0]
    params = base(refs)
    add, apply = {}, []
    sim = c.int('simul_idx', 0, 12) if indexed else 0
    for i in range(n):
        k = entries[i] if entries and i < len(entries) else c.pickint(f'e{i}', 0, len(ENTRIES) - 1)
        name, val = ENTRIES[k]
        full = name
        if indexed:
            suffix = c.pick(f'idx{i}', [None, 0, 1, 2, 10, '007'])
            if suffix is not None:
                full = f'{name}_{suffix}'
                on = sim == int(suffix)
            else:
                on = True
        else:
            on = True
        if full in add:
            return
        add[full] = copy.deepcopy(val)
        if c.decide(on):
            apply.append((name, val))
    if indexed:
        # the resolved references do not matter here
        sim = c.index(sim) if not apply else sim
    s = Simul('none.yml', simul_idx=sim)
    ref_params = copy.deepcopy(params)
    # references are resolved only now, by the code or here
    err = None
    with quiet():
        try:
            s.combine_params(params, add)
        except ValueError as e:
            err = str(e)
    want = oracle(ref_params, apply, owner, c)
    if want is None:
        c.check(err is not None, 'unknown or duplicate names are rejected')
        return
    c.check(err is None, 'correct requests are accepted')
    same(c, params, want, 'params')


def h_sequence(c):
    """several additional files are applied one after the other"""
    from specula.simul import Simul
    params = base(['a.out', 'main.out', 'a.out2:-1', 'b.out'])
    ks = [c.pickint(f'e{i}', 0, len(ENTRIES) - 1) for i in range(2)]
    want = copy.deepcopy(params)
    s = Simul('none.yml')
    for k in ks:
        name, val = ENTRIES[k]
        if want is not None:
            want = oracle(want, [(name, val)], owner, c)
    ok = True
    with quiet():
        try:
            for k in ks:
                name, val = ENTRIES[k]
                s.combine_params(params, {name: copy.deepcopy(val)})
        except ValueError:
            ok = False
    c.check(ok == (want is not None), 'rejected exactly if a name is unknown or duplicate')
    if ok and want is not None:
        same(c, params, want, 'params')


def h_overrides(c):
    """command-line overrides set exactly the dotted fields"""
    from specula.simul import Simul
    keys = ['a.gain', 'a.new', 'b.inputs.x', 'b.par', 'c.inputs.l', 'main.n', 'a', 'b.inputs.x.y', 'd_1.flag']
    vals = ['2.5', 'c.out', '[1, 2, 3]', 'null', 'true', '{k: 1}']
    pv = [2.5, 'c.out', [1, 2, 3], None, True, {'k': 1}]
    params = base(['a.out', 'main.out', 'a.out2:-1', 'b.out'])
    want = copy.deepcopy(params)
    txt, ok = [], True
    n = c.pickint('n', 0, 2)
    used = []
    for i in range(n):
        k, v = c.pickint(f'k{i}', 0, len(keys) - 1), c.pickint(f'v{i}', 0, len(vals) - 1)
        if k in used:
            return
        used.append(k)
        txt.append(f'{keys[k]}: {vals[v]}')
        parts = keys[k].split('.')
        if len(parts) not in (2, 3):
            ok = False
        if ok:
            o = want
            for p in parts[:-1]:
                o = o[p]
            o[parts[-1]] = copy.deepcopy(pv[v])
    s = Simul('none.yml', overrides='{' + ', '.join(txt) + '}' if n else None)
    with quiet():
        try:
            s.apply_overrides(params)
            err = False
        except ValueError:
            err = True
    c.check(err == (not ok), 'malformed keys are rejected')
    if ok and not err:
        same(c, params, want, 'params')


def harnesses(tier):
    hs = [H('one_entry', h_combine, n=1, nrefs=2, budget=200, max_paths=4000),
          H('one_indexed', h_combine, n=1, nrefs=0, indexed=True, budget=100, max_paths=4000),
          H('two_entries', h_combine, n=2, nrefs=0, budget=100, max_paths=4000),
          H('sequence', h_sequence, budget=100, max_paths=4000),
          H('overrides', h_overrides, budget=200, max_paths=8000)]
    for e in (6, 7, 8):
        hs.append(H(f'remove_{e}', h_combine, n=1, nrefs=4, entries=[e], budget=200, max_paths=6000))
    for e in (0, 2, 6):
        hs.append(H(f'two_indexed_{e}', h_combine, n=2, nrefs=0, entries=[e], indexed=True, budget=200, max_paths=6000))
    if tier == 'thorough':
        for e in range(len(ENTRIES)):
            hs.append(H(f'three_{e}', h_combine, n=3, nrefs=1, entries=[e], budget=1500, max_paths=60000))
            hs.append(H(f'twoidx_{e}', h_combine, n=2, nrefs=0, entries=[e], indexed=True, budget=1500, max_paths=60000))
    return hs
