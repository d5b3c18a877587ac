"""C03: Simul.build_trigger_order over symbolic connection graphs."""
import itertools
from engine.common import H
from .util import quiet

BOUNDS = ('quick: 3 objects with 4 input slots and 4 objects with 4 slots (one of them a 2-element list), each slot naming any '
          'object or a constant source, delayed or not; thorough: 3 objects with 6 slots, 4 objects with 5-6 slots')
OUTSIDE = 'more objects; objects reading their own delayed output may be accepted or rejected'


def graph(c, n, slots, prefix=()):
    """-> params, list of (object index, slot selector) ; each slot refers to src or any object, delay 0 or -1"""
    names = [f'o{i}' for i in range(n)]
    opts = ['src.out', 'src.out:-1']
    for nm in names:
        opts += [nm + '.out:0', nm + '.out:-1']
    opts[0] = 'src.out:0'
    params = {}
    links = []
    cnt = 0
    for i in range(n):
        inp = {}
        for j, kind in enumerate(slots[i]):
            refs = []
            for q in range(kind if kind else 1):
                if cnt < len(prefix):
                    t, k = opts[prefix[cnt]], prefix[cnt]
                else:
                    t, k = c.text(f's{cnt}', opts)
                cnt += 1
                refs.append(t)
                links.append((i, k))
            inp[f'in{j}'] = refs if kind else refs[0]
        params[names[i]] = {'class': 'X', 'inputs': inp} if inp else {'class': 'X'}
    params['src'] = {'class': 'X'}
    return params, names, links


def h_order(c, n, slots, prefix=(), srclast=True):
    from specula.simul import Simul
    params, names, links = graph(c, n, slots, prefix)
    s = Simul('none.yml')
    # index n is the source
    plain = lambda k, j: k == (2 + 2 * j if j < n else 0)
    delayed = lambda k, j: k == (3 + 2 * j if j < n else 1)
    names = names + ['src']
    err = None
    with quiet():
        try:
            order, idx = s.build_trigger_order(params)
        except ValueError as e:
            err = str(e)

    def valid(perm):
        pos = {o: p for p, o in enumerate(perm)}
        cs = []
        for i, k in links:
            for j in range(n + 1):
                if i == j:
                    cs.append(c.Not(plain(k, j)))
                elif pos[i] < pos[j]:
                    cs.append(c.Not(plain(k, j)))
                else:
                    cs.append(c.Not(delayed(k, j)))
        return c.And(*cs)
    any_valid = c.Or(*[valid(p) for p in itertools.permutations(range(n + 1))])
    selfdelay = c.Or(*[delayed(k, i) for i, k in links]) if links else False
    if err is not None:
        c.check(c.Or(c.Not(any_valid), selfdelay), 'a consistent configuration is accepted')
        return
    order = list(order)
    idx = list(idx)
    c.check(len(order) == len(idx), 'one trigger index per ordered object')
    c.check(len(set(order)) == len(order), 'each object appears once')
    c.check(set(order) <= set(params), 'only configured objects are ordered')
    pos = {nm: p for p, nm in enumerate(order)}
    grp = dict(zip(order, idx))
    present = [i for i in range(n + 1) if names[i] in pos]
    missing = [i for i in range(n + 1) if names[i] not in pos]
    for i, k in links:
        if i not in present:
            continue
        for j in range(n + 1):
            if i == j:
                c.check(c.Not(plain(k, i)), f'{names[i]} reading its own current output is not ordered')
                continue
            if j in present:
                c.check(c.Or(c.Not(plain(k, j)), grp[names[i]] > grp[names[j]]), f'{names[i]} runs in a later group than the supplier {names[j]}')
                c.check(c.Or(c.Not(delayed(k, j)),
                             pos[names[i]] < pos[names[j]] and grp[names[i]] < grp[names[j]]),
                        f'{names[i]} runs in an earlier group than {names[j]}, read with delay')
            else:
                c.check(c.Not(plain(k, j)), f'{names[i]} is not ordered without its supplier {names[j]}')
    # objects are left out only because they wait for each other
    for i in missing:
        c.check(c.Or(*[plain(k, j) for ii, k in links if ii == i for j in missing]),
                f'{names[i]} is left out only when it waits for another left-out object')
    if missing:
        c.check(c.Or(c.Not(any_valid), selfdelay), 'objects are left out only from inconsistent configurations')


def h_input_kept(c):
    """the order is computed on a copy: the configuration itself is not modified"""
    from specula.simul import Simul
    import copy
    params = {'a': {'class': 'X'}, 'b': {'class': 'X', 'inputs': {'i': 'a.out', 'l': ['a.out', 'c.out:-1']}},
              'c': {'class': 'X', 'inputs': {'i': 'b.out'}}}
    if c.flag('swap'):
        params = dict(reversed(list(params.items())))
    ref = copy.deepcopy(params)
    with quiet():
        order, idx = Simul('none.yml').build_trigger_order(params)
    c.check(params == ref, 'configuration unchanged')
    c.check(order == ['a', 'b', 'c'], 'order')


def harnesses(tier):
    hs = []
    for p in range(8):
        hs.append(H(f'three_{p}', h_order, budget=140, max_paths=6000, models=12, n=3, slots=[(0,), (0,), (2,)], prefix=(p,)))
    for p in range(10):
        hs.append(H(f'four_{p}', h_order, budget=140, max_paths=6000, models=12, n=4, slots=[(0,), (0,), (0,), (0,)], prefix=(p,)))
    hs.append(H('input_kept', h_input_kept))
    if tier == 'thorough':
        for p in range(8):
            for q in range(8):
                hs.append(H(f'three6_{p}_{q}', h_order, budget=500, max_paths=60000, models=12, n=3, slots=[(0, 0), (2,), (2,)], prefix=(p, q)))
        for p in range(10):
            for q in range(10):
                hs.append(H(f'four5_{p}_{q}', h_order, budget=300, max_paths=60000, models=12, n=4, slots=[(0,), (0,), (0,), (0, 0)], prefix=(p, q)))
    return hs
