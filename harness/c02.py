"""C02: LoopControl visits t0, t0+dt, ... < t0+T, last-iteration flag."""
from engine.common import H
from .util import quiet

BOUNDS = 'T, dt, t0 arbitrary integers of ns with dt in 1..10^9, T <= 6 dt (5 quick), 3 objects in 2 trigger groups, 1-2 consecutive runs'
OUTSIDE = 'more iterations; MPI barriers; interactive stepping'


def recorder(log, name, reject=False):
    from specula.base_processing_obj import BaseProcessingObj

    class Rec(BaseProcessingObj):
        def __init__(self):
            super().__init__(target_device_idx=-1, precision=0)
            self.name = name

        def setup(self):
            super().setup()
            log.append((name, 'setup', None))

        def check_ready(self, t):
            log.append((name, 'ready', t))
            return super().check_ready(t)

        def prepare_trigger(self, t):
            super().prepare_trigger(t)
            log.append((name, 'prepare', t))

        def trigger_code(self):
            log.append((name, 'trigger', self.current_time))

        def post_trigger(self):
            super().post_trigger()
            log.append((name, 'post', self.current_time))

        def send_outputs(self, skip_delayed=False, delayed_only=False, first_mpi_send=True):
            super().send_outputs(skip_delayed=skip_delayed, delayed_only=delayed_only, first_mpi_send=first_mpi_send)
            log.append((name, 'send', (skip_delayed, delayed_only, first_mpi_send)))

        def finalize(self):
            super().finalize()
            log.append((name, 'finalize', None))
    return Rec()


def run_and_check(c, loop, log, groups, T, dt, t0, tag=''):
    names = [n for g in groups for n in g]
    G = 1000000000
    start = len(log)
    with quiet():
        loop.run(T / G, dt / G, t0=t0 / G)
    ev = log[start:]
    # iterations seen by the first object
    n = len([1 for e in ev if e[0] == names[0] and e[1] == 'ready'])
    c.check(c.And(c.Or(n == 0, (n - 1) * dt < T), T <= n * dt), tag + 'number of iterations')
    for nm in names:
        mine = [e for e in ev if e[0] == nm]
        for what in ('ready', 'prepare', 'trigger', 'post'):
            ts = [e[2] for e in mine if e[1] == what]
            c.check(len(ts) == n, f'{tag}{nm}: {what} once per step')
            for i, t in enumerate(ts):
                c.check(t == t0 + i * dt, f'{tag}{nm}: {what} time of step {i}')
        c.check([e[1] for e in mine].count('setup') == 1, f'{tag}{nm}: set up once')
        c.check([e[1] for e in mine].count('finalize') == 1, f'{tag}{nm}: finalised once')
        sends = [e[2] for e in mine if e[1] == 'send']
        first = [s for s in sends if s[2]]
        delayed = [s for s in sends if not s[2] and s[1]]
        each = [s for s in sends if not s[2] and not s[1]]
        c.check(len(first) == 1 and len(delayed) == 1, f'{tag}{nm}: outputs published before the loop')
        c.check(len(each) == n, f'{tag}{nm}: outputs published once per step')
        for i, s in enumerate(each):
            last = i == n - 1
            c.check(s[0] if last else c.Not(s[0]), f'{tag}{nm}: last-iteration flag of step {i}')
    # order: per step, groups one after the other; inside a group all ready, then all triggers, then all posts
    seq = [(e[0], e[1]) for e in ev if e[1] in ('ready', 'trigger', 'post')]
    want = []
    for _ in range(n):
        for g in groups:
            want += [(nm, w) for w in ('ready', 'trigger', 'post') for nm in g]
    c.check(seq == want, tag + 'order of execution')
    kinds = [e[1] for e in ev]
    if n:
        c.check(max(i for i, k in enumerate(kinds) if k == 'setup') < kinds.index('ready'), tag + 'set-up precedes the loop')
        c.check(kinds.index('finalize') > max(i for i, k in enumerate(kinds) if k in ('post', 'send')),
                tag + 'finalisation follows the loop')


def h_run(c, nmax, runs=1, zero_t0=False, multiple=False, groups=(('a',), ('b', 'd')), order=(0, 1)):
    from specula.loop_control import LoopControl
    log = []
    loop = LoopControl()
    for g, k in zip(groups, order):
        for nm in g:
            loop.add(recorder(log, nm), idx=k)
    gs = [g for k, g in sorted(zip(order, groups))]
    for r in range(runs):
        dt = c.int(f'dt{r}', 1, 10 ** 9)
        if multiple:
            T = dt * c.pickint(f'n{r}', 0, nmax)
        else:
            T = c.int(f'T{r}', 0, nmax * 10 ** 9)
            c.assume(T <= nmax * dt)
        t0 = 0 if zero_t0 else c.int(f't0{r}', 0, 10 ** 10)
        run_and_check(c, loop, log, gs, T, dt, t0, tag=f'run{r}: ' if runs > 1 else '')


def harnesses(tier):
    n = 5 if tier == 'quick' else 8
    return [H('any_T_dt_t0', h_run, budget=200, nmax=n),
            H('from_zero', h_run, budget=150, nmax=n, zero_t0=True),
            H('multiples', h_run, budget=150, nmax=n, multiple=True),
            H('two_runs', h_run, budget=200, nmax=2 if tier == 'quick' else 4, runs=2),
            H('group_order', h_run, budget=100, nmax=2, order=(5, 2))]
