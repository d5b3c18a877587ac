#!/opt/venv/bin/python
"""Decide one property: symbolic execution of the real code + z3, then concrete replay.

check.py C01 [--tier quick|thorough] [--only SUBSTR] [-v]
check.py --replay FILE
"""
import argparse
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from engine import load, common  # noqa: E402

NPROC = 8


def worker(h, tier, seed, budget, outpath):
    """run one harness instance symbolically (in a forked process)"""
    import random
    from engine import path, ctx, stubs, sym
    random.seed(seed)
    t0 = time.time()
    calls = {}
    repo = os.path.join(load.REPO, 'specula')
    mon = sys.monitoring
    tool = mon.PROFILER_ID

    def on_start(code, off):
        if not code.co_filename.startswith(repo):
            return mon.DISABLE
        calls[code] = calls.get(code, 0) + 1

    mon.use_tool_id(tool, 'verif')
    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)
    e = path.Engine(seed=seed, budget_s=budget, max_paths=h.max_paths, assert_timeout=h.assert_timeout,
                    max_models=h.models)
    scratch = tempfile.mkdtemp(prefix='verif-sym-')
    os.chdir(scratch)

    def mk(eng):
        stubs.FakeFits.reset()
        stubs.FakePickle.reset()
        c = ctx.SymCtx(eng, tier)
        c.tmp = scratch
        for f in os.listdir(scratch):
            p = os.path.join(scratch, f)
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
        return c
    sys.setrecursionlimit(20000)
    try:
        e.run(lambda c: h.fn(c, **h.params), mk)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    fns = sorted({f'{os.path.relpath(c.co_filename, load.REPO)}:{c.co_qualname}' for c in calls})
    r = dict(name=h.name, paths=e.n_paths, infeasible=e.n_infeasible, queries=e.n_queries, unsat=e.n_unsat,
             sat=e.n_sat, unknown=e.n_unknown, branches=e.n_branches, asserts=e.n_asserts,
             trivial=e.n_asserts_trivial, solver_s=round(e.solver_time, 3), concretized=e.concretized,
             ufs=sorted(e.ufs), labels=e.labels, ces=e.ces, path_models=e.path_models,
             undecided=e.unknown_asserts[:50], n_undecided=len(e.unknown_asserts), gaps=e.gaps[:20],
             n_gaps=len(e.gaps), complete=e.complete, notes=e.notes, functions=fns, calls=sum(calls.values()),
             wall_s=round(time.time() - t0, 2))
    with open(outpath, 'w') as f:
        json.dump(r, f, default=lambda x: float(x) if hasattr(x, '__float__') else repr(x))


def run_symbolic(hs, tier, seed, verbose, deadline):
    load_t = time.time()
    mods, failed = load.load_symbolic()
    base = tempfile.mkdtemp(prefix='verif-run-')
    devnull = os.open(os.devnull, os.O_WRONLY)
    results = {}
    live = {}
    todo = list(enumerate(hs))
    todo.sort(key=lambda t: -t[1].budget)
    try:
        while todo or live:
            while todo and len(live) < NPROC:
                k, h = todo.pop(0)
                out = os.path.join(base, f'{k}.json')
                budget = min(h.budget, max(5.0, deadline - time.time() - 15))
                if time.time() > deadline - 5:
                    results[k] = dict(name=h.name, error='not run: time budget of the check exhausted')
                    continue
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.setpgid(0, 0)
                        if not verbose:
                            os.dup2(devnull, 1)
                            os.dup2(devnull, 2)
                        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                        worker(h, tier, seed, budget, out)
                        code = 0
                    except BaseException as e:   # noqa
                        import traceback
                        traceback.print_exc()
                        try:
                            with open(out, 'w') as f:
                                json.dump(dict(name=h.name, error=f'{type(e).__name__}: {e}'), f)
                        except Exception:
                            pass
                    finally:
                        sys.stdout.flush()
                        os._exit(code)
                live[pid] = (k, h, out, time.time() + budget + 45)
            if not live:
                break
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (k, h, out, end) in live.items():
                    if now > end:
                        try:
                            os.killpg(p, signal.SIGKILL)
                        except ProcessLookupError:
                            try:
                                os.kill(p, signal.SIGKILL)
                            except ProcessLookupError:
                                pass
                time.sleep(0.02)
                continue
            if pid in live:
                k, h, out, end = live.pop(pid)
                try:
                    results[k] = json.load(open(out))
                except Exception:
                    results[k] = dict(name=h.name, error=f'worker ended with status {st} (killed after its time or memory)')
    finally:
        for p in live:
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
        shutil.rmtree(base, ignore_errors=True)
    return [results[k] for k in sorted(results)], failed


def run_conc(jobs, deadline):
    if not jobs:
        return []
    d = tempfile.mkdtemp(prefix='verif-jobs-')
    try:
        ji, jo = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        json.dump(jobs, open(ji, 'w'))
        p = subprocess.run([sys.executable, '-B', os.path.join(ROOT, 'engine', 'conc.py'), ji, jo, str(deadline)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=max(60, deadline - time.time() + 90))
        if not os.path.exists(jo):
            raise RuntimeError('concrete replay failed: ' + p.stdout.decode()[-2000:])
        return json.load(open(jo))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bad(r):
    """labels violated in a concrete run (None: held)"""
    if r is None or r.get('error'):
        return None
    if r.get('exc') and r.get('exc_kind') != 'api':
        return [f'unexpected {r["exc"]}'] + r.get('failed', [])
    return r['failed'] or None


def jitter(values, rng, k):
    out = {}
    for n, v in values.items():
        if isinstance(v, float):
            out[n] = v + rng.uniform(-1, 1) * (1e-3 if k % 2 else 1e-2) * max(1.0, abs(v))
        else:
            out[n] = v
    return out


def load_known(pid):
    try:
        ks = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    except FileNotFoundError:
        return []
    return [k for k in ks.get('findings', []) if k['property'] == pid]


def match_known(known, harness, labels):
    """the finding that covers every violated label, if any"""
    for k in known:
        if re.fullmatch(k['harness'], harness) and all(re.search(k['labels'], l) for l in labels):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    load.prepare()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    total = 800 if a.tier == 'quick' else 5400
    deadline = t0 + total * 0.8
    pid = a.pid.upper()
    mod = common.module(pid)
    hs = common.instances(pid, a.tier)
    if a.only:
        hs = [h for h in hs if re.search(a.only, h.name)]
    res, import_failed = run_symbolic(hs, a.tier, seed, a.v, deadline)
    byname = {h.name: h for h in hs}

    # ---- concrete replay of counterexamples and of one model per path
    import random
    rng = random.Random(seed)
    jobs, meta = [], []
    for r in res:
        for ce in r.get('ces', []):
            jobs.append(dict(pid=pid, tier=a.tier, harness=r['name'], values=ce['values'], seed=seed))
            meta.append(('ce', r, ce))
            for k in range(4):
                jobs.append(dict(pid=pid, tier=a.tier, harness=r['name'], values=jitter(ce['values'], rng, k), seed=seed + k))
                meta.append(('near', r, ce))
        for pm in r.get('path_models', []):
            jobs.append(dict(pid=pid, tier=a.tier, harness=r['name'], values=pm['values'], seed=seed))
            meta.append(('path', r, pm))
    # undecided assertions and encoding gaps: replay some concrete inputs as a smoke test (not part of the verdict)
    conc = run_conc(jobs, t0 + total)

    known = load_known(pid)
    violations, known_hit = [], {}
    validated = 0
    api_gaps, unreproduced, conc_errors = [], [], []
    ce_state = {}
    for job, (kind, r, src), cr in zip(jobs, meta, conc):
        if cr is None or cr.get('error'):
            conc_errors.append(f"{r['name']}: {cr and cr.get('error')}")
            continue
        if cr.get('exc_kind') == 'api':
            api_gaps.append(f"{r['name']}: {cr['exc']}")
            continue
        b = bad(cr)
        if kind == 'path':
            if not cr.get('assume_failed') and not b:
                validated += 1
        else:
            ce_state.setdefault(id(src), [r, src, False])
            if b:
                ce_state[id(src)][2] = True
        if b:
            k = match_known(known, r['name'], b)
            if k is not None:
                known_hit.setdefault(k['id'], (k, r['name'], b))
                continue
            violations.append(dict(property=pid, tier=a.tier, harness=r['name'], values=job['values'], seed=job['seed'],
                                   violated=b, predicted=src.get('labels'), kind=kind, tb=cr.get('tb')))
    for r, src, ok in ce_state.values():
        if not ok:
            unreproduced.append(dict(harness=r['name'], labels=src.get('labels'), values=src['values'],
                                     exception=src.get('exception'), consistent=src.get('consistent')))

    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(rdir, f))
    seen = set()
    out_v = []
    for v in violations:
        key = (v['harness'], re.sub(r'\[.*|\(.*', '', v['violated'][0]))
        if key in seen:
            continue
        seen.add(key)
        p = os.path.join(rdir, f'{pid}-{len(out_v) + 1}.json')
        json.dump(v, open(p, 'w'), indent=1)
        out_v.append((v, p))
        if len(out_v) >= 10:
            break

    # ---- vacuity / decidedness
    errors = [f"{r['name']}: {r['error']}" for r in res if r.get('error')]
    vac = [r['name'] for r in res if not r.get('error') and not r.get('labels') and not r.get('gaps')]
    unrep = {u['harness'] for u in unreproduced}
    und = [r['name'] for r in res if r.get('error') or r.get('n_gaps') or r.get('n_undecided') or not r.get('complete', False)
           or r['name'] in unrep]

    ok = [r for r in res if not r.get('error')]
    fns = sorted({f for r in ok for f in r['functions']})
    samples = []
    for r in ok:
        if r['path_models']:
            samples.append(dict(harness=r['name'], path_model=r['path_models'][0]['values']))
        if len(samples) >= 6:
            break
    wall = time.time() - t0
    cov = dict(
        explanation='symbolic execution of the current source of the functions listed; every assertion on every '
                    'explored path decided by z3 over all input values within the bounds',
        states=sum(r['paths'] for r in ok),
        transitions=sum(r['calls'] for r in ok),
        states_are='symbolic execution paths completed', transitions_are='calls of repository functions on symbolic state',
        traces_validated_against_impl=validated,
        samples=samples,
        harness_instances=len(hs),
        exhaustive_within_bounds=not und,
        instances=[dict(name=r['name'], paths=r['paths'], queries=r['queries'], assertions=r['asserts'],
                        folded_to_true_by_normal_form=r['trivial'], solver_s=r['solver_s'], wall_s=r['wall_s'],
                        complete=r['complete'] and not r['n_gaps'] and not r['n_undecided'],
                        undecided=r['n_undecided'], gaps=r['gaps'][:3], concretized=r['concretized'],
                        uninterpreted=r['ufs']) for r in ok],
        queries=sum(r['queries'] for r in ok), unsat=sum(r['unsat'] for r in ok), sat=sum(r['sat'] for r in ok),
        unknown=sum(r['unknown'] for r in ok),
        assertions=sum(r['asserts'] for r in ok), assertions_folded=sum(r['trivial'] for r in ok),
        branches=sum(r['branches'] for r in ok),
        solver_s=round(sum(r['solver_s'] for r in ok), 2),
        assertion_labels=sorted({re.sub(r'\[.*', '', l) for r in ok for l in r['labels']}),
        functions_encoded=fns,
        bounds=getattr(mod, 'BOUNDS', ''), outside=getattr(mod, 'OUTSIDE', ''),
        undecided=und, errors=errors, unreproduced=unreproduced[:10], api_gaps=sorted(set(api_gaps))[:10],
        replay_errors=conc_errors[:10], known_findings=[k for k in known_hit],
    )
    ev = dict(property=pid, tier=a.tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=BASE_ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(wall, 2), violations=len(out_v))
    if not a.no_evidence:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w'), indent=1)

    for r in res:
        if r.get('error'):
            print(f"  {r['name']:32s} ERROR {r['error']}")
            continue
        flag = '' if r['complete'] and not r['n_gaps'] and not r['n_undecided'] else ' INCOMPLETE'
        print(f"  {r['name']:32s} paths={r['paths']} asserts={r['asserts']} queries={r['queries']} "
              f"solver={r['solver_s']}s wall={r['wall_s']}s ces={len(r['ces'])}{flag}"
              + (f" undecided={r['undecided'][:3]}" if r['n_undecided'] else '')
              + (f" gaps={sorted(set(r['gaps']))[:3]}" if r['gaps'] else ''))
    for e in sorted(set(conc_errors))[:5]:
        print('  replay error:', e)
    for e in sorted(set(api_gaps))[:5]:
        print('  api gap:', e)
    for u in unreproduced[:5]:
        print('  INCONCLUSIVE not reproduced:', u['harness'], u['labels'], json.dumps(u['values'])[:200 if not a.v else 2000])
        if u['exception']:
            print('      ' + '\n      '.join(x.strip() for x in u['exception'].strip().split('\n')[-(20 if a.v else 5):]))
    print(f'{pid}: {len(res)} instances, {cov["states"]} paths, {validated} path models validated, '
          f'{len(und)} not fully decided, {wall:.1f}s')
    for k, (f, hn, b) in known_hit.items():
        print(f"KNOWN-FINDING: property={pid} {k}: {f['what']}")
    for v, p in out_v:
        print(f'VIOLATION property={pid} replay={p}')
        print('   harness', v['harness'], 'violated:', '; '.join(map(str, v['violated'][:4])))
        if a.v:
            print('   tb', v['tb'], 'values', v['values'])
    if out_v:
        return 1
    if vac and not und:
        print('ERROR: vacuous harnesses:', vac)
        return 3
    if res and len([n for n in und]) >= len(res) and (errors and len(errors) == len(res)):
        print('ERROR: nothing could be decided')
        return 3
    if not res or all(r.get('error') or not r.get('labels') for r in res):
        print('ERROR: no assertion was reached')
        return 3
    return 0


BASE_ASSUMPTIONS = [
    'real arithmetic stands for floating point inside the encoding; assertions carry a tolerance and every '
    'counterexample (and one model per path) is replayed in floating point on the unmodified code',
    'numpy/scipy operations are replaced by the symbolic facade engine/shim.py (validated by the path-model replays)',
    'CPU execution (numpy); GPU (cupy) code paths are not encoded',
]


def replay(p):
    v = json.load(open(p))
    job = dict(pid=v['property'], tier=v.get('tier', 'quick'), harness=v['harness'], values=v['values'], seed=v.get('seed', 1))
    r = run_conc([job], time.time() + 300)[0]
    print(json.dumps(r, indent=1))
    b = bad(r)
    if b:
        print(f"VIOLATION property={v['property']} replay={p}")
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
