"""Concrete replay: runs harnesses on given input values against the unpatched code.

usage: conc.py jobs.json out.json        (jobs: [{pid, tier, harness, values}])
Every job runs in its own forked process with its own scratch directory.
"""
import contextlib
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import load, common, ctx  # noqa: E402

JOB_TIMEOUT = 40


def run_one(job, scratch):
    seed = int(job.get('seed', 1))
    random.seed(seed)
    import numpy as np
    np.random.seed(seed & 0x7fffffff)
    hs = {h.name: h for h in common.instances(job['pid'], job['tier'])}
    h = hs.get(job['harness'])
    if h is None:
        return dict(error='no such harness')
    os.chdir(scratch)
    c = ctx.ConcCtx(job['values'], job['tier'], seed)
    c.tmp = scratch
    res = dict(failed=[], exc=None, exc_kind=None, assume_failed=False)
    try:
        h.fn(c, **h.params)
    except ctx.AssumeFailed:
        res['assume_failed'] = True
    except Exception as e:
        res['exc'] = f'{type(e).__name__}: {e}'
        res['exc_kind'] = common.classify(e, load.REPO)
        res['tb'] = common.short_tb(e, load.REPO)
    res['failed'] = c.failed[:20]
    res['n_checks'] = c.n_checks
    res['used'] = c.used
    return res


def clean(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def main():
    jobs = json.load(open(sys.argv[1]))
    out = sys.argv[2]
    deadline = float(sys.argv[3]) if len(sys.argv) > 3 else 1e18
    base = tempfile.mkdtemp(prefix='verif-conc-')
    load.load_concrete()
    for pid in sorted({j['pid'] for j in jobs}):
        common.module(pid)
    devnull = os.open(os.devnull, os.O_WRONLY)
    live = {}
    results = [None] * len(jobs)
    todo = list(range(len(jobs)))
    try:
        while todo or live:
            while todo and len(live) < 8:
                k = todo.pop(0)
                if time.time() > deadline:
                    results[k] = dict(error='not run: time')
                    continue
                d = os.path.join(base, str(k))
                os.mkdir(d)
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.setpgid(0, 0)
                        os.dup2(devnull, 1)
                        os.dup2(devnull, 2)
                        signal.alarm(JOB_TIMEOUT)
                        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                        r = run_one(jobs[k], d)
                        with open(d + '.json', 'w') as f:
                            json.dump(clean(r), f)
                        code = 0
                    except BaseException as e:   # noqa
                        try:
                            with open(d + '.json', 'w') as f:
                                json.dump(dict(error=f'{type(e).__name__}: {e}'), f)
                        except Exception:
                            pass
                    finally:
                        os._exit(code)
                live[pid] = (k, d)
            if not live:
                continue
            pid, st = os.wait()
            if pid in live:
                k, d = live.pop(pid)
                try:
                    results[k] = json.load(open(d + '.json'))
                except Exception:
                    results[k] = dict(error=f'died with status {st}')
                shutil.rmtree(d, ignore_errors=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    json.dump(results, open(out, 'w'))


if __name__ == '__main__':
    main()
