"""Harness registry shared by the symbolic runner and the concrete replayer."""
import importlib
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class H:
    """one harness instance: fn(ctx, **params)"""

    def __init__(self, name, fn, budget=60, max_paths=1500, assert_timeout=8000, models=24, **params):
        self.name = name
        self.fn = fn
        self.params = params
        self.budget = budget
        self.max_paths = max_paths
        self.assert_timeout = assert_timeout
        self.models = models


def module(pid):
    return importlib.import_module('harness.' + pid.lower())


def instances(pid, tier):
    m = module(pid)
    hs = m.harnesses(tier)
    names = [h.name for h in hs]
    assert len(set(names)) == len(names), 'duplicate harness names'
    return hs


def classify(exc, repo):
    """was an exception raised by the code under test or by a harness whose assumptions
    about internal names no longer hold?"""
    frames = traceback.extract_tb(exc.__traceback__)
    side = 'repo'
    for f in frames:
        fn = os.path.abspath(f.filename)
        if fn.startswith(os.path.join(repo, '')):
            side = 'repo'
        elif fn.startswith(os.path.join(ROOT, 'harness')):
            side = 'harness'
        # engine/library frames belong to whoever called them
    t = type(exc).__name__
    if side == 'harness':
        if isinstance(exc, (AttributeError, ImportError, NameError)):
            return 'api'
        if isinstance(exc, TypeError) and ('argument' in str(exc)):
            return 'api'
    return side


def short_tb(exc, repo):
    out = []
    for f in traceback.extract_tb(exc.__traceback__)[-6:]:
        out.append(f'{f.filename}:{f.lineno} in {f.name}')
    return out
