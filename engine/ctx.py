"""Harness contexts: one symbolic, one concrete, same interface."""
import math
import os
import numpy as np


class Ctx:
    symbolic = False
    tier = 'quick'

    # ---- shared helpers -------------------------------------------------
    def arr(self, name, shape, lo=-8.0, hi=8.0, dtype=None):
        """array of independent reals"""
        if isinstance(shape, int):
            shape = (shape,)
        vals = []
        for i in np.ndindex(*shape):
            vals.append(self.real(name + '_' + '_'.join(map(str, i)), lo, hi))
        a = self.xp.array(vals, dtype=dtype or self.xp.float64)
        return a.reshape(shape)

    def const(self, x, dtype=None):
        return self.xp.array(x, dtype=dtype or self.xp.float64)

    def pick(self, name, options):
        """one of finitely many options (forks symbolically)"""
        options = list(options)
        k = self.int(name, 0, len(options) - 1)
        return options[self.index(k)]

    def flag(self, name):
        return self.pick(name, [False, True])

    def pickint(self, name, lo, hi):
        return self.index(self.int(name, lo, hi))

    def double_precision(self):
        """scalar arithmetic from here on carries IEEE rounding errors in the encoding"""

    def path(self, name):
        """file name inside the scratch directory of this run"""
        return os.path.join(self.tmp, name)

    def close(self, a, b, label, tol=1e-4):
        raise NotImplementedError

    def equal(self, a, b, label):
        """exact equality of scalars / integer arrays"""
        raise NotImplementedError


def flat(x):
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray).reshape(-1).tolist()
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r.extend(flat(y))
        return r
    return [x]


def shape_of(x):
    if isinstance(x, np.ndarray):
        return tuple(x.shape)
    if isinstance(x, (list, tuple)):
        return (len(x),) + (shape_of(x[0]) if len(x) and isinstance(x[0], (list, tuple, np.ndarray)) else ())
    return ()


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, engine, tier='quick'):
        from . import sym, shim
        self.e = engine
        self.sym = sym
        self.xp = shim.shim
        self.tier = tier

    def real(self, name, lo=-8.0, hi=8.0):
        return self.e.real(name, lo, hi)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return self.e.int(name, lo, hi)

    def double_precision(self):
        self.sym.S.fp = True

    def nearest_double(self, x):
        return self.sym.fpr(x)

    def text(self, name, options):
        from .symstr import SymStr
        k = self.e.int(name, 0, len(options) - 1)
        return SymStr(k, options), k

    def index(self, k):
        return self.e.enumerate_int(k) if self.sym.is_sym(k) else int(k)

    def boolean(self, name):
        k = self.e.int(name, 0, 1)
        return k == 1

    def assume(self, c):
        self.e.assume(_one(c))

    def check(self, c, label):
        self.e.check(_one(c), label)

    def decide(self, c):
        return bool(c)

    def And(self, *a): return self.sym.sb_and(*[_one(x) for x in a])
    def Or(self, *a): return self.sym.sb_or(*[_one(x) for x in a])
    def Not(self, a): return self.sym.sb_not(_one(a))
    def ite(self, c, a, b): return self.sym.ite(self.sym.tobool(_one(c)), a, b)
    def sqrt(self, x): return self.sym.s_sqrt(x)
    def exp(self, x): return self.sym.s_exp(x)
    def cos(self, x): return self.sym.s_trig(x, 'cos')
    def sin(self, x): return self.sym.s_trig(x, 'sin')
    def floor(self, x): return self.sym.floor_(x)
    def abs(self, x): return self.sym.s_abs(x)
    def toint(self, x): return self.sym.trunc(x)

    def close(self, a, b, label, tol=1e-4):
        sa, sb = shape_of(a), shape_of(b)
        if sa != sb and sb != () and not (sorted(sa) == [1] and sb == ()):
            self.e.check(False, f'{label}: shape {sa} instead of {sb}')
            return
        fa, fb = flat(a), flat(b)
        if len(fb) == 1 and len(fa) != 1:
            fb = fb * len(fa)
        s = self.sym
        for i, (x, y) in enumerate(zip(fa, fb)):
            lab = label if len(fa) == 1 else f'{label}[{i}]'
            if x is None or y is None:
                self.e.check(x is y, lab)
                continue
            if s.is_complexnum(x) or s.is_complexnum(y):
                (xr, xi), (yr, yi) = s.re_im(x), s.re_im(y)
                self._close1(xr, yr, lab, tol)
                self._close1(xi, yi, lab, tol)
            else:
                self._close1(x, y, lab, tol)

    def _close1(self, x, y, lab, tol):
        s = self.sym
        nx, ny = s.isnonfinite(x), s.isnonfinite(y)
        if nx or ny:
            same = nx and ny and (x == y or (x != x and y != y))
            self.e.check(bool(same), lab)
            return
        if s.is_num(x) and s.is_num(y):
            self.e.check(abs(float(x) - float(y)) <= tol * (1 + abs(float(y))), lab)
            return
        lo, hi = s.interval(y)
        scale = 1.0
        d = s.s_sub(x, y)
        if not s.is_sym(d):
            self.e.check(abs(float(d)) <= tol, lab)
            return
        self.e.check(s.sb_and(s.s_cmp(d, tol * scale, 'le'), s.s_cmp(-tol * scale, d, 'le')), lab)

    def equal(self, a, b, label):
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb):
            self.e.check(False, f'{label}: {len(fa)} values instead of {len(fb)}')
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            r = (x == y) if not (x is None or y is None) else (x is y)
            self.e.check(_one(r), label if len(fa) == 1 else f'{label}[{i}]')

    def note(self, s):
        if s not in self.e.notes:
            self.e.notes.append(s)


def _one(c):
    if isinstance(c, np.ndarray):
        if c.size != 1:
            raise ValueError('condition must be scalar')
        return c.view(np.ndarray).reshape(-1)[0]
    return c


class AssumeFailed(BaseException):
    pass


class ConcCtx(Ctx):
    """runs a harness on given input values against the unmodified code"""

    def __init__(self, values, tier='quick', seed=0):
        import random
        self.values = values
        self.xp = np
        self.tier = tier
        self.failed = []
        self.n_checks = 0
        self.rng = random.Random(seed)
        self.used = {}

    def _val(self, name, lo, hi, isint):
        if name in self.values:
            v = min(max(self.values[name], lo), hi)
        else:
            # input not fixed by the model: any value in range
            v = self.rng.randint(int(lo), int(hi)) if isint else self.rng.uniform(lo, hi)
        self.used[name] = v
        return v

    def real(self, name, lo=-8.0, hi=8.0):
        return float(self._val(name, lo, hi, False))

    def int(self, name, lo, hi):
        return int(self._val(name, lo, hi, True))

    def index(self, k): return int(k)
    def nearest_double(self, x): return float(x)

    def text(self, name, options):
        k = self.int(name, 0, len(options) - 1)
        return options[k], k

    def boolean(self, name): return self.int(name, 0, 1) == 1

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed()

    def check(self, c, label):
        self.n_checks += 1
        if not bool(c):
            self.failed.append(label)

    def decide(self, c): return bool(c)
    def And(self, *a): return all(bool(x) for x in a)
    def Or(self, *a): return any(bool(x) for x in a)
    def Not(self, a): return not bool(a)
    def ite(self, c, a, b): return a if bool(c) else b
    def sqrt(self, x): return math.sqrt(x)
    def exp(self, x): return math.exp(x)
    def cos(self, x): return math.cos(x)
    def sin(self, x): return math.sin(x)
    def floor(self, x): return math.floor(x)
    def abs(self, x): return abs(x)
    def toint(self, x): return int(x)

    def close(self, a, b, label, tol=1e-4):
        sa, sb = shape_of(a), shape_of(b)
        self.n_checks += 1
        if sa != sb and sb != () and not (sorted(sa) == [1] and sb == ()):
            self.failed.append(f'{label}: shape {sa} instead of {sb}')
            return
        fa, fb = flat(a), flat(b)
        if len(fb) == 1 and len(fa) != 1:
            fb = fb * len(fa)
        for i, (x, y) in enumerate(zip(fa, fb)):
            lab = label if len(fa) == 1 else f'{label}[{i}]'
            if x is None or y is None:
                if x is not y:
                    self.failed.append(lab)
                continue
            if isinstance(x, complex) or isinstance(y, complex):
                ok = abs(complex(x) - complex(y)) <= 0.7 * tol + 2e-6 * abs(y)
            else:
                x, y = float(x), float(y)
                if not math.isfinite(x) or not math.isfinite(y):
                    ok = (x == y) or (x != x and y != y)
                else:
                    ok = abs(x - y) <= 0.7 * tol + 2e-6 * abs(y)
            if not ok:
                self.failed.append(f'{lab} ({x!r} instead of {y!r})')

    def equal(self, a, b, label):
        fa, fb = flat(a), flat(b)
        self.n_checks += 1
        if len(fa) != len(fb):
            self.failed.append(f'{label}: {len(fa)} values instead of {len(fb)}')
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            ok = (x is y) if (x is None or y is None) else bool(x == y)
            if not ok:
                self.failed.append(f'{label if len(fa) == 1 else f"{label}[{i}]"} ({x!r} instead of {y!r})')

    def note(self, s):
        pass
