"""Symbolic scalars.

SR  - real/integer term: rational function over atoms with exact rational
      coefficients (numerator polynomial, factored denominator).
SB  - boolean term.
SC  - complex term (pair of real terms / floats).

Atoms are the symbolic inputs plus terms introduced for non-polynomial
operations, each with its defining constraints (added to every solver query that
mentions it).  Everything here is exact over the reals; concrete float operands
enter as the exact rational they denote.
"""
import math
import numbers
from fractions import Fraction
import numpy as np
import z3

INF = float('inf')


class Unsupported(BaseException):
    """The encoding cannot represent an operation the code performs."""


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'name', 'isint', 'lo', 'hi', 'defs', 'sq', 'ev', 'z', 'kind', 'isinput')

    def __init__(self, id, name, isint=False, lo=-INF, hi=INF, kind='input'):
        self.id = id; self.name = name; self.isint = isint
        self.lo = lo; self.hi = hi
        self.defs = []      # list of SB (definitional constraints)
        self.sq = None      # polynomial equal to atom**2 (rewrite rule)
        self.ev = None      # numeric evaluator: f(env) -> float
        self.z = None
        self.kind = kind
        self.isinput = kind == 'input'


class State:
    """Per-path symbolic state."""
    def __init__(self):
        self.atoms = []
        self.memo = {}
        self.sqset = set()
        self.pairs = {}
        self.engine = None
        self.fp = False

    def new_atom(self, name, isint=False, lo=-INF, hi=INF, kind='input'):
        a = Atom(len(self.atoms), name, isint, lo, hi, kind)
        self.atoms.append(a)
        return a


S = State()


def reset_state(engine):
    S.atoms = []
    S.memo = {}
    S.sqset = set()
    S.pairs = {}          # products of two atoms that are known polynomials
    S.nonneg = set()      # polynomials that are sums of squares
    S.facts = []          # polynomials assumed to be >= 0
    S.pos = set()         # ... and not zero on this path
    S.engine = engine
    S.fp = False


# ------------------------------------------------------------------ polynomials (dict mono->coef)
ONE = ((), )


def norm_num(x):
    """python/numpy real number -> int or Fraction (exact)"""
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return x if x.denominator != 1 else x.numerator
    f = Fraction(float(x))
    return f if f.denominator != 1 else f.numerator


def pconst(c):
    return {(): c} if c != 0 else {}


def padd(a, b, sb=1):
    if len(a) < len(b) and sb == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if sb == 1 else -c if sb == -1 else c * sb)
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def _pair(mono):
    """positions of the two factors of a known product"""
    for i, a in enumerate(mono):
        w = S.pairs.get(a)
        if w:
            for j, b in enumerate(mono):
                if b in w:
                    return i, j
    return None


def _rewrite(mono):
    """apply square and product rules to a raw (sorted) monomial -> polynomial"""
    sq = S.sqset
    if S.pairs:
        ij = _pair(mono)
        if ij:
            rest = tuple(a for k, a in enumerate(mono) if k not in ij)
            return pmul(S.pairs[mono[ij[0]]][mono[ij[1]]], _rewrite(rest))
    for i in range(len(mono) - 1):
        if mono[i] == mono[i + 1] and mono[i] in sq:
            rest = mono[:i] + mono[i + 2:]
            return pmul(S.atoms[mono[i]].sq, _rewrite(rest))
    return {mono: 1}


MAXTERMS = 60000


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return pscale(b, a[()])
    if len(b) == 1 and () in b:
        return pscale(a, b[()])
    if len(a) * len(b) > MAXTERMS * 8:
        raise Unsupported('polynomial too large')
    r = {}
    sq = S.sqset
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            c = c1 * c2
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                m = tuple(sorted(m1 + m2))
                if sq:
                    dup = S.pairs and _pair(m) is not None
                    for i in range(len(m) - 1):
                        if m[i] == m[i + 1] and m[i] in sq:
                            dup = True
                            break
                    if dup:
                        for mm, cc in _rewrite(m).items():
                            v = r.get(mm, 0) + cc * c
                            if v == 0:
                                r.pop(mm, None)
                            else:
                                r[mm] = v
                        continue
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > MAXTERMS:
        raise Unsupported('polynomial too large')
    return r


def pkey(a):
    return frozenset(a.items())


def pinterval(p):
    """sound interval of a polynomial under atom bounds (python floats, slightly widened)"""
    lo = hi = 0.0
    for m, c in p.items():
        l, h = 1.0, 1.0
        i = 0
        n = len(m)
        while i < n:
            a = S.atoms[m[i]]
            e = 1
            while i + e < n and m[i + e] == m[i]:
                e += 1
            al, ah = a.lo, a.hi
            if e > 1:
                if e % 2 == 0:
                    if al >= 0:
                        al, ah = _pw(al, e), _pw(ah, e)
                    elif ah <= 0:
                        al, ah = _pw(ah, e), _pw(al, e)
                    else:
                        al, ah = 0.0, max(_pw(al, e), _pw(ah, e))
                else:
                    al, ah = _pw(al, e), _pw(ah, e)
            l, h = _imul(l, h, al, ah)
            i += e
        cf = float(c)
        if cf >= 0:
            l, h = _m(l, cf), _m(h, cf)
        else:
            l, h = _m(h, cf), _m(l, cf)
        lo += l
        hi += h
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    return lo, hi


def _pw(x, e):
    if x in (INF, -INF):
        return INF if (x > 0 or e % 2 == 0) else -INF
    return x ** e


def _m(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def _imul(a, b, c, d):
    v = (_m(a, c), _m(a, d), _m(b, c), _m(b, d))
    return min(v), max(v)


def pisint(p):
    for m, c in p.items():
        if not isinstance(c, int):
            return False
        for i in m:
            if not S.atoms[i].isint:
                return False
    return True


# ------------------------------------------------------------------ helpers
def is_sym(x):
    return isinstance(x, (SR, SB, SC))


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, Fraction, bool, np.bool_))


def isnonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def _fold(n, d, isint):
    """constant folding; returns python number if constant"""
    if not d and (not n or (len(n) == 1 and () in n)):
        c = n.get((), 0)
        if isint and isinstance(c, int):
            return c
        return float(c)
    return None


def make(n, d=(), isint=False):
    c = _fold(n, d, isint)
    if c is not None:
        return c
    if not n:
        return 0.0
    return SR(n, d, isint)


def as_parts(x):
    """-> (num poly, den tuple, isint) or None for unsupported"""
    if isinstance(x, SR):
        return x.n, x.d, x.isint
    if isinstance(x, SB):
        r = x.as_int()
        if isinstance(r, SR):
            return r.n, r.d, True
        return pconst(int(r)), (), True
    if isinstance(x, (bool, np.bool_)):
        return pconst(int(x)), (), True
    if isinstance(x, (int, np.integer)):
        return pconst(int(x)), (), True
    if isinstance(x, (float, np.floating, Fraction)):
        return pconst(norm_num(x)), (), False
    return None


# denominators: tuple of (polydict, key, exp), sorted by insertion
def den_poly(d):
    r = {(): 1}
    for p, k, e in d:
        for _ in range(e):
            r = pmul(r, p)
    return r


def den_mul(d1, d2):
    if not d1:
        return d2
    if not d2:
        return d1
    r = {k: [p, k, e] for p, k, e in d1}
    for p, k, e in d2:
        if k in r:
            r[k][2] += e
        else:
            r[k] = [p, k, e]
    return tuple(tuple(v) for v in r.values())


def den_lcm(d1, d2):
    """-> lcm, mult1, mult2 (polys by which numerators are multiplied)"""
    if d1 is d2 or not d1 and not d2:
        return d1, None, None
    r = {k: [p, k, e] for p, k, e in d1}
    m1 = {(): 1}
    m2 = {(): 1}
    e1 = {k: e for p, k, e in d1}
    e2 = {k: e for p, k, e in d2}
    for p, k, e in d2:
        have = e1.get(k, 0)
        if k in r:
            r[k][2] = max(have, e)
        else:
            r[k] = [p, k, e]
        for _ in range(max(0, e - have)):
            m1 = pmul(m1, p)
    for p, k, e in d1:
        for _ in range(max(0, e - e2.get(k, 0))):
            m2 = pmul(m2, p)
    return tuple(tuple(v) for v in r.values()), m1, m2


def cancel(n, d):
    """cheap cancellation: numerator proportional to a denominator factor"""
    if not d or not n:
        return n, (d if n else ())
    changed = True
    while changed and d:
        changed = False
        for i, (p, k, e) in enumerate(d):
            q = None
            if len(p) == len(n):
                m0 = next(iter(p))
                if m0 in n:
                    ratio = Fraction(n[m0]) / p[m0]
                    if all(m in n and n[m] == c * ratio for m, c in p.items()):
                        q = pconst(norm_num(ratio))
            if q is None and len(p) == 1:
                # single-term factor: monomial division
                (m0, c0), = p.items()
                if m0 and all(_mdiv(m, m0) is not None for m in n):
                    q = {_mdiv(m, m0): norm_num(Fraction(c) / c0) for m, c in n.items()}
            if q is None and len(n) <= 400 and len(p) <= 64:
                q = pdivexact(n, p)
            if q is not None:
                n = q
                d = d[:i] + (((p, k, e - 1),) if e > 1 else ()) + d[i + 1:]
                changed = True
                break
    return n, d


def _mdiv(m, q):
    r = list(m)
    for x in q:
        if x in r:
            r.remove(x)
        else:
            return None
    return tuple(r)


def pdivexact(n, p):
    """exact multivariate division or None (lex order on monomials by (len, tuple))"""
    if len(p) < 2 or len(n) < len(p):
        return None
    key = lambda m: (len(m), m)
    lp = max(p, key=key)
    lc = p[lp]
    if S.sqset:
        # square rules make the ring a quotient: only attempt when none involved
        for m in p:
            for a in m:
                if a in S.sqset:
                    return None
    r = dict(n)
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > 200:
            return None
        lm = max(r, key=key)
        mq = _mdiv(lm, lp)
        if mq is None:
            return None
        c = norm_num(Fraction(r[lm]) / lc)
        q[mq] = c
        for m, cc in p.items():
            mm = tuple(sorted(m + mq))
            v = r.get(mm, 0) - cc * c
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = v
    return q


# ------------------------------------------------------------------ booleans
class SB:
    """kind: 'cmp' (poly, op in lt/le/eq), 'not', 'and', 'or', 'const' is never stored"""
    __slots__ = ('kind', 'p', 'op', 'args', '_k', '_z')
    __array_ufunc__ = None
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, kind, p=None, op=None, args=None):
        self.kind = kind; self.p = p; self.op = op; self.args = args
        self._k = None; self._z = None

    def key(self):
        if self._k is None:
            if self.kind == 'cmp':
                self._k = ('c', self.op, pkey(self.p))
            elif self.kind == 'z':
                self._k = ('z', self.op)
            else:
                self._k = (self.kind, tuple(a.key() for a in self.args))
        return self._k

    def __bool__(self):
        return S.engine.branch(self)

    def as_int(self):
        return ite(self, 1, 0)

    def __invert__(self):
        return sb_not(self)

    def __and__(self, o):
        return _arr2(self, o, sb_and) if isinstance(o, np.ndarray) else sb_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return _arr2(self, o, sb_or) if isinstance(o, np.ndarray) else sb_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return sb_or(sb_and(self, sb_not(o)), sb_and(sb_not(self), o))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SB, bool, np.bool_)):
            return sb_not(self ^ o)
        if is_num(o) or isinstance(o, SR):
            return s_cmp(self.as_int(), o, 'eq')
        return False

    def __ne__(self, o):
        return sb_not(self == o)

    def __hash__(self):
        return 12345

    def _num(self):
        return self.as_int()

    def __add__(self, o): return s_add(self._num(), o)
    __radd__ = __add__
    def __sub__(self, o): return s_sub(self._num(), o)
    def __rsub__(self, o): return s_sub(o, self._num())
    def __mul__(self, o): return s_mul(self, o)
    def __rmul__(self, o): return s_mul(o, self)
    def __truediv__(self, o): return s_div(self._num(), o)
    def __rtruediv__(self, o): return s_div(o, self._num())
    def __lt__(self, o): return s_cmp(self._num(), o, 'lt')
    def __le__(self, o): return s_cmp(self._num(), o, 'le')
    def __gt__(self, o): return s_cmp(o, self._num(), 'lt')
    def __ge__(self, o): return s_cmp(o, self._num(), 'le')
    def __int__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __index__(self): return int(bool(self))
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def astype(self, *a, **k): return self
    def item(self): return self
    def copy(self): return self
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __repr__(self):
        return f'SB({self.kind})'


def sb_cmp(p, op):
    """p op 0 with op in lt, le, eq"""
    if not p:
        return op in ('le', 'eq')
    if len(p) == 1 and () in p:
        c = p[()]
        return c < 0 if op == 'lt' else c <= 0 if op == 'le' else c == 0
    if S.nonneg:
        if _isknown(p, S.pos):
            return False
        if _isknown(p, S.pos, True):
            return op != 'eq'
        if op == 'lt' and _isknown(p, S.nonneg):
            return False
        if op == 'le' and _isknown(p, S.nonneg, True):
            return True
    lo, hi = pinterval(p)
    eps = 1e-9 * (1 + max(abs(lo) if lo > -INF else 0, abs(hi) if hi < INF else 0)) if (lo > -INF or hi < INF) else 0
    exact = pisint(p) and max(abs(lo), abs(hi)) < 2 ** 50
    if exact:
        eps = 0
    if op == 'lt':
        if hi < -eps or (exact and hi < 0):
            return True
        if lo > eps or (exact and lo >= 0) or (lo == 0 == _floorlo(p)):
            return False
    elif op == 'le':
        if hi < -eps or (exact and hi <= 0) or (hi == 0 == _floorhi(p)):
            return True
        if lo > eps:
            return False
    else:
        if hi < -eps or lo > eps:
            return False
    if S.facts and len(p) > 1:
        r = _byfacts(p, op)
        if r is not None:
            return r
    return SB('cmp', p, op)


def _lead(p):
    return max((m for m in p if m), key=lambda m: (abs(float(p[m])), len(m), m))


def learn(cond):
    """remember a linear combination of terms assumed to be positive"""
    if not isinstance(cond, SB):
        return
    if cond.kind == 'and':
        for x in cond.args:
            learn(x)
    elif cond.kind == 'cmp' and cond.op in ('lt', 'le') and 1 < len(cond.p) < 400 and len(S.facts) < 20:
        if sum(1 for m in cond.p if m) > 1:
            S.facts.append(pscale(cond.p, -1))


def _byfacts(p, op):
    """p op 0 decided by p + k F with one of the facts F >= 0, where k cancels the leading term"""
    for F in S.facts:
        m = _lead(F)
        if m not in p:
            continue
        k = -float(p[m]) / float(F[m])
        d = dict(p)
        for t, v in F.items():
            d[t] = float(d.get(t, 0)) + k * float(v)
        lo, hi = pinterval(d)
        eps = 1e-12 * (abs(k) * max(abs(float(v)) for v in F.values()) + max(abs(float(v)) for v in p.values()))
        # p = d - k F
        if k >= 0 and hi < -eps and op in ('lt', 'le', 'eq'):
            return op != 'eq'
        if k <= 0 and lo > eps:
            return False
    return None


def _floorlo(p):
    # every term individually >= 0 (so the bound 0 is exact)
    for m, c in p.items():
        lo, hi = pinterval({m: c})
        if lo < 0:
            return None
    return 0


def _floorhi(p):
    for m, c in p.items():
        lo, hi = pinterval({m: c})
        if hi > 0:
            return None
    return 0


def tobool(x):
    if isinstance(x, SB):
        return x
    if isinstance(x, SR):
        return s_cmp(x, 0, 'ne')
    if isinstance(x, SC):
        return sb_or(tobool(x.re), tobool(x.im))
    return bool(x)


def sb_not(a):
    a = tobool(a)
    if not isinstance(a, SB):
        return not a
    if a.kind == 'not':
        return a.args[0]
    if a.kind == 'cmp' and a.op in ('lt', 'le'):
        np_ = pscale(a.p, -1)
        return sb_cmp(np_, 'le' if a.op == 'lt' else 'lt')
    return SB('not', args=(a,))


def sb_and(*xs):
    out = []
    seen = set()
    for x in xs:
        x = tobool(x)
        if not isinstance(x, SB):
            if not x:
                return False
            continue
        for y in (x.args if x.kind == 'and' else (x,)):
            k = y.key()
            if k not in seen:
                seen.add(k)
                out.append(y)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SB('and', args=tuple(out))


def sb_or(*xs):
    out = []
    seen = set()
    for x in xs:
        x = tobool(x)
        if not isinstance(x, SB):
            if x:
                return True
            continue
        for y in (x.args if x.kind == 'or' else (x,)):
            k = y.key()
            if k not in seen:
                seen.add(k)
                out.append(y)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SB('or', args=tuple(out))


def sb_implies(a, b):
    return sb_or(sb_not(a), b)


# ------------------------------------------------------------------ reals
class SR:
    __slots__ = ('n', 'd', 'isint', '_k')
    __array_ufunc__ = None
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1
    nbytes = 8
    itemsize = 8

    def __init__(self, n, d=(), isint=False):
        self.n = n; self.d = d; self.isint = isint; self._k = None

    def key(self):
        if self._k is None:
            self._k = (pkey(self.n), frozenset((k, e) for p, k, e in self.d))
        return self._k

    # numpy-scalar-like surface
    @property
    def dtype(self):
        return np.dtype(np.int64) if self.isint else np.dtype(np.float64)
    @property
    def real(self): return self
    @property
    def imag(self): return 0.0
    @property
    def T(self): return self
    def conj(self): return self
    conjugate = conj
    def item(self): return self
    def copy(self): return self
    def get(self): return self
    def astype(self, dtype=None, copy=True): return cast(self, dtype)
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def any(self, *a, **k): return tobool(self)
    def all(self, *a, **k): return tobool(self)
    def clip(self, lo=None, hi=None): return s_clip(self, lo, hi)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def __add__(self, o): return fpr(_bin(self, o, s_add))
    def __radd__(self, o): return fpr(_bin(o, self, s_add))
    def __sub__(self, o): return fpr(_bin(self, o, s_sub))
    def __rsub__(self, o): return fpr(_bin(o, self, s_sub))
    def __mul__(self, o): return fpr(_bin(self, o, s_mul))
    def __rmul__(self, o): return fpr(_bin(o, self, s_mul))
    def __truediv__(self, o): return fpr(_bin(self, o, s_div))
    def __rtruediv__(self, o): return fpr(_bin(o, self, s_div))
    def __floordiv__(self, o): return _bin(self, o, s_floordiv)
    def __rfloordiv__(self, o): return _bin(o, self, s_floordiv)
    def __mod__(self, o): return _bin(self, o, s_mod)
    def __rmod__(self, o): return _bin(o, self, s_mod)
    def __divmod__(self, o): return s_floordiv(self, o), s_mod(self, o)
    def __pow__(self, o): return _bin(self, o, s_pow)
    def __rpow__(self, o): return _bin(o, self, s_pow)
    def __neg__(self): return s_neg(self)
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)
    def __lt__(self, o): return _bin(self, o, lambda a, b: s_cmp(a, b, 'lt'))
    def __le__(self, o): return _bin(self, o, lambda a, b: s_cmp(a, b, 'le'))
    def __gt__(self, o): return _bin(self, o, lambda a, b: s_cmp(b, a, 'lt'))
    def __ge__(self, o): return _bin(self, o, lambda a, b: s_cmp(b, a, 'le'))
    def __eq__(self, o):
        return _bin(self, o, lambda a, b: s_cmp(a, b, 'eq'))
    def __ne__(self, o):
        return _bin(self, o, lambda a, b: s_cmp(a, b, 'ne'))
    def __hash__(self):
        return 777
    def __bool__(self):
        return bool(s_cmp(self, 0, 'ne'))
    def __float__(self):
        return float(S.engine.concretize(self))
    def __int__(self):
        return S.engine.enumerate_int(trunc(self))
    def __index__(self):
        if not self.isint:
            raise TypeError('real used as index')
        return S.engine.enumerate_int(self)
    def __complex__(self):
        return complex(float(self))
    def __trunc__(self): return trunc(self)
    def __floor__(self): return floor_(self)
    def __ceil__(self): return s_neg(floor_(s_neg(self)))
    def __round__(self, nd=None):
        return fpr(s_round(self, nd))
    def is_integer(self):
        return True if self.isint else s_cmp(self, floor_(self), 'eq')
    def __str__(self):
        return S.engine.token(self)
    def __format__(self, spec):
        return S.engine.token(self, spec)
    def __repr__(self):
        try:
            return 'SR<' + pstr(self.n) + (' / ' + pstr(den_poly(self.d)) if self.d else '') + '>'
        except Exception:
            return 'SR<?>'


def pstr(p):
    if not p:
        return '0'
    t = []
    for m, c in list(p.items())[:8]:
        t.append(f'{float(c):.6g}' + ''.join('*' + S.atoms[i].name for i in m))
    return ' + '.join(t) + (' + ...' if len(p) > 8 else '')


def _arr2(a, b, f):
    from engine.shim import elementwise2
    return elementwise2(f, a, b)


def _bin(a, b, f):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return _arr2(a, b, f)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return _arr2(a, b, f)
    return f(a, b)


def fpr(r):
    """in double-precision mode: the result of one IEEE operation is the exact result plus a rounding
    error of at most half a unit in the last place (over-approximated by the bound of the term)"""
    if not S.fp or not isinstance(r, SR) or r.isint:
        return r
    k = ('fp', r.key())
    if k not in S.memo:
        lo, hi = interval(r)
        m = max(abs(lo), abs(hi)) * 2.0 ** -53 * (1 + 1e-9)
        a = S.new_atom(f'rnd{len(S.atoms)}', False, -m, m, kind='fn')
        a.ev = lambda env: 0.0
        S.engine.note_uf('fp-rounding')
        S.memo[k] = s_add(r, SR({(a.id,): 1}, (), False))
    return S.memo[k]


def is_complexnum(x):
    return isinstance(x, (complex, np.complexfloating, SC))


def s_neg(a):
    if isinstance(a, SR):
        return SR(pscale(a.n, -1), a.d, a.isint)
    if isinstance(a, SB):
        return s_neg(a.as_int())
    if isinstance(a, SC):
        return SC(s_neg(a.re), s_neg(a.im))
    return -a


def s_add(a, b):
    if not is_sym(a) and not is_sym(b):
        return a + b
    if is_complexnum(a) or is_complexnum(b):
        ar, ai = re_im(a); br, bi = re_im(b)
        return mkc(s_add(ar, br), s_add(ai, bi))
    if isnonfinite(a):
        return a
    if isnonfinite(b):
        return b
    pa, pb = as_parts(a), as_parts(b)
    if pa is None or pb is None:
        return NotImplemented
    n1, d1, i1 = pa; n2, d2, i2 = pb
    if d1 or d2:
        d, m1, m2 = den_lcm(d1, d2)
        if m1 is not None:
            n1 = pmul(n1, m1); n2 = pmul(n2, m2)
        n = padd(n1, n2)
        n, d = cancel(n, d)
        return make(n, d, False)
    return make(padd(n1, n2), (), i1 and i2)


def s_sub(a, b):
    if not is_sym(a) and not is_sym(b):
        return a - b
    return s_add(a, s_neg(b))


def s_mul(a, b):
    if not is_sym(a) and not is_sym(b):
        return a * b
    if isinstance(a, SB) and not isinstance(b, SB):
        return b_mul(a, b)
    if isinstance(b, SB) and not isinstance(a, SB):
        return b_mul(b, a)
    if isinstance(a, SB) and isinstance(b, SB):
        return sb_and(a, b)
    if is_complexnum(a) or is_complexnum(b):
        ar, ai = re_im(a); br, bi = re_im(b)
        return mkc(s_sub(s_mul(ar, br), s_mul(ai, bi)), s_add(s_mul(ar, bi), s_mul(ai, br)))
    if isnonfinite(a) or isnonfinite(b):
        x, y = (a, b) if isnonfinite(a) else (b, a)
        if x != x:
            return x
        if bool(s_cmp(y, 0, 'eq')):
            return float('nan')
        return x if bool(s_cmp(0, y, 'lt')) else -x
    pa, pb = as_parts(a), as_parts(b)
    if pa is None or pb is None:
        return NotImplemented
    n1, d1, i1 = pa; n2, d2, i2 = pb
    if not n1 or not n2:
        return 0 if (i1 and i2) else 0.0
    if d1 or d2:
        if d2:
            n1, d2 = cancel(n1, d2)
        if d1:
            n2, d1 = cancel(n2, d1)
        n = pmul(n1, n2)
        d = den_mul(d1, d2)
        n, d = cancel(n, d)
        return make(n, d, False)
    return make(pmul(n1, n2), (), i1 and i2)


def b_mul(c, x):
    """SB * number"""
    if isinstance(x, (bool, np.bool_)):
        return sb_and(c, bool(x))
    if isnonfinite(x):
        return float('nan') if not bool(c) else x
    if is_complexnum(x):
        r, i = re_im(x)
        return mkc(b_mul(c, r), b_mul(c, i))
    if not is_sym(x):
        return s_mul(c.as_int(), x) if x != 0 else (0.0 if isinstance(x, (float, np.floating)) else 0)
    if not x.d:
        # product of a 0/1 atom and a polynomial keeps everything polynomial
        return s_mul(c.as_int(), x)
    return ite(c, x, 0)


def s_div(a, b):
    if not is_sym(b):
        if not is_sym(a):
            return _cdiv(a, b)
        if is_complexnum(b):
            b = complex(b)
            den = b.real * b.real + b.imag * b.imag
            return s_mul(a, complex(b.real / den, -b.imag / den))
        if isnonfinite(b):
            return 0.0 if b == b else b
        if b == 0:
            return _div_by_zero(a)
        if isinstance(b, (bool, np.bool_)):
            b = 1
        if isinstance(a, SC):
            return mkc(s_div(a.re, b), s_div(a.im, b))
        r = s_mul(a, norm_num(Fraction(1) / Fraction(norm_num(b))) if True else None)
        if isinstance(r, SR):
            r = SR(r.n, r.d, False)
        elif isinstance(r, int):
            r = float(r)
        return r
    if isinstance(b, SC):
        den = s_add(s_mul(b.re, b.re), s_mul(b.im, b.im))
        _known(den, S.nonneg)
        ar, ai = re_im(a)
        nr = s_add(s_mul(ar, b.re), s_mul(ai, b.im))
        ni = s_sub(s_mul(ai, b.re), s_mul(ar, b.im))
        r = mkc(s_div(nr, den), s_div(ni, den))
        if isinstance(r, SC) and isinstance(den, SR) and not den.d and _isknown(den.n, S.nonneg):
            if bool(s_cmp(den, 0, 'ne')):
                _known(den, S.pos)
                r.quot = (a, b)
        return r
    if is_complexnum(a):
        ar, ai = re_im(a)
        return mkc(s_div(ar, b), s_div(ai, b))
    if isinstance(b, SB):
        b = b.as_int()
        if not is_sym(b):
            return s_div(a, b)
    if isnonfinite(a):
        if a != a:
            return a
        return a if bool(s_cmp(0, b, 'lt')) or bool(s_cmp(b, 0, 'eq')) else -a
    # symbolic denominator: IEEE semantics at zero by forking
    z = sb_cmp(b.n, 'eq')
    if z is True or (z is not False and bool(z)):
        return _div_by_zero(a)
    pa = as_parts(a)
    n1, d1, _ = pa
    # a/b = n1/d1 * d2/n2
    n = n1
    d = d1
    for p, k, e in b.d:
        for _ in range(e):
            n = pmul(n, p)
    if not n:
        return 0.0
    bn, scale = _primitive(b.n)
    n = pscale(n, norm_num(Fraction(1) / scale)) if scale != 1 else n
    n, d = cancel(n, d)
    d = den_mul(d, ((bn, pkey(bn), 1),))
    n, d = cancel(n, d)
    return make(n, d, False)


def _primitive(p):
    """divide polynomial by the coefficient of a canonical monomial"""
    m = min(p, key=lambda m: (len(m), m))
    c = Fraction(p[m])
    if c == 1:
        return p, 1
    return {k: norm_num(Fraction(v) / c) for k, v in p.items()}, c


def _cdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        with np.errstate(all='ignore'):
            r = np.true_divide(a, b)
            return complex(r) if np.iscomplexobj(r) else float(r)


def _div_by_zero(a):
    if isinstance(a, SC):
        return complex(float('nan'), float('nan'))
    if is_sym(a):
        if bool(s_cmp(a, 0, 'eq')):
            return float('nan')
        return INF if bool(s_cmp(0, a, 'lt')) else -INF
    return _cdiv(a, 0.0)


def s_floordiv(a, b):
    if not is_sym(a) and not is_sym(b):
        return a // b
    q, r = _divmod(a, b)
    return q


def s_mod(a, b):
    if not is_sym(a) and not is_sym(b):
        return a % b
    q, r = _divmod(a, b)
    return r


def _divmod(a, b):
    if isinstance(a, SB): a = a.as_int()
    if isinstance(b, SB): b = b.as_int()
    ka = a.key() if is_sym(a) else a
    kb = b.key() if is_sym(b) else b
    k = ('divmod', ka, kb)
    if k in S.memo:
        return S.memo[k]
    if bool(s_cmp(b, 0, 'eq')):
        raise ZeroDivisionError('integer modulo by zero')
    ints = (isinstance(a, (int, np.integer)) or (isinstance(a, SR) and a.isint)) and \
           (isinstance(b, (int, np.integer)) or (isinstance(b, SR) and b.isint))
    qa = S.new_atom(f'q{len(S.atoms)}', True, kind='def')
    q = SR({(qa.id,): 1}, (), True)
    # quotient bounds from intervals where easy
    if is_num(b) and isinstance(a, SR) and not a.d:
        lo, hi = pinterval(a.n)
        bb = float(b)
        c = sorted((lo / bb, hi / bb))
        qa.lo = math.floor(c[0]) - 1 if c[0] > -INF else -INF
        qa.hi = math.ceil(c[1]) + 1 if c[1] < INF else INF
    r = s_sub(a, s_mul(b, q))
    pos = s_cmp(0, b, 'lt')
    dom = sb_or(sb_and(pos, s_cmp(0, r, 'le'), s_cmp(r, b, 'lt')),
                sb_and(sb_not(pos), s_cmp(r, 0, 'le'), s_cmp(b, r, 'lt')))
    qa.defs.append(dom)
    qa.ev = lambda env, a=a, b=b: float(math.floor(evalx(a, env) / evalx(b, env)))
    res = (q if ints or True else q, r)
    S.memo[k] = res
    return res


def _int_split(x):
    """x = integral part (integer coefficients over integer atoms) + rest"""
    if x.d:
        return None
    ip, rest = {}, {}
    for m, c in x.n.items():
        if all(S.atoms[i].isint for i in m):
            k = c if isinstance(c, int) else round(c)
            if k != 0:
                ip[m] = k
            if c != k:
                rest[m] = norm_num(Fraction(c) - k)
        else:
            rest[m] = c
    return ip, rest


def floor_(x):
    if not is_sym(x):
        return math.floor(x)
    if isinstance(x, SB):
        return x.as_int()
    if x.isint:
        return x
    k = ('floor', x.key())
    if k in S.memo:
        return S.memo[k]
    sp = _int_split(x)
    if sp is not None and sp[0]:
        lo, hi = pinterval(sp[1])
        if lo >= 0 and hi < 1 - 1e-9 and (lo > 1e-12 or _floorlo(sp[1]) == 0):
            return make(sp[0], (), True)
    a = S.new_atom(f'fl{len(S.atoms)}', True, kind='def')
    lo, hi = interval(x)
    if lo > -INF: a.lo = math.floor(lo) - 1
    if hi < INF: a.hi = math.ceil(hi) + 1
    f = SR({(a.id,): 1}, (), True)
    a.defs.append(sb_and(s_cmp(f, x, 'le'), s_cmp(x, s_add(f, 1), 'lt')))
    a.ev = lambda env: float(math.floor(evalx(x, env)))
    S.memo[k] = f
    return f


def trunc(x):
    if not is_sym(x):
        return int(x)
    if isinstance(x, SB):
        return x.as_int()
    if x.isint:
        return x
    f = floor_(x)
    lo, hi = interval(x)
    if lo >= 0:
        return f
    c = s_neg(floor_(s_neg(x)))
    return ite(s_cmp(x, 0, 'lt'), c, f)


def ceil_(x):
    if not is_sym(x):
        return math.ceil(x)
    return s_neg(floor_(s_neg(x)))


def s_round(x, nd=None):
    """round half to even (exact over the reals)"""
    if not is_sym(x):
        return round(x, nd) if nd is not None else round(x)
    if isinstance(x, SR) and x.isint and (nd is None or nd >= 0):
        return x
    if nd is None or nd == 0:
        k = ('round', x.key())
        if k in S.memo:
            return S.memo[k]
        sp = _int_split(x)
        if sp is not None and sp[0]:
            lo, hi = pinterval(sp[1])
            if lo > -0.5 + 1e-9 and hi < 0.5 - 1e-9:
                return make(sp[0], (), True)
        a = S.new_atom(f'rn{len(S.atoms)}', True, kind='def')
        lo, hi = interval(x)
        if lo > -INF: a.lo = math.floor(lo) - 1
        if hi < INF: a.hi = math.ceil(hi) + 1
        f = SR({(a.id,): 1}, (), True)
        d2 = s_mul(2, s_sub(x, f))
        # tie -> even
        h = S.new_atom(f'rh{len(S.atoms)}', True, kind='def')
        hh = SR({(h.id,): 1}, (), True)
        tie = sb_or(s_cmp(d2, 1, 'eq'), s_cmp(d2, -1, 'eq'))
        a.defs.append(sb_and(s_cmp(-1, d2, 'le'), s_cmp(d2, 1, 'le'),
                             sb_implies(tie, s_cmp(s_mul(2, hh), f, 'eq'))))
        a.ev = lambda env: float(round(evalx(x, env)))
        h.ev = lambda env: float(round(evalx(x, env))) // 2
        h.defs.append(sb_or(s_cmp(s_mul(2, hh), f, 'eq'), s_cmp(s_sub(f, s_mul(2, hh)), 1, 'eq')))
        S.memo[k] = f
        return f if nd is None else f
    m = 10 ** nd
    return s_div(s_round(s_mul(x, m)), m)


def _prim_key(p):
    p, c = _primitive(p)
    return pkey(p), c > 0


def _known(x, table):
    """record that a polynomial is a sum of squares / positive"""
    if isinstance(x, SR) and not x.d and x.n:
        k, up = _prim_key(x.n)
        table.add((k, up))


def _isknown(p, table, neg=False):
    if not table or not p:
        return False
    k, up = _prim_key(p)
    return (k, up != neg) in table


def s_abs(x):
    if not is_sym(x):
        return abs(x)
    if isinstance(x, SB):
        return x.as_int()
    if isinstance(x, SC):
        if x.quot is not None:
            return s_div(s_abs(x.quot[0]), s_abs(x.quot[1]))
        q = s_add(s_mul(x.re, x.re), s_mul(x.im, x.im))
        _known(q, S.nonneg)
        return s_sqrt(q)
    lo, hi = interval(x)
    if lo >= 0:
        return x
    if hi <= 0:
        return s_neg(x)
    return ite(s_cmp(x, 0, 'lt'), s_neg(x), x)


def interval(x):
    if not is_sym(x):
        return float(x), float(x)
    if isinstance(x, SB):
        return 0.0, 1.0
    lo, hi = pinterval(x.n)
    if x.d:
        dl, dh = 1.0, 1.0
        for p, k, e in x.d:
            l, h = pinterval(p)
            for _ in range(e):
                dl, dh = _imul(dl, dh, l, h)
        if dl > 0 or dh < 0:
            il, ih = 1.0 / dh if dh not in (INF, -INF) else 0.0, 1.0 / dl if dl not in (INF, -INF) else 0.0
            if il > ih: il, ih = ih, il
            return _imul(lo, hi, il, ih)
        if lo >= 0 and dl >= 0:
            return 0.0, INF
        return -INF, INF
    return lo, hi


def s_cmp(a, b, op):
    """a op b; op in lt le eq ne"""
    if not is_sym(a) and not is_sym(b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return (a == b) if op == 'eq' else (a != b) if op == 'ne' else NotImplemented
        return bool(a < b if op == 'lt' else a <= b if op == 'le' else a == b if op == 'eq' else a != b)
    if op == 'ne':
        r = s_cmp(a, b, 'eq')
        return sb_not(r)
    if is_complexnum(a) or is_complexnum(b):
        if op != 'eq':
            raise TypeError('ordering of complex')
        ar, ai = re_im(a); br, bi = re_im(b)
        return sb_and(s_cmp(ar, br, 'eq'), s_cmp(ai, bi, 'eq'))
    for x, left in ((a, True), (b, False)):
        if isnonfinite(x):
            if x != x:
                return False
            if op == 'eq':
                return False
            pos = x > 0
            return (not pos) if left else pos
    if not (is_sym(a) or is_num(a)) or not (is_sym(b) or is_num(b)):
        if op == 'eq':
            return False
        return NotImplemented
    if isinstance(a, SB) and isinstance(b, (SB, bool, np.bool_)) and op == 'eq':
        return sb_not(a ^ b)
    d = s_sub(a, b)
    if not is_sym(d):
        return bool(d < 0 if op == 'lt' else d <= 0 if op == 'le' else d == 0)
    if not d.d:
        return sb_cmp(d.n, op)
    if op == 'eq':
        return sb_cmp(d.n, 'eq')
    n = d.n
    for p, k, e in d.d:
        if e % 2 == 0:
            continue
        pos = sb_cmp(p, 'lt')          # p < 0 ?
        if pos is True:
            n = pscale(n, -1)
        elif pos is False:
            pass
        else:
            # p != 0 on this path: decide its sign
            if bool(pos):
                n = pscale(n, -1)
    return sb_cmp(n, op)


def ite(c, a, b):
    if not isinstance(c, SB):
        return a if c else b
    if a is b:
        return a
    if is_complexnum(a) or is_complexnum(b):
        ar, ai = re_im(a); br, bi = re_im(b)
        return mkc(ite(c, ar, br), ite(c, ai, bi))
    if isinstance(a, (SB, bool, np.bool_)) and isinstance(b, (SB, bool, np.bool_)):
        return sb_or(sb_and(c, a), sb_and(sb_not(c), b))
    if isnonfinite(a) or isnonfinite(b) or a is None or b is None:
        return a if bool(c) else b
    pa, pb = as_parts(a), as_parts(b)
    if pa is None or pb is None:
        return a if bool(c) else b
    ka = (pkey(pa[0]), frozenset((k, e) for p, k, e in pa[1]))
    kb = (pkey(pb[0]), frozenset((k, e) for p, k, e in pb[1]))
    isint = pa[2] and pb[2]
    if ka == kb:
        return make(pa[0], pa[1], isint)
    k = ('ite', c.key(), ka, kb)
    if k in S.memo:
        return S.memo[k]
    nk = ('ite', sb_not(c).key(), kb, ka)
    if nk in S.memo:
        return S.memo[nk]
    at = S.new_atom(f'ite{len(S.atoms)}', isint, kind='def')
    l1, h1 = interval(a); l2, h2 = interval(b)
    at.lo = min(l1, l2); at.hi = max(h1, h2)
    v = SR({(at.id,): 1}, (), isint)
    at.defs.append(sb_implies(c, s_cmp(v, a, 'eq')))
    at.defs.append(sb_implies(sb_not(c), s_cmp(v, b, 'eq')))
    at.ev = lambda env: evalx(a, env) if evalb(c, env) else evalx(b, env)
    if {ka[0], kb[0]} == {frozenset(), pkey({(): 1})} and isint:
        at.sq = {(at.id,): 1}
        S.sqset.add(at.id)
    S.memo[k] = v
    return v


def s_max(a, b):
    if not is_sym(a) and not is_sym(b):
        if isnonfinite(a) and a != a: return a
        if isnonfinite(b) and b != b: return b
        return a if a >= b else b
    if isnonfinite(a):
        return a if (a != a or a > 0) else b
    if isnonfinite(b):
        return b if (b != b or b > 0) else a
    c = s_cmp(a, b, 'lt')
    return ite(c, b, a)


def s_min(a, b):
    if not is_sym(a) and not is_sym(b):
        if isnonfinite(a) and a != a: return a
        if isnonfinite(b) and b != b: return b
        return a if a <= b else b
    if isnonfinite(a):
        return a if (a != a or a < 0) else b
    if isnonfinite(b):
        return b if (b != b or b < 0) else a
    c = s_cmp(b, a, 'lt')
    return ite(c, b, a)


def s_clip(x, lo, hi):
    if lo is not None:
        x = s_max(x, lo)
    if hi is not None:
        x = s_min(x, hi)
    return x


def _fn_atom(name, x, lo=-INF, hi=INF, ev=None):
    k = (name, x.key())
    if k in S.memo:
        return S.memo[k], False
    # bounds are computed in floating point: keep clear of its rounding
    if -INF < lo and lo != 0:
        lo -= 1e-12 * abs(lo)
    if hi < INF and hi != 0:
        hi += 1e-12 * abs(hi)
    a = S.new_atom(f'{name}{len(S.atoms)}', False, lo, hi, kind='fn')
    a.ev = (lambda env: ev(evalx(x, env))) if ev else None
    v = SR({(a.id,): 1}, (), False)
    S.memo[k] = v
    return v, True


def _split_square(n):
    return None


def s_sqrt(x):
    if not is_sym(x):
        if isinstance(x, (complex, np.complexfloating)):
            return complex(x) ** 0.5
        return math.sqrt(x) if x >= 0 else float('nan')
    if isinstance(x, SB):
        return x.as_int()
    if isinstance(x, SC):
        raise Unsupported('complex sqrt')
    lo, hi = interval(x)
    if lo < 0:
        if bool(s_cmp(x, 0, 'lt')):
            return float('nan')
    if x.d:
        # sqrt(n/d) = sqrt(n*d)/d  for d>0
        dp = den_poly(x.d)
        if sb_cmp(dp, 'lt') is False or bool(s_cmp(0, make(dp), 'lt')):
            num = s_sqrt(make(pmul(x.n, dp)))
            return s_div(num, make(dp))
    # extract square of a single monomial: c * m^2
    if len(x.n) == 1 and not x.d:
        (m, c), = x.n.items()
        if len(m) % 2 == 0 and all(m[i] == m[i + 1] for i in range(0, len(m), 2)):
            r = make({m[::2]: 1})
            rc = math.isqrt(Fraction(c).numerator), math.isqrt(Fraction(c).denominator)
            f = Fraction(c)
            if rc[0] ** 2 == f.numerator and rc[1] ** 2 == f.denominator:
                cc = norm_num(Fraction(rc[0], rc[1]))
            else:
                cc = math.sqrt(c)
            return s_mul(cc, s_abs(r))
    if not x.d and len(x.n) > 1:
        r = _sqrt_alike(x)
        if r is not None:
            return r
    v, new = _fn_atom('sqrt', x, 0.0, math.sqrt(hi) if hi < INF and hi >= 0 else INF,
                      lambda t: math.sqrt(max(t, 0.0)))
    if new:
        a = S.atoms[next(iter(v.n))[0]]
        if not x.d:
            S.memo.setdefault('square roots', []).append((x.n, v))
            a.defs.append(sb_cmp_raw(padd({(a.id, a.id): 1}, x.n, -1), 'eq'))
            a.sq = x.n
            S.sqset.add(a.id)
        else:
            dp = den_poly(x.d)
            a.defs.append(sb_cmp_raw(padd(pmul({(a.id, a.id): 1}, dp), x.n, -1), 'eq'))
    return v


def _sqrt_alike(x):
    """a multiple of an earlier square root, of a polynomial proportional to this one within rounding"""
    if ('sqrt', x.key()) in S.memo:
        return None
    for p, v in S.memo.get('square roots', ()):
        top = max(p, key=lambda m: abs(p[m]))
        if top not in x.n or x.n[top] * p[top] <= 0:
            continue
        q = Fraction(x.n[top]) / Fraction(p[top])
        tol = Fraction(1, 10 ** 12) * abs(x.n[top])
        if all(abs(x.n.get(m, 0) - q * p.get(m, 0)) <= tol for m in set(p) | set(x.n)):
            return v if abs(q - 1) <= Fraction(1, 10 ** 12) else s_mul(math.sqrt(q), v)
    return None


def sb_cmp_raw(p, op):
    return SB('cmp', p, op)


def s_trig(x, which):
    if not is_sym(x):
        return math.cos(x) if which == 'cos' else math.sin(x)
    # canonical sign: cos(-x)=cos x, sin(-x)=-sin x ; constant offset pulled out
    if isinstance(x, SB):
        x = x.as_int()
    if not x.d and () in x.n and len(x.n) > 1:
        c0 = float(x.n[()])
        rest = make({m: c for m, c in x.n.items() if m != ()})
        cc, sc = math.cos(c0), math.sin(c0)
        if abs(cc) < 1e-15: cc = 0.0
        if abs(sc) < 1e-15: sc = 0.0
        c, s = s_trig(rest, 'cos'), s_trig(rest, 'sin')
        if which == 'cos':
            return s_sub(s_mul(c, cc), s_mul(s, sc))
        return s_add(s_mul(s, cc), s_mul(c, sc))
    lead = min(x.n, key=lambda m: (len(m), m))
    if x.n[lead] < 0:
        r = s_trig(s_neg(x), which)
        return r if which == 'cos' else s_neg(r)
    if not x.d and len(x.n) == 1 and len(lead) == 1 and abs(float(x.n[lead]) - 1) < 1e-12:
        # cosine and sine of the argument of a vector
        yx = S.memo.get(('atan2 of', lead[0]))
        if yx is not None:
            y, xx = yx
            r = s_abs(mkc(xx, y))
            if isinstance(r, SR) and not r.d and len(r.n) == 1 and all(not is_sym(v) or isinstance(v, SR) and not v.d for v in yx):
                (m, k), = r.n.items()
                if len(m) == 1 and k == 1:
                    return _argument(lead[0], m[0], y, xx)[which == 'sin']
            if bool(s_cmp(r, 0, 'eq')):
                return 1.0 if which == 'cos' else 0.0
            return s_div(xx if which == 'cos' else y, r)
    # sums of several linear terms: angle addition keeps identities decidable
    if not x.d and len(x.n) > 1 and len(x.n) <= 6:
        m0 = lead
        a = make({m0: x.n[m0]})
        b = make({m: c for m, c in x.n.items() if m != m0})
        ca, sa, cb, sb = s_trig(a, 'cos'), s_trig(a, 'sin'), s_trig(b, 'cos'), s_trig(b, 'sin')
        if which == 'cos':
            return s_sub(s_mul(ca, cb), s_mul(sa, sb))
        return s_add(s_mul(sa, cb), s_mul(ca, sb))
    # integer multiples of a common base angle
    kk = ('trigpair', x.key())
    if kk not in S.memo:
        mult, base = _base_angle(x)
        if mult == 1 and base.key() != x.key():
            S.memo[kk] = s_trig(base, 'cos'), s_trig(base, 'sin')
        elif mult > 1 and mult <= 8:
            c1, s1 = s_trig(base, 'cos'), s_trig(base, 'sin')
            c, s = c1, s1
            for _ in range(mult - 1):
                c, s = s_sub(s_mul(c, c1), s_mul(s, s1)), s_add(s_mul(s, c1), s_mul(c, s1))
            S.memo[kk] = (c, s)
        else:
            c, _ = _fn_atom('cos', x, *_trig_range(interval(x), 0.0), math.cos)
            s, _ = _fn_atom('sin', x, *_trig_range(interval(x), math.pi / 2), math.sin)
            ca = S.atoms[next(iter(c.n))[0]]
            sa = S.atoms[next(iter(s.n))[0]]
            d = sb_cmp_raw(padd(padd({(ca.id, ca.id): 1}, {(sa.id, sa.id): 1}), {(): -1}), 'eq')
            ca.defs.append(d); sa.defs.append(d)
            sa.sq = {(): 1, (ca.id, ca.id): -1}
            S.sqset.add(sa.id)
            S.memo[kk] = (c, s)
    c, s = S.memo[kk]
    return c if which == 'cos' else s


def _argument(angle, r, y, x):
    """cosine and sine of the argument of the vector (x, y) of length r"""
    k = ('argument', angle)
    if k not in S.memo:
        c = S.new_atom(f'cosarg_{len(S.atoms)}', False, -1.0, 1.0, kind='fn')
        s = S.new_atom(f'sinarg_{len(S.atoms)}', False, -1.0, 1.0, kind='fn')
        c.ev = lambda env: math.cos(math.atan2(evalx(y, env), evalx(x, env)))
        s.ev = lambda env: math.sin(math.atan2(evalx(y, env), evalx(x, env)))
        d = sb_cmp_raw(padd(padd({(c.id, c.id): 1}, {(s.id, s.id): 1}), {(): -1}), 'eq')
        c.defs.append(d)
        s.defs.append(d)
        for a, v in ((c, x), (s, y)):
            p = v.n if is_sym(v) else pconst(norm_num(v))
            a.defs.append(sb_cmp_raw(padd({tuple(sorted((r, a.id))): 1}, p, -1), 'eq'))
            S.pairs.setdefault(r, {})[a.id] = p
        s.sq = {(): 1, (c.id, c.id): -1}
        S.sqset.add(s.id)
        S.memo[k] = SR({(c.id,): 1}, (), False), SR({(s.id,): 1}, (), False)
    return S.memo[k]


def _trig_range(iv, shift):
    """range of cos(t - shift) for t in the interval"""
    lo, hi = iv
    if not hi - lo < 2 * math.pi:
        return -1.0, 1.0
    a, b = lo - shift, hi - shift
    v = [math.cos(a), math.cos(b)]
    if math.floor(b / (2 * math.pi)) > math.floor(a / (2 * math.pi)):
        v.append(1.0)
    if math.floor((b - math.pi) / (2 * math.pi)) > math.floor((a - math.pi) / (2 * math.pi)):
        v.append(-1.0)
    return max(-1.0, min(v) - 1e-12), min(1.0, max(v) + 1e-12)


def s_tan(x):
    if not is_sym(x):
        return math.tan(x)
    lo, hi = interval(x)
    if -math.pi / 2 < lo and hi < math.pi / 2:
        v, _ = _fn_atom('tan', x, math.tan(lo), math.tan(hi), math.tan)
        S.engine.note_uf('tan')
        return v
    return s_div(s_trig(x, 'sin'), s_trig(x, 'cos'))


def _base_angle(x):
    """x = mult * base with base seen before (single-term polynomials only)"""
    if x.d or len(x.n) != 1:
        return 1, x
    (m, c), = x.n.items()
    bases = S.memo.setdefault(('angles', m), [])
    cf = float(c)
    for b in bases:
        r = cf / float(b)
        if abs(r - round(r)) < 1e-12 and round(r) >= 1:
            return int(round(r)), make({m: b})
    bases.append(c)
    return 1, x


def s_exp(x):
    if isinstance(x, SC):
        if not is_sym(x.im) and x.im == 0:
            return s_exp(x.re)
        e = s_exp(x.re) if (is_sym(x.re) or x.re != 0) else 1
        c, s = s_trig(x.im, 'cos'), s_trig(x.im, 'sin')
        if is_sym(e) or e != 1:
            c, s = s_mul(e, c), s_mul(e, s)
        return mkc(c, s)
    if not is_sym(x):
        if isinstance(x, (complex, np.complexfloating)):
            r = np.exp(complex(x))
            return complex(r)
        try:
            return math.exp(x)
        except OverflowError:
            return INF
    if isinstance(x, SR) and not x.d:
        # exp(k + r) = e^k exp(r) ; exp(-r) = 1/exp(r)
        k0 = x.n.get((), 0)
        if k0 and len(x.n) > 1 and abs(float(k0)) < 200:
            return s_mul(math.exp(float(k0)), s_exp(make({m: c for m, c in x.n.items() if m != ()})))
        lead = min(x.n, key=lambda m: (len(m), m))
        if x.n[lead] < 0:
            return s_div(1.0, s_exp(s_neg(x)))
        # the same exponent up to rounding of its coefficients is the same number
        near = ('exp~', tuple(sorted((m, '%.11e' % float(c)) for m, c in x.n.items())))
        if near in S.memo:
            return S.memo[near]
    else:
        near = None
    v, new = _fn_atom('exp', x, 0.0, INF, lambda t: math.exp(min(t, 700)))
    if new:
        lo, hi = interval(x)
        a = S.atoms[next(iter(v.n))[0]]
        a.defs.append(s_cmp(0, v, 'lt'))
        if hi < 700: a.hi = math.exp(hi) * (1 + 1e-12)
        if lo > -700: a.lo = math.exp(lo) * (1 - 1e-12)
        a.defs.append(sb_implies(s_cmp(x, 0, 'eq'), s_cmp(v, 1, 'eq')))
        if near is not None:
            S.memo[near] = v
    return v


def s_generic(name, x, f, lo=-INF, hi=INF):
    """uninterpreted function of one argument (memoised by canonical argument)"""
    if not is_sym(x):
        try:
            return f(x)
        except (ValueError, ZeroDivisionError):
            return float('nan')
    if isinstance(x, SB):
        x = x.as_int()
    if isinstance(x, SC):
        raise Unsupported(f'complex {name}')
    v, _ = _fn_atom(name, x, lo, hi, f)
    S.engine.note_uf(name)
    return v


def _direction(y, x):
    """the same direction with a positive common factor removed"""
    if any(is_sym(v) and (not isinstance(v, SR) or v.d) for v in (y, x)):
        return y, x
    a, b = (v.n if is_sym(v) else ({(): v} if v != 0 else {}) for v in (y, x))
    lead = a or b
    if not lead:
        return y, x
    m0 = min(lead, key=lambda m: (len(m), m))
    f = abs(float(lead[m0]))
    if set(a) | set(b) == set(lead):
        # multiples of one expression of known sign
        u, v = ({m: float(c) / float(lead[m]) for m, c in p.items()} for p in (a, b))
        if all(max(p.values()) - min(p.values()) < 1e-12 for p in (u, v) if p) and all(set(p) == set(lead) for p in (u, v) if p):
            lo, hi = pinterval(lead)
            sg = 1.0 if lo > 0 else -1.0 if hi < 0 else None
            if sg is not None:
                return tuple(sg * next(iter(p.values())) if p else 0.0 for p in (u, v))
    if abs(f - 1.0) < 1e-15 or f == 0:
        return y, x
    f = abs(Fraction(lead[m0]))
    return tuple(make({m: norm_num(Fraction(c) / f) for m, c in p.items()}, (), False) if p else 0.0 for p in (a, b))


def s_arctan2(y, x):
    if not is_sym(x) and not is_sym(y):
        return math.atan2(y, x)
    given = y, x
    y, x = _direction(y, x)
    if not is_sym(x) and not is_sym(y):
        return math.atan2(y, x)
    kx = x.key() if is_sym(x) else x
    ky = y.key() if is_sym(y) else y
    k = ('atan2', ky, kx)
    if k in S.memo:
        return S.memo[k]
    a = S.new_atom(f'atan2_{len(S.atoms)}', False, -math.pi, math.pi, kind='fn')
    a.ev = lambda env: math.atan2(evalx(y, env), evalx(x, env))
    v = SR({(a.id,): 1}, (), False)
    S.engine.note_uf('atan2')
    S.memo[k] = v
    S.memo[('atan2 of', a.id)] = given
    return v


def s_pow(a, b):
    if not is_sym(a) and not is_sym(b):
        if isinstance(a, (float, int)) and a < 0 and not float(b).is_integer():
            return float('nan')
        try:
            return a ** b
        except ZeroDivisionError:
            return INF
    if not is_sym(b) and not is_complexnum(b):
        if isinstance(a, SB):
            a = a.as_int()
        fb = float(b)
        if fb.is_integer():
            e = int(fb)
            if e < 0:
                return s_div(1.0, s_pow(a, -e))
            r = 1
            for _ in range(e):
                r = s_mul(r, a)
            return r
        if fb == 0.5:
            return s_sqrt(a)
        if fb == 1.5:
            return s_mul(a, s_sqrt(a))
        if fb == -0.5:
            return s_div(1.0, s_sqrt(a))
    if not is_sym(a) and isinstance(a, (int, float, np.integer, np.floating)) and a > 0 and isinstance(b, SR):
        return s_exp(s_mul(b, math.log(float(a))))
    ka = a.key() if is_sym(a) else a
    kb = b.key() if is_sym(b) else b
    k = ('pow', ka, kb)
    if k in S.memo:
        return S.memo[k]
    if is_sym(a) and interval(a)[0] < 0 and bool(s_cmp(a, 0, 'lt')):
        return float('nan')
    at = S.new_atom(f'pow{len(S.atoms)}', False, 0.0, INF, kind='fn')
    at.ev = lambda env: float(evalx(a, env)) ** float(evalx(b, env))
    v = SR({(at.id,): 1}, (), False)
    if not is_sym(a) and a == 10:
        pass
    S.engine.note_uf('pow')
    S.memo[k] = v
    return v


# ------------------------------------------------------------------ complex
class SC:
    __slots__ = ('re', 'im', 'quot')
    __array_ufunc__ = None
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, re, im):
        self.re = re; self.im = im; self.quot = None

    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    def conj(self): return SC(self.re, s_neg(self.im))
    conjugate = conj
    def item(self): return self
    def copy(self): return self
    def astype(self, dtype=None, copy=True): return cast(self, dtype)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def key(self):
        return ('C', self.re.key() if is_sym(self.re) else self.re, self.im.key() if is_sym(self.im) else self.im)
    def __add__(self, o): return _bin(self, o, s_add)
    def __radd__(self, o): return _bin(o, self, s_add)
    def __sub__(self, o): return _bin(self, o, s_sub)
    def __rsub__(self, o): return _bin(o, self, s_sub)
    def __mul__(self, o): return _bin(self, o, s_mul)
    def __rmul__(self, o): return _bin(o, self, s_mul)
    def __truediv__(self, o): return _bin(self, o, s_div)
    def __rtruediv__(self, o): return _bin(o, self, s_div)
    def __pow__(self, o): return _bin(self, o, s_pow)
    def __neg__(self): return s_neg(self)
    def __abs__(self): return s_abs(self)
    def __eq__(self, o): return _bin(self, o, lambda a, b: s_cmp(a, b, 'eq'))
    def __ne__(self, o): return _bin(self, o, lambda a, b: s_cmp(a, b, 'ne'))
    def __hash__(self): return 778
    def __bool__(self): return bool(tobool(self))
    def __complex__(self): return complex(float(self.re), float(self.im))
    def __repr__(self): return f'SC({self.re!r},{self.im!r})'


def mkc(re, im):
    if is_sym(re) or is_sym(im):
        return SC(re, im)
    return complex(re, im)


def re_im(x):
    if isinstance(x, SC):
        return x.re, x.im
    if isinstance(x, (complex, np.complexfloating)):
        return float(x.real), float(x.imag)
    return x, 0.0


def s_conj(x):
    if isinstance(x, SC):
        return x.conj()
    if isinstance(x, (complex, np.complexfloating)):
        return x.conjugate()
    return x


# ------------------------------------------------------------------ casts
def dtkind(dtype):
    """-> 'f','f4','c','i','u','b','O' or other"""
    if dtype is None:
        return 'O'
    if dtype is float:
        return 'f'
    if dtype is int:
        return 'i'
    if dtype is bool:
        return 'b'
    if dtype is complex:
        return 'c'
    k = getattr(dtype, '_symkind', None)
    if k is not None:
        return k
    try:
        dt = np.dtype(dtype)
    except TypeError:
        return 'O'
    if dt.kind == 'f':
        return 'f4' if dt.itemsize <= 4 else 'f'
    return dt.kind


def cast(x, dtype):
    k = dtkind(dtype)
    if k in ('f', 'f4'):
        if isinstance(x, SB):
            x = x.as_int()
        if isinstance(x, SC):
            x = x.re
        if isinstance(x, (complex, np.complexfloating)):
            x = x.real
        if isinstance(x, SR):
            if x.isint:
                lo, hi = interval(x)
                lim = 2 ** 24 if k == 'f4' else 2 ** 53
                if max(abs(lo), abs(hi)) > lim:
                    return lossy(x, k)
                return SR(x.n, x.d, False)
            return x
        if x is None:
            return float('nan')
        if isinstance(x, (int, np.integer)) and not isinstance(x, bool) and k == 'f4' and abs(int(x)) > 2 ** 24:
            return float(np.float32(x))
        return float(x)
    if k == 'c':
        if is_sym(x):
            return x if isinstance(x, SC) else SC(x.as_int() if isinstance(x, SB) else x, 0.0)
        return complex(x)
    if k in ('i', 'u'):
        if isinstance(x, SR):
            return trunc(x)
        if isinstance(x, SB):
            return x.as_int()
        if isinstance(x, SC):
            return trunc(x.re)
        return int(x)
    if k == 'b':
        return tobool(x)
    return x


def lossy(x, k):
    """integer converted to a float format that cannot hold it exactly"""
    key = ('lossy', k, x.key())
    if key in S.memo:
        return S.memo[key]
    a = S.new_atom(f'fl{k}_{len(S.atoms)}', False, kind='fn')
    lo, hi = interval(x)
    a.lo = lo - abs(lo) * 1e-6; a.hi = hi + abs(hi) * 1e-6
    v = SR({(a.id,): 1}, (), False)
    e = Fraction(1, 2 ** 24) if k == 'f4' else Fraction(1, 2 ** 53)
    d = s_sub(v, x)
    b = s_mul(norm_num(e), s_abs(x))
    a.defs.append(sb_and(s_cmp(d, b, 'le'), s_cmp(s_neg(b), d, 'le')))
    lim = 2 ** 24 if k == 'f4' else 2 ** 53
    a.defs.append(sb_implies(s_cmp(s_abs(x), lim, 'le'), s_cmp(v, x, 'eq')))
    # the representable grid: multiples of 2^(floor(log2|x|)+1-p) - give the solver the real rounding
    # for the binades within range (exact rounding to nearest)
    p = 24 if k == 'f4' else 53
    top = max(abs(lo), abs(hi))
    ex = p
    ax = s_abs(x)
    while 2 ** ex < top and ex < p + 40:
        ulp = 2 ** (ex + 1 - p)
        m = S.new_atom(f'mant{len(S.atoms)}', True, kind='def')
        mm = SR({(m.id,): 1}, (), True)
        inb = sb_and(s_cmp(2 ** ex, ax, 'le'), s_cmp(ax, 2 ** (ex + 1), 'lt'))
        m.ev = lambda env, x=x, ulp=ulp: float(round(evalx(x, env) / ulp))
        a.defs.append(sb_implies(inb, sb_and(s_cmp(v, s_mul(ulp, mm), 'eq'),
                                             s_cmp(s_mul(2, d), ulp, 'le'),
                                             s_cmp(-ulp, s_mul(2, d), 'le'))))
        ex += 1
    if k == 'f4':
        a.ev = lambda env: float(np.float32(evalx(x, env)))
    else:
        a.ev = lambda env: float(evalx(x, env))
    S.memo[key] = v
    return v


# ------------------------------------------------------------------ numeric evaluation (env: atom id -> float)
def atom_val(i, env):
    v = env.get(i)
    if v is None:
        a = S.atoms[i]
        if a.ev is None:
            raise KeyError(a.name)
        v = a.ev(env)
        env[i] = v
    return v


def evalp(p, env):
    t = 0.0
    for m, c in p.items():
        v = float(c)
        for i in m:
            v *= atom_val(i, env)
        t += v
    return t


def evalx(x, env):
    if isinstance(x, SR):
        v = evalp(x.n, env)
        for p, k, e in x.d:
            q = evalp(p, env)
            if q == 0:
                return float('nan')
            v /= q ** e
        return v
    if isinstance(x, SB):
        return 1.0 if evalb(x, env) else 0.0
    if isinstance(x, SC):
        return complex(evalx(x.re, env), evalx(x.im, env))
    return float(x) if not isinstance(x, complex) else x


def evalb(b, env, slack=0.0):
    if not isinstance(b, SB):
        return bool(b)
    if b.kind == 'cmp':
        v = evalp(b.p, env)
        if b.op == 'lt':
            return v < 0
        if b.op == 'le':
            return v <= 0
        return abs(v) <= 1e-12
    if b.kind == 'not':
        return not evalb(b.args[0], env)
    if b.kind == 'and':
        return all(evalb(a, env) for a in b.args)
    if b.kind == 'or':
        return any(evalb(a, env) for a in b.args)
    raise KeyError(b.kind)


# ------------------------------------------------------------------ z3 translation
def zatom(i):
    a = S.atoms[i]
    if a.z is None:
        a.z = z3.Int(a.name) if a.isint else z3.Real(a.name)
    return a.z


def znum(c, isint=False):
    if isinstance(c, int):
        return z3.IntVal(c) if isint else z3.RealVal(c)
    return z3.RealVal(f'{c.numerator}/{c.denominator}')


def zpoly(p, used):
    isint = pisint(p)
    terms = []
    for m, c in p.items():
        fs = []
        for i in m:
            used.add(i)
            z = zatom(i)
            if not isint and S.atoms[i].isint:
                z = z3.ToReal(z)
            fs.append(z)
        if not fs:
            terms.append(znum(c, isint))
        else:
            if c != 1:
                fs = [znum(c, isint)] + fs
            terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    if not terms:
        return z3.RealVal(0)
    return terms[0] if len(terms) == 1 else z3.Sum(*terms)


def _pint_scale(p):
    """scale polynomial with rational coefs over int atoms so that it is integral (keeps sign)"""
    allint = all(S.atoms[i].isint for m in p for i in m)
    if not allint or pisint(p):
        return p
    l = 1
    for c in p.values():
        if not isinstance(c, int):
            l = l * c.denominator // math.gcd(l, c.denominator)
    if l > 2 ** 80:
        return p
    return {m: norm_num(Fraction(c) * l) for m, c in p.items()}


def zbool(b, used):
    if not isinstance(b, SB):
        return z3.BoolVal(bool(b))
    if b.kind == 'cmp':
        p = _pint_scale(b.p)
        e = zpoly(p, used)
        zero = 0
        return e < zero if b.op == 'lt' else e <= zero if b.op == 'le' else e == zero
    if b.kind == 'not':
        return z3.Not(zbool(b.args[0], used))
    if b.kind == 'and':
        return z3.And(*[zbool(a, used) for a in b.args])
    if b.kind == 'or':
        return z3.Or(*[zbool(a, used) for a in b.args])
    raise Unsupported(b.kind)
