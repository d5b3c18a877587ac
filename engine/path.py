"""Path exploration and solver queries for symbolic runs of a harness."""
import math
import random
import time
import traceback
from fractions import Fraction
import numpy as np
import z3
from . import sym
from .sym import S, SR, SB, SC, sb_not, sb_and, sb_or, s_cmp, s_sub, s_abs, is_sym, Unsupported


class PathAbort(BaseException):
    """stop the current path (infeasible, assumption violated, or budget)"""


class Infeasible(PathAbort):
    pass


def frac(v):
    """z3 numeral -> Fraction"""
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError(str(v))


class Engine:
    def __init__(self, seed=1, budget_s=60.0, max_paths=4000, assert_timeout=8000, branch_timeout=3000,
                 max_models=24):
        self.max_models = max_models
        self.rng = random.Random(seed)
        self.budget_s = budget_s
        self.max_paths = max_paths
        self.assert_timeout = assert_timeout
        self.branch_timeout = branch_timeout
        self.t_end = time.time() + budget_s
        # statistics
        self.n_paths = 0
        self.n_infeasible = 0
        self.n_queries = 0
        self.n_unsat = 0
        self.n_sat = 0
        self.n_unknown = 0
        self.n_branches = 0
        self.n_asserts = 0
        self.n_asserts_trivial = 0
        self.solver_time = 0.0
        self.concretized = 0
        self.ufs = set()
        self.notes = []
        self.labels = {}
        # results
        self.ces = []            # candidate counterexamples: dict(values, labels, why)
        self.path_models = []    # input values of explored paths
        self.unknown_asserts = []
        self.gaps = []           # encoding gaps (path ended early)
        self.complete = True
        self.stop = False

    # ---------------------------------------------------------------- one path
    def begin(self, prefix):
        sym.reset_state(self)
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pending = []
        self.pc = []
        self.checks = []
        self.inputs = {}         # name -> atom id / picked option index
        self.solver = z3.Solver()
        self.defined = set()
        self.path_conc = False
        self.reached = False
        self.tokens = {}

    def note_uf(self, name):
        self.ufs.add(name)

    def _sync(self, used):
        """add bounds and definitions of atoms to the path solver"""
        work = [i for i in used if i not in self.defined]
        while work:
            i = work.pop()
            if i in self.defined:
                continue
            self.defined.add(i)
            a = S.atoms[i]
            z = sym.zatom(i)
            if a.isinput or a.kind in ('fn',):
                if a.lo > -math.inf:
                    self.solver.add(z >= sym.znum(sym.norm_num(a.lo), a.isint and float(a.lo).is_integer()))
                if a.hi < math.inf:
                    self.solver.add(z <= sym.znum(sym.norm_num(a.hi), a.isint and float(a.hi).is_integer()))
            for d in a.defs:
                u = set()
                e = sym.zbool(d, u)
                self.solver.add(e)
                work.extend(j for j in u if j not in self.defined)

    def _z(self, b):
        used = set()
        e = sym.zbool(b, used)
        self._sync(used)
        return e

    def add_pc(self, b):
        if b is True:
            return
        if b is False:
            raise Infeasible()
        self.pc.append(b)
        self.solver.add(self._z(b))

    def _check(self, extra=None, timeout=None):
        t0 = time.time()
        self.solver.set('timeout', int(timeout or self.branch_timeout))
        if extra is not None:
            z = self._z(extra)
            self.solver.push()
            self.solver.add(z)
        try:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            if extra is not None:
                self.solver.pop()
        self.solver_time += time.time() - t0
        self.n_queries += 1
        if r == z3.sat:
            self.n_sat += 1
        elif r == z3.unsat:
            self.n_unsat += 1
        else:
            self.n_unknown += 1
        return r, m

    # ---------------------------------------------------------------- forking
    def branch(self, cond):
        if not isinstance(cond, SB):
            return bool(cond)
        self._timecheck()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            self.add_pc(cond if d else sb_not(cond))
            return d
        self.n_branches += 1
        rt, _ = self._check(cond)
        if rt == z3.unsat:
            d = False
            forced = True
        else:
            rf, _ = self._check(sb_not(cond))
            forced = rf == z3.unsat
            d = True
        if not forced:
            self.pending.append(self.decisions + [False])
        self.decisions.append(d)
        self.pos += 1
        self.add_pc(cond if d else sb_not(cond))
        return d

    def _timecheck(self):
        if time.time() > self.t_end:
            self.complete = False
            self.stop = True
            raise PathAbort('time budget')

    def enumerate_int(self, x, limit=200):
        """python int for a symbolic integer: forks over its feasible values"""
        if not is_sym(x):
            return int(x)
        for _ in range(limit):
            if self.pos < len(self.prefix):
                # decisions carry the tried value
                d = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append(d)
                tag, v, taken = d
                if taken:
                    self.add_pc(s_cmp(x, v, 'eq'))
                    return v
                self.add_pc(s_cmp(x, v, 'ne'))
                continue
            self._timecheck()
            self.n_branches += 1
            if isinstance(x, SR) and not x.d:
                used = set()
                sym.zpoly(x.n, used)
                self._sync(used)            # the bounds of its atoms must constrain the model
            r, m = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                break
            v = self._model_int(m, x)
            r2, _ = self._check(s_cmp(x, v, 'ne'))
            if r2 != z3.unsat:
                self.pending.append(self.decisions + [('v', v, False)])
            self.decisions.append(('v', v, True))
            self.pos += 1
            self.add_pc(s_cmp(x, v, 'eq'))
            return v
        return int(round(self.concretize(x)))

    def _model_int(self, m, x):
        used = set()
        z = sym.zpoly(x.n, used) if isinstance(x, SR) and not x.d else None
        if z is None:
            raise Unsupported('enumerate rational')
        self._sync(used)
        v = m.eval(z, model_completion=True)
        return int(frac(v))

    def concretize(self, x):
        """pin a real to one model value (under-approximation, recorded)"""
        if not is_sym(x):
            return x
        if isinstance(x, SB):
            return float(self.branch(x))
        if isinstance(x, SC):
            return complex(self.concretize(x.re), self.concretize(x.im))
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            v = d[1]
        else:
            self._timecheck()
            r, m = self._check(timeout=self.assert_timeout)
            if r != z3.sat:
                raise PathAbort('concretize: no model')
            env = self.env_from_values(self.values_from_model(m))
            try:
                v = float(sym.evalx(x, env))
            except Exception:
                used = set()
                z = sym.zpoly(x.n, used)
                v = float(frac(m.eval(z, model_completion=True)))
            self.decisions.append(('f', v, True))
            self.pos += 1
        self.concretized += 1
        self.path_conc = True
        c = s_cmp(x, v, 'eq')
        a = s_abs(s_sub(x, v))
        # pin within rounding of the float value
        self.add_pc(s_cmp(a, 1e-9 * (1 + abs(v)), 'le') if c is not True else True)
        return v

    def token(self, x, spec=''):
        k = ('tok', x.key(), spec)
        if k not in self.tokens:
            self.tokens[k] = (f'<<{len(self.tokens)}:{spec}>>', x)
        return self.tokens[k][0]

    # ---------------------------------------------------------------- inputs
    def real(self, name, lo, hi):
        a = S.new_atom(name, False, float(lo), float(hi), kind='input')
        self.inputs[name] = a.id
        return SR({(a.id,): 1}, (), False)

    def int(self, name, lo, hi):
        a = S.new_atom(name, True, lo, hi, kind='input')
        self.inputs[name] = a.id
        return SR({(a.id,): 1}, (), True)

    def values_from_model(self, m):
        vals = {}
        for name, i in self.inputs.items():
            a = S.atoms[i]
            v = None
            if m is not None:
                z = sym.zatom(i)
                mv = m.eval(z, model_completion=False)
                if not z3.is_const(mv) or z3.is_int_value(mv) or z3.is_rational_value(mv) or z3.is_algebraic_value(mv):
                    try:
                        v = frac(mv)
                    except ValueError:
                        v = None
            if v is None:
                lo = a.lo if a.lo > -math.inf else -10.0
                hi = a.hi if a.hi < math.inf else 10.0
                v = Fraction(self.rng.randint(int(math.ceil(lo)), int(math.floor(hi)))) if a.isint or (hi - lo) > 4 else \
                    Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(self.rng.randint(1, 15), 16)
            vals[name] = int(v) if a.isint else float(v)
        return vals

    def env_from_values(self, vals):
        return {self.inputs[n]: float(v) for n, v in vals.items()}

    # ---------------------------------------------------------------- assertions
    def assume(self, cond):
        cond = sym.tobool(cond)
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        if self.pos >= len(self.prefix):
            r, _ = self._check(cond)
            if r == z3.unsat:
                raise Infeasible()
        self.add_pc(cond)
        sym.learn(cond)

    def check(self, cond, label):
        self.reached = True
        cond = sym.tobool(cond)
        self.n_asserts += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if cond is True:
            self.n_asserts_trivial += 1
            return
        self.checks.append((cond, label))
        if cond is False:
            # definite failure on this path
            self.flush()
            raise PathAbort('assertion failed')

    def flush(self):
        """decide the collected assertions of this path"""
        checks, self.checks = self.checks, []
        if not checks:
            return
        hard = []
        # group: all at once
        neg = sb_or(*[sb_not(c) for c, _ in checks])
        r, m = self._check(neg, timeout=self.assert_timeout if len(checks) < 3 else self.assert_timeout // 2)
        if r == z3.unsat:
            return
        if r == z3.sat:
            self.add_ce(m, checks)
            return
        for c, l in checks:
            if time.time() > self.t_end:
                self.complete = False
                break
            nc = sb_not(c)
            if self._linear_relax_unsat(nc):
                continue
            r, m = self._check(nc, timeout=self.assert_timeout)
            if r == z3.unsat:
                continue
            if r == z3.sat:
                self.add_ce(m, [(c, l)])
                continue
            r = self._nlsat(nc)
            if r == z3.unsat:
                continue
            if self.probe([(c, l)]):
                continue
            hard.append(l)
        self.unknown_asserts.extend(hard)

    def _linear_relax_unsat(self, neg):
        """every nonlinear monomial becomes a fresh bounded variable (sound relaxation):
        unsat here implies unsat of the original query"""
        t0 = time.time()
        cons = []
        seen = set()
        todo = [neg] + list(self.pc)
        mons = {}

        def mvar(m):
            if m not in mons:
                z = z3.Real('m_' + '_'.join(map(str, m)))
                mons[m] = z
                lo, hi = sym.pinterval({m: 1})
                if lo > -math.inf: cons.append(z >= sym.znum(sym.norm_num(lo - abs(lo) * 1e-12)))
                if hi < math.inf: cons.append(z <= sym.znum(sym.norm_num(hi + abs(hi) * 1e-12)))
                for i in m:
                    if i not in seen:
                        seen.add(i)
                        todo.extend(S.atoms[i].defs)
            return mons[m]

        def conv(b):
            if not isinstance(b, SB):
                return z3.BoolVal(bool(b))
            if b.kind == 'cmp':
                ts = []
                for m, c in b.p.items():
                    ts.append(sym.znum(c) if not m else sym.znum(c) * mvar(m))
                e = z3.Sum(*ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)
                return e < 0 if b.op == 'lt' else e <= 0 if b.op == 'le' else e == 0
            if b.kind == 'not':
                return z3.Not(conv(b.args[0]))
            f = z3.And if b.kind == 'and' else z3.Or
            return f(*[conv(a) for a in b.args])

        s = z3.Solver()
        s.set('timeout', int(self.assert_timeout))
        while todo:
            cons.append(conv(todo.pop()))
        s.add(*cons)
        r = s.check()
        self.n_queries += 1
        self.solver_time += time.time() - t0
        if r == z3.unsat:
            self.n_unsat += 1
            return True
        return False

    def _nlsat(self, neg):
        t0 = time.time()
        try:
            s = z3.Then('simplify', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
            s.set('timeout', int(self.assert_timeout))
            z = self._z(neg)
            s.add(*self.solver.assertions())
            s.add(z)
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.n_queries += 1
        self.solver_time += time.time() - t0
        if r == z3.unsat:
            self.n_unsat += 1
        return r

    def _violated(self, vals, checks):
        """labels violated numerically at these inputs (None: path condition not met / not evaluable)"""
        try:
            env = self.env_from_values(vals)
            for c in self.pc:
                if not sym.evalb(c, env):
                    return None
            return [l for c, l in checks if not sym.evalb(c, env)]
        except (KeyError, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            return None

    def add_ce(self, m, checks):
        vals = self.values_from_model(m)
        v = self._violated(vals, checks)
        self.ces.append(dict(values=vals, labels=v or [l for _, l in checks][:3], consistent=bool(v)))
        if not v:
            self.probe(checks)

    def probe(self, checks, n=300):
        """look for a numeric witness among random inputs satisfying the path condition"""
        base = None
        t_stop = time.time() + 3
        for k in range(n):
            if time.time() > t_stop:
                break
            vals = {}
            for name, i in self.inputs.items():
                a = S.atoms[i]
                lo = a.lo if a.lo > -math.inf else -10.0
                hi = a.hi if a.hi < math.inf else 10.0
                vals[name] = self.rng.randint(int(lo), int(hi)) if a.isint else self.rng.uniform(lo, hi)
            v = self._violated(vals, checks)
            if v:
                self.ces.append(dict(values=vals, labels=v, consistent=True, probed=True))
                return True
        return False

    # ---------------------------------------------------------------- driver
    def run(self, harness, make_ctx):
        stack = [[]]
        while stack:
            if self.n_paths >= self.max_paths or time.time() > self.t_end:
                self.complete = False
                break
            if len(self.ces) >= 12:
                self.complete = False
                break
            prefix = stack.pop()
            self.begin(prefix)
            ctx = make_ctx(self)
            ended = None
            nce = len(self.ces)
            try:
                harness(ctx)
                self.flush()
            except Infeasible:
                self.n_infeasible += 1
                ended = 'infeasible'
            except PathAbort as e:
                ended = str(e)
            except Unsupported as e:
                self.gaps.append(f'unsupported: {e}')
                ended = 'gap'
                self._flush_quiet()
            except z3.Z3Exception as e:
                self.gaps.append(f'z3: {e}')
                ended = 'gap'
            except RecursionError as e:
                self.gaps.append('recursion')
                ended = 'gap'
            except Exception as e:
                tb = traceback.format_exc(limit=-4)
                self._flush_quiet()
                try:
                    r, m = self._check(timeout=self.assert_timeout)
                except BaseException:
                    r, m = None, None
                if r == z3.unsat:
                    ended = 'infeasible'
                else:
                    vals = self.values_from_model(m)
                    self.ces.append(dict(values=vals, labels=[f'unexpected {type(e).__name__}: {e}'],
                                         exception=tb, consistent=True))
                    ended = 'exception'
            stack.extend(self.pending)
            if ended == 'infeasible':
                continue
            self.n_paths += 1
            if ended == 'time budget':
                self.complete = False
                break
            if ended == 'gap' or self.path_conc:
                self.complete = False
            if len(self.path_models) < self.max_models:
                try:
                    r, m = self._check(timeout=self.assert_timeout)
                except BaseException:
                    r, m = None, None
                if r == z3.sat or r == z3.unknown:
                    self.path_models.append(dict(values=self.values_from_model(m), ended=ended))
        if stack:
            self.complete = False
        return self

    def _flush_quiet(self):
        try:
            self.flush()
        except BaseException:
            pass
