"""Symbolic references 'object.output:delay' for configuration dictionaries.

A SymStr is a string whose value is one of finitely many alternatives selected by a
symbolic integer.  Splitting keeps it symbolic; equality gives a boolean term; any other
string operation resolves it (the path forks over the alternatives that remain feasible).
"""
from . import sym
from .sym import SR, S, s_cmp, sb_or, is_sym


class SymStr(str):
    def __new__(cls, sel, options):
        o = str.__new__(cls, '<sym>')
        o.sel = sel
        o.options = list(options)
        return o

    # -- resolution
    def resolve(self):
        return self.options[S.engine.enumerate_int(self.sel)]

    def _map(self, f):
        vals = [f(v) for v in self.options]
        if all(v == vals[0] for v in vals):
            return vals[0]
        return SymStr(self.sel, vals)

    def _pred(self, f):
        vals = [bool(f(v)) for v in self.options]
        if all(vals):
            return True
        if not any(vals):
            return False
        return sb_or(*[s_cmp(self.sel, i, 'eq') for i, v in enumerate(vals) if v])

    # -- symbolic operations
    def __eq__(self, o):
        if isinstance(o, SymStr):
            return sb_or(*[sym.sb_and(s_cmp(self.sel, i, 'eq'), s_cmp(o.sel, j, 'eq'))
                           for i, a in enumerate(self.options) for j, b in enumerate(o.options) if a == b])
        if not isinstance(o, str):
            return False
        return self._pred(lambda v: v == o)

    def __ne__(self, o):
        return sym.sb_not(self == o)

    def __hash__(self):
        return hash(self.resolve())

    def __contains__(self, x):
        return bool(self._pred(lambda v: x in v))

    def split(self, sep=None, maxsplit=-1):
        parts = [v.split(sep, maxsplit) for v in self.options]
        n = {len(p) for p in parts}
        if len(n) > 1:
            return self.resolve().split(sep, maxsplit)
        return [self._part(parts, i) for i in range(n.pop())]

    def rsplit(self, sep=None, maxsplit=-1):
        parts = [v.rsplit(sep, maxsplit) for v in self.options]
        n = {len(p) for p in parts}
        if len(n) > 1:
            return self.resolve().rsplit(sep, maxsplit)
        return [self._part(parts, i) for i in range(n.pop())]

    def partition(self, sep):
        parts = [v.partition(sep) for v in self.options]
        return tuple(self._part(parts, i) for i in range(3))

    def rpartition(self, sep):
        parts = [v.rpartition(sep) for v in self.options]
        return tuple(self._part(parts, i) for i in range(3))

    def _part(self, parts, i):
        vals = [p[i] for p in parts]
        return vals[0] if all(v == vals[0] for v in vals) else SymStr(self.sel, vals)

    def strip(self, *a): return self._map(lambda v: v.strip(*a))
    def startswith(self, *a): return bool(self._pred(lambda v: v.startswith(*a)))
    def endswith(self, *a): return bool(self._pred(lambda v: v.endswith(*a)))

    def _sym_int(self):
        vals = [int(v) for v in self.options]
        if all(v == vals[0] for v in vals):
            return vals[0]
        r = vals[-1]
        for i in range(len(vals) - 2, -1, -1):
            r = sym.ite(s_cmp(self.sel, i, 'eq'), vals[i], r)
        return r

    # -- everything else resolves
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __str__(self): return self.resolve()
    def __repr__(self): return repr(self.resolve())
    def __format__(self, spec): return format(self.resolve(), spec)
    def __len__(self): return len(self.resolve())
    def __iter__(self): return iter(self.resolve())
    def __getitem__(self, k): return self.resolve()[k]
    def __add__(self, o): return self.resolve() + str(o)
    def __radd__(self, o): return str(o) + self.resolve()
    def __mod__(self, o): return self.resolve() % o
    def __lt__(self, o): return self.resolve() < o
    def __gt__(self, o): return self.resolve() > o
    def __le__(self, o): return self.resolve() <= o
    def __ge__(self, o): return self.resolve() >= o
    def __bool__(self): return bool(self._pred(bool))


def _deleg(name):
    def f(self, *a, **k):
        return getattr(self.resolve(), name)(*a, **k)
    f.__name__ = name
    return f


for _n in ('capitalize', 'casefold', 'center', 'count', 'encode', 'expandtabs', 'find', 'format', 'index', 'isalnum',
           'isalpha', 'isdigit', 'isdecimal', 'islower', 'isnumeric', 'isspace', 'isupper', 'join', 'ljust', 'lower', 'lstrip',
           'removeprefix', 'removesuffix', 'replace', 'rfind', 'rindex', 'rjust', 'rstrip', 'splitlines', 'swapcase',
           'title', 'translate', 'upper', 'zfill'):
    setattr(SymStr, _n, _deleg(_n))
