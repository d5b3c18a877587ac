"""Stand-ins for the compiled or file-system operations the code calls, used in
symbolic runs only (concrete replays use the real ones)."""
import copy
import math
import numpy as np
from . import sym
from . import shim as sh
from . import text
from .sym import SR, SB, SC, S, is_sym, s_add, s_mul, s_sub, s_cmp, Unsupported


def patch_scipy():
    import scipy.fft, scipy.linalg, scipy.ndimage
    if getattr(scipy.fft, '_verif', False):
        return
    scipy.fft._verif = True

    def wrapfft(mod, name, symf):
        real = getattr(mod, name)

        def f(x, *a, **k):
            if isinstance(x, np.ndarray) and x.dtype == object:
                return symf(x, *a, **k)
            return sh.wrap(real(np.asarray(x), *a, **k)) if type(x) is sh.SArr else real(x, *a, **k)
        setattr(mod, name, f)
    for n in ('fft', 'ifft', 'fft2', 'ifft2'):
        wrapfft(scipy.fft, n, getattr(sh, 'fft_' + n))

    rl, rs = scipy.linalg.lu_factor, scipy.linalg.lu_solve

    def lu_factor(a, *x, **k):
        if isinstance(a, np.ndarray) and a.dtype == object:
            if not sh._has_sym(a):
                return ('conc', rl(sh._tofloat(a)))
            return ('sym', a.copy())
        return rl(a, *x, **k)

    def lu_solve(lu, b, trans=0, **k):
        if isinstance(lu, tuple) and isinstance(lu[0], str):
            if lu[0] == 'sym':
                A = lu[1] if not trans else lu[1].T
                return sh.solve(A, b)
            if not sh._has_sym(sh._objarray(b)):
                return sh.wrap(rs(lu[1], sh._tofloat(b), trans))
            lum, piv = lu[1]
            n = lum.shape[0]
            inv = rs(lu[1], np.eye(n), trans)
            return sh.dot(sh.wrap(inv), b)
        return rs(lu, b, trans, **k)
    scipy.linalg.lu_factor, scipy.linalg.lu_solve = lu_factor, lu_solve

    def obj_guard(mod, name):
        real = getattr(mod, name)

        def f(x, *a, **k):
            if isinstance(x, np.ndarray) and x.dtype == object:
                if sh._has_sym(x):
                    raise Unsupported(name)
                return sh.wrap_scalar(real(sh._tofloat(x), *[sh._tofloat(v) for v in a], **{q: sh._tofloat(v) for q, v in k.items()}))
            return sh.wrap_scalar(real(sh._tofloat(x), *[sh._tofloat(v) for v in a], **{q: sh._tofloat(v) for q, v in k.items()}))
        setattr(mod, name, f)
    for n in ('rotate', 'shift', 'center_of_mass', 'zoom', 'binary_dilation'):
        obj_guard(scipy.ndimage, n)

    rbd = scipy.linalg.block_diag

    def block_diag(*arrs):
        arrs = [sh.asarray(a) for a in arrs]
        arrs = [a.reshape(1, -1) if a.ndim < 2 else a for a in arrs]
        r = sum(a.shape[0] for a in arrs); c = sum(a.shape[1] for a in arrs)
        out = sh.zeros((r, c))
        i = j = 0
        for a in arrs:
            out[i:i + a.shape[0], j:j + a.shape[1]] = a
            i += a.shape[0]; j += a.shape[1]
        return out
    scipy.linalg.block_diag = block_diag

    rpinv = scipy.linalg.pinv
    scipy.linalg.pinv = lambda a, *x, **k: sh.pinv(a) if isinstance(a, np.ndarray) and a.dtype == object else rpinv(a, *x, **k)


class SymRGI:
    """multilinear interpolation on a rectilinear grid (scipy RegularGridInterpolator, linear)"""
    def __init__(self, points, values, method='linear', bounds_error=True, fill_value=float('nan')):
        if method != 'linear':
            raise Unsupported('RegularGridInterpolator ' + method)
        self.grid = [sh._objarray(p).tolist() for p in points]
        self.values = sh._objarray(values)
        self.bounds_error = bounds_error
        self.fill_value = fill_value

    def _loc(self, g, x):
        n = len(g)
        if bool(s_cmp(x, g[0], 'lt')) or bool(s_cmp(g[-1], x, 'lt')):
            if self.bounds_error:
                raise ValueError('One of the requested xi is out of bounds')
            return None
        if n == 1:
            return 0, 0, 0.0
        for i in range(n - 1):
            if i == n - 2 or bool(s_cmp(x, g[i + 1], 'lt')):
                w = sym.s_div(s_sub(x, g[i]), s_sub(g[i + 1], g[i]))
                return i, i + 1, w

    def __call__(self, xi, method=None):
        if isinstance(xi, (tuple, list)):
            arrs = np.broadcast_arrays(*[sh._objarray(x) for x in xi])
            pts = np.stack(arrs, axis=-1)
        else:
            pts = sh._objarray(xi)
        out = np.empty(pts.shape[:-1], dtype=object)
        cache = {}
        for idx in np.ndindex(*out.shape):
            locs = []
            for d, g in enumerate(self.grid):
                x = pts[idx + (d,)]
                k = (d, x.key() if is_sym(x) else x)
                if k not in cache:
                    cache[k] = self._loc(g, x)
                locs.append(cache[k])
            if any(l is None for l in locs):
                out[idx] = self.fill_value
                continue
            tot = 0.0
            for corner in np.ndindex(*([2] * len(locs))):
                w = 1.0
                ii = []
                for c, (a, b, t) in zip(corner, locs):
                    ii.append(b if c else a)
                    w = s_mul(w, t if c else s_sub(1.0, t))
                if not is_sym(w) and w == 0:
                    continue
                tot = s_add(tot, s_mul(w, self.values[tuple(ii)]))
            out[idx] = tot
        return out.view(sh.SArr)


# ------------------------------------------------------------------ FITS in memory
class FakeHeader(dict):
    """header cards: case-insensitive keys, values kept as given (strings, numbers, symbols)"""
    def __init__(self, *a, **k):
        super().__init__()
        self.comments = {}

    @staticmethod
    def _k(k):
        if not isinstance(k, str):
            raise KeyError(k)
        return k.upper().replace('HIERARCH ', '')

    def __setitem__(self, k, v):
        if isinstance(v, tuple):
            v = v[0]
        if isinstance(v, np.ndarray):
            if v.ndim == 0 and v.dtype == object:
                v = v.view(np.ndarray)[()]
            else:
                raise ValueError(f'Illegal value: {v!r}')
        if isinstance(v, (list, dict)):
            raise ValueError(f'Illegal value: {v!r}')
        if isinstance(v, float) and not math.isfinite(v):
            raise ValueError(f'Floating point {v} values are not allowed in FITS headers.')
        if v is not None and not is_sym(v) and not isinstance(v, (str, bool, int, float, complex, np.generic)):
            raise ValueError(f'Illegal value: {v!r}')
        if isinstance(v, str) and len(v) > 0:
            v = v.rstrip()
        super().__setitem__(self._k(k), sh.unscalar(v))

    def __getitem__(self, k):
        kk = self._k(k)
        if not super().__contains__(kk):
            raise KeyError(f"Keyword {k!r} not found.")
        return super().__getitem__(kk)

    def __contains__(self, k):
        return super().__contains__(self._k(k))

    def __delitem__(self, k):
        super().__delitem__(self._k(k))

    def get(self, k, default=None):
        return self[k] if k in self else default

    def set(self, k, v=None, comment=None, **kw):
        self[k] = v

    def append(self, card, **k):
        self[card[0]] = card[1]

    def update(self, *a, **k):
        for o in a:
            for kk, v in (o.items() if hasattr(o, 'items') else o):
                self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def copy(self):
        h = FakeHeader()
        for k, v in self.items():
            dict.__setitem__(h, k, v)
        return h

    def add_history(self, *a, **k): pass
    def add_comment(self, *a, **k): pass


class FakeHDU:
    def __init__(self, data=None, header=None, name=None, **k):
        self.data = None if data is None else _freeze(data)
        self.header = header.copy() if header is not None else FakeHeader()
        self.name = name
        if name:
            dict.__setitem__(self.header, 'EXTNAME', name.upper())


class FakeTable(FakeHDU):
    pass


def _freeze(data):
    a = sh.asarray(data)
    if a.dtype.kind == 'b':
        raise KeyError('bool')      # FITS images cannot hold booleans
    return a.copy()


class FakeHDUList(list):
    def __init__(self, hdus=None, file=None):
        super().__init__(hdus if isinstance(hdus, (list, tuple)) else [hdus] if hdus is not None else [])

    def writeto(self, filename, overwrite=False, **k):
        FakeFits.put(filename, list(self), overwrite)

    def __getitem__(self, k):
        if isinstance(k, str):
            for h in self:
                if h.header.get('EXTNAME', '') == k.upper():
                    return h
            raise KeyError(k)
        return super().__getitem__(k)

    def index_of(self, k):
        if isinstance(k, str):
            for i, h in enumerate(self):
                if h.header.get('EXTNAME', '') == k.upper():
                    return i
            raise KeyError(f'Extension {k!r} not found.')
        return k

    def __contains__(self, k):
        if isinstance(k, str):
            return any(h.header.get('EXTNAME', '') == k.upper() for h in self)
        if isinstance(k, int):
            return -len(self) <= k < len(self)
        return any(h is k for h in self)

    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


class _FakeFits:
    Header = FakeHeader
    HDUList = FakeHDUList

    def __init__(self):
        self.files = {}

    def reset(self):
        self.files = {}

    def _key(self, filename):
        # names may contain formatted symbolic numbers: which of the known files it is, if any
        fn = str(filename)
        if fn in self.files:
            return fn
        for k in self.files:
            if text.has_tokens(fn) or text.has_tokens(k):
                r = text.eq(fn, k)
                if r is not False and bool(r):
                    return k
        return fn

    def put(self, filename, hdus, overwrite=False):
        fn = self._key(filename)
        if fn in self.files and not overwrite:
            raise OSError(f'File {fn} already exists.')
        for h in hdus:
            for k, v in h.header.items():
                if k == 'EXTNAME':
                    pass
        self.files[fn] = hdus
        self._touch(fn)

    def _touch(self, fn):
        # an (empty) file on disk, so that existence tests and file modes behave
        if text.has_tokens(fn):
            return
        with open(fn, 'ab'):
            pass

    def PrimaryHDU(self, data=None, header=None, **k): return FakeHDU(data, header)
    def ImageHDU(self, data=None, header=None, name=None, **k): return FakeHDU(data, header, name)

    def writeto(self, filename, data, header=None, overwrite=False, **k):
        self.put(filename, [FakeHDU(data, header)], overwrite)

    def append(self, filename, data, header=None, **k):
        fn = self._key(filename)
        if fn not in self.files:
            self.files[fn] = []
            self._touch(fn)
        self.files[fn].append(FakeHDU(data, header))

    def _hdus(self, filename):
        fn = self._key(filename)
        if fn not in self.files:
            raise FileNotFoundError(fn)
        return self.files[fn]

    def getdata(self, filename, *a, ext=None, header=False, **k):
        if a:
            ext = a[0]
        hs = FakeHDUList(self._hdus(filename))
        h = hs[ext if ext is not None else 0]
        if ext is None and h.data is None and len(hs) > 1:
            h = hs[1]
        if h.data is None:
            raise IndexError('No data in HDU')
        d = h.data.copy()
        return (d, h.header.copy()) if header else d

    def getheader(self, filename, *a, ext=0, **k):
        if a:
            ext = a[0]
        return FakeHDUList(self._hdus(filename))[ext].header.copy()

    def getval(self, filename, key, *a, ext=0, **k):
        return self.getheader(filename, ext)[key]

    def open(self, filename, *a, **k):
        hs = []
        for h in self._hdus(filename):
            g = FakeHDU(h.data, h.header)
            hs.append(g)
        return FakeHDUList(hs)

    def exists(self, fn):
        return self._key(fn) in self.files

    def __getattr__(self, k):
        raise Unsupported('fits.' + k)


FakeFits = _FakeFits()


class _FakePickle:
    """pickle of objects with symbolic content: kept in memory, the file itself stays empty"""
    HIGHEST_PROTOCOL = 5

    def __init__(self):
        self.files = {}

    def reset(self):
        self.files = {}

    def dump(self, obj, handle, protocol=None, **k):
        self.files[str(handle.name)] = copy.deepcopy(obj)

    def load(self, handle, **k):
        return copy.deepcopy(self.files[str(handle.name)])

    def __getattr__(self, k):
        raise Unsupported('pickle.' + k)


FakePickle = _FakePickle()


def _exists(f):
    def exists(p):
        if text.has_tokens(str(p)):
            return FakeFits.exists(p)
        return f(p)
    exists.specula_vf = True
    return exists


def patch_modules(mods, s):
    import os.path
    for k in ('exists', 'isfile'):
        if not hasattr(getattr(os.path, k), 'specula_vf'):
            setattr(os.path, k, _exists(getattr(os.path, k)))
    import pickle
    import astropy.io.fits as rf
    import scipy.interpolate
    for m in mods.values():
        d = m.__dict__
        for k, v in list(d.items()):
            if v is rf:
                d[k] = FakeFits
            elif v is pickle:
                d[k] = FakePickle
            elif v is scipy.interpolate.RegularGridInterpolator:
                d[k] = SymRGI
