"""Import specula with (symbolic) or without (concrete) the numpy shim."""
import contextlib
import importlib
import io
import os
import pkgutil
import sys
import types

REPO = os.environ.get('SPECULA_REPO', '/repo')
Z3PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
SKIP = ('specula.scripts', 'specula.display', 'specula.template', 'specula.lib.display_server_api',
        'specula.processing_objects.display_server', 'specula.lib.ELT', 'specula.processing_objects.terminal_input',
        'specula.processing_objects.specula_input')


def prepare():
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ['SPECULA_DISABLE_GPU'] = 'TRUE'
    if 'MPLCONFIGDIR' not in os.environ or not os.access(os.environ['MPLCONFIGDIR'], os.W_OK):
        os.environ['MPLCONFIGDIR'] = '/tmp/verif-mpl-%d' % os.getuid()
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if Z3PATH not in sys.path:
        sys.path.append(Z3PATH)


def import_all():
    import specula
    mods, failed = {}, {}
    for info in pkgutil.walk_packages(specula.__path__, 'specula.'):
        if info.name.startswith(SKIP):
            continue
        try:
            mods[info.name] = importlib.import_module(info.name)
        except Exception as e:          # optional dependencies
            failed[info.name] = f'{type(e).__name__}: {e}'
    return mods, failed


def load_concrete(precision=0):
    prepare()
    import specula
    with contextlib.redirect_stdout(io.StringIO()):
        specula.init(-1, precision=precision)
        mods, failed = import_all()
    return mods


def load_symbolic(precision=0):
    prepare()
    import numpy as np
    import scipy.fft, scipy.linalg, scipy.ndimage, scipy.interpolate, scipy.special, scipy.signal, scipy.optimize, scipy.fftpack  # noqa
    import astropy.io.fits, yaml, matplotlib, matplotlib.pyplot  # noqa
    try:
        import astropy.modeling, skimage.restoration, control  # noqa
    except Exception:
        pass
    from . import shim as sh
    from . import stubs
    import specula
    real_np = np
    specula.np = sh.shim
    f = [sh.SymFloat64, sh.SymFloat32]
    c = [sh.SymComplex128, sh.SymComplex64]
    specula.cpu_float_dtype_list = f
    specula.cpu_complex_dtype_list = c
    specula.gpu_float_dtype_list = f
    specula.gpu_complex_dtype_list = c
    stubs.patch_scipy()
    with contextlib.redirect_stdout(io.StringIO()):
        specula.init(-1, precision=precision)
        mods, failed = import_all()
    for m in list(mods.values()) + [specula]:
        inject(m, real_np, sh)
    stubs.patch_modules(mods, sh)
    return mods, failed


def inject(m, real_np, sh):
    import math
    d = m.__dict__
    for k, v in list(d.items()):
        if v is real_np:
            d[k] = sh.shim
        elif v is math:
            d[k] = sh.smath_mod
        elif isinstance(v, types.FunctionType) and v.__module__ == m.__name__:
            fix_defaults(v, real_np, sh)
        elif isinstance(v, type) and v.__module__ == m.__name__:
            for kk, vv in list(vars(v).items()):
                g = vv.__func__ if isinstance(vv, (staticmethod, classmethod)) else vv
                if isinstance(g, property):
                    g = g.fget
                if isinstance(g, types.FunctionType):
                    fix_defaults(g, real_np, sh)
    d.setdefault('float', sh.sfloat)
    d.setdefault('int', sh.sint)
    d.setdefault('round', sh.sround)


def fix_defaults(f, real_np, sh):
    seen = set()
    while f is not None and id(f) not in seen:
        seen.add(id(f))
        if f.__defaults__:
            f.__defaults__ = tuple(fix1(x, real_np, sh) for x in f.__defaults__)
        if f.__kwdefaults__:
            f.__kwdefaults__ = {k: fix1(x, real_np, sh) for k, x in f.__kwdefaults__.items()}
        f = getattr(f, '__wrapped__', None)


def fix1(x, real_np, sh):
    if x is real_np:
        return sh.shim
    if x is real_np.float32:
        return sh.SymFloat32
    if x is real_np.float64:
        return sh.SymFloat64
    return x
