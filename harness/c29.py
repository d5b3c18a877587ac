"""C29: reconstructors."""
import os
from engine.common import H
from .util import value, step, rejects

BOUNDS = ('least squares: any full-rank matrix of 1-2 modes and 1-3 slopes (square 3x3 in thorough); minimum variance: 1-2 modes, 1-3 slopes with any response and '
          'noise and turbulence covariances that are arbitrary, diagonal or of any scale; size operations on arbitrary matrices of up to 4x4, every size')
OUTSIDE = 'rank-deficient matrices (pseudo-inverse of the array library); n_modes_to_drop, w_vec (declared not implemented); the covariance of turbulence itself'
ASSUMPTIONS = ['numpy.linalg.inv and pinv are encoded by cofactors over the reals, pinv for full rank', 'matrices are at least 1e-3 away from rank deficiency']


def intmat(c, A, **k):
    from specula.data_objects.intmat import Intmat
    return Intmat(A, target_device_idx=-1, precision=0, **k)


def det2(A):
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    return sum((-1) ** j * A[0, j] * det2(A[1:, [k for k in range(n) if k != j]]) for j in range(n))


def regular(c, A):
    """full rank, away from the limit"""
    m, n = A.shape
    G = A if m == n else (A.T @ A if m > n else A @ A.T)
    d = det2(G)
    c.assume(c.Or(d >= 0.05, d <= -0.05))


def h_invert(c, ns=2, nm=2, keep=None, via='generate'):
    A, v = c.arr('A', (ns, nm), -2, 2), c.arr('v', nm, -3, 3)
    k = keep or nm
    B = A[:, :k]
    regular(c, B)
    im = intmat(c, A)
    if via == 'generate':
        rec = im.generate_rec(keep) if keep else im.generate_rec()
    elif via == 'calibrator':
        from specula.processing_objects.rec_calibrator import RecCalibrator
        from specula.data_objects.recmat import Recmat
        o = RecCalibrator(nmodes=k, data_dir=os.path.join(str(c.tmp), 'cal'), rec_tag='rec', target_device_idx=-1, precision=0)
        o.inputs['in_intmat'].set(im)
        o.setup()
        o.finalize()
        rec = Recmat.restore(os.path.join(str(c.tmp), 'cal', 'rec.fits'), target_device_idx=-1)
    R = rec.recmat
    c.check(R.shape == (k, ns) and rec.nmodes == k, 'one row per mode, one column per slope')
    c.close(R @ (B @ v[:k]), v[:k], 'the modes are recovered from their slopes', 1e-3)
    if k == nm and ns > nm:
        # least squares: slopes out of reach of the modes do not matter
        s = c.arr('s', ns, -3, 3)
        c.close(B.T @ (B @ (R @ s)), B.T @ s, 'least-squares solution', 1e-2)
    c.equal(im.intmat, A, 'the interaction matrix is left alone')


def h_multi_rec(c, n=2, ns=2, k=1):
    from specula.processing_objects.multi_rec_calibrator import MultiRecCalibrator
    from specula.data_objects.recmat import Recmat
    As = [c.arr(f'A{i}', (ns, k), -2, 2) for i in range(n)]
    v = c.arr('v', k, -3, 3)
    F = c.xp.vstack(As)
    for a in As + [F]:
        regular(c, a)
    d = os.path.join(str(c.tmp), 'cal')
    o = MultiRecCalibrator(nmodes=k, data_dir=d, rec_tag='rec', full_rec_tag='full', target_device_idx=-1, precision=0)
    o.inputs['intmat_list'].set([intmat(c, a) for a in As])
    o.inputs['full_intmat'].set(intmat(c, F))
    o.setup()
    o.finalize()
    for i, a in enumerate(As):
        R = Recmat.restore(os.path.join(d, f'rec{i}.fits'), target_device_idx=-1).recmat
        c.close(R @ (a @ v), v, 'each sensor has its own reconstructor', 1e-3)
    R = Recmat.restore(os.path.join(d, 'full.fits'), target_device_idx=-1).recmat
    c.check(R.shape == (k, n * ns), 'the joint reconstructor uses all sensors')
    c.close(R @ (F @ v), v, 'the joint reconstructor', 1e-3)


def spd(c, name, n, kind='full', lo=0.2, hi=3):
    """a covariance matrix: any diagonal, or any correlation below 0.9"""
    d = [c.real(f'{name}{i}', lo, hi) for i in range(n)]
    M = c.xp.zeros((n, n))
    for i in range(n):
        M[i, i] = d[i]
    if kind == 'full':
        for i in range(n):
            for j in range(i):
                r = c.real(f'{name}r{i}{j}', -0.5, 0.5)
                c.assume(r * r <= 0.2 * d[i] * d[j])
                M[i, j] = M[j, i] = r
    return M


def optimal(c, W, A, Cx, Cz, tol=1e-3):
    """W (A Cx A' + Cz) = Cx A', the same as (A' Cz^-1 A + Cx^-1) W = A' Cz^-1"""
    c.check(W.shape == (A.shape[1], A.shape[0]), 'one row per mode, one column per slope')
    c.close(W @ (A @ Cx @ A.T + Cz), Cx @ A.T, 'normal equations of the minimum-variance estimate', tol)


def h_mmse(c, ns=2, nm=2, noise='full', atm='full', inverse=False, scale=1.0):
    from specula.lib.mmse_reconstructor import compute_mmse_reconstructor
    A = c.arr('A', (ns, nm), -2, 2)
    Cx = spd(c, 'x', nm, atm)
    k = {}
    if noise is None:
        Cz = c.xp.eye(ns)
    elif noise == 'wfs1':
        z = c.real('z', 0.2, 3)
        k['noise_variance'], Cz = [z], z * c.xp.eye(ns)
    elif noise == 'wfs':
        zs = [c.real(f'z{i}', 0.2, 3) for i in range(ns)]
        k['noise_variance'], Cz = zs, c.xp.diag(c.xp.array(zs))
    elif noise == 'wfs2':
        z0, z1 = c.real('z0', 0.2, 3), c.real('z1', 0.2, 3)
        k['noise_variance'], Cz = [z0, z1], c.xp.diag(c.xp.array([z0] * (ns // 2) + [z1] * (ns // 2)))
    else:
        Cz = spd(c, 'z', ns, noise)
        k['c_noise'] = Cz * scale
    if inverse:
        # Cx and Cz are the inverses of the covariances
        W = compute_mmse_reconstructor(A, Cx, c.xp, c.xp.float64, c_inverse=True, **k)
        c.close((A.T @ Cz @ A + Cx) @ W, A.T @ Cz, 'normal equations, from inverses', 1e-3)
        return
    keep = A.copy(), Cx.copy()
    W = compute_mmse_reconstructor(A, Cx * scale, c.xp, c.xp.float64, **k)
    optimal(c, W, A, Cx, Cz)
    c.equal(A, keep[0], 'the interaction matrix is left alone')


def h_generate(c, ns=2, nm=2, keep=None, noise='scalar', m2c=False):
    """reconstructor of an interaction matrix, with the covariance of its modal base"""
    from specula.data_objects import intmat as mod
    A = c.arr('A', (ns, nm), -2, 2)
    k = keep or nm
    Cx = spd(c, 'x', nm + 1 if keep else nm)
    got = {}

    def covmat(mask, diameter, ifs, r0, L0, **kw):
        got.update(mask=mask, d=diameter, ifs=ifs, r0=r0, L0=L0)
        return Cx
    z = c.real('z', 0.2, 3)
    if noise == 'scalar':
        cn, Cz = z, z * c.xp.eye(ns)
    elif noise == 'list1':
        cn, Cz = [z], z * c.xp.eye(ns)
    elif noise == 'array1':
        cn, Cz = c.xp.array([z]), z * c.xp.eye(ns)
    elif noise == 'array11':
        cn, Cz = c.xp.array([[z]]), z * c.xp.eye(ns)
    elif noise == 'list':
        cn = [z] + [c.real(f'z{i}', 0.2, 3) for i in range(1, ns)]
        Cz = c.xp.diag(c.xp.array(cn))
    elif noise == 'vector':
        cn = c.xp.array([z] + [c.real(f'z{i}', 0.2, 3) for i in range(1, ns)])
        Cz = c.xp.diag(cn)
    else:
        cn = Cz = spd(c, 'z', ns)

    class Base:
        mask_inf_func = 'mask'
        influence_function = c.arr('I', (3, 2), -2, 2)

    class M2C:
        m2c = c.arr('M', (3, 2), -2, 2)
    old, mod.compute_ifs_covmat = mod.compute_ifs_covmat, covmat
    try:
        rec = intmat(c, A).generate_rec_mmse(0.1, 20.0, 8.0, Base, cn, nmodes=keep, m2c=M2C if m2c else None)
    finally:
        mod.compute_ifs_covmat = old
    c.check(got['mask'] == 'mask' and got['d'] == 8.0 and got['r0'] == 0.1 and got['L0'] == 20.0, 'covariance for the given turbulence')
    c.close(got['ifs'], M2C.m2c.T @ Base.influence_function if m2c else Base.influence_function, 'covariance of the modes', 1e-4)
    optimal(c, rec.recmat, A[:, :k], Cx[:k, :k], Cz)


def h_sizes(c, ns=3, nm=3):
    """every change of size keeps what remains where it was"""
    A = c.arr('A', (ns, nm), -5, 5)
    for k in range(1, nm + 3):
        im = intmat(c, A.copy())
        im.set_nmodes(k)
        c.check(im.intmat.shape == (ns, k) and im.nmodes == k and im.nslopes == ns, 'requested number of modes')
        for j in range(k):
            c.equal(im.intmat[:, j], A[:, j] if j < nm else 0 * A[:, 0], 'modes keep their place, new ones are empty')
        c.equal(im.modes[0], A[:, 0], 'access by mode after a change of size')
    for k in range(1, ns + 3):
        im = intmat(c, A.copy())
        im.set_nslopes(k)
        c.check(im.intmat.shape == (k, nm) and im.nslopes == k and im.nmodes == nm, 'requested number of slopes')
        for j in range(k):
            c.equal(im.intmat[j], A[j] if j < ns else 0 * A[0], 'slopes keep their place, new ones are empty')
        c.equal(im.slopes[0], A[0], 'access by slope after a change of size')
    for k in range(nm):
        im = intmat(c, A.copy())
        im.reduce_size(k)
        c.equal(im.intmat, A[:, :nm - k], 'the last modes are discarded')
        im = intmat(c, A.copy())
        im.set_start_mode(k)
        c.equal(im.intmat, A[:, k:], 'modes from the first one on')
    for k in range(ns):
        im = intmat(c, A.copy())
        im.reduce_slopes(k)
        c.equal(im.intmat, A[:ns - k], 'the last slopes are discarded')
    for k in (nm, nm + 1):
        c.check(rejects(lambda: intmat(c, A.copy()).reduce_size(k), ValueError), 'discarding every mode is rejected')
        c.check(rejects(lambda: intmat(c, A.copy()).set_start_mode(k), ValueError), 'a start beyond the last mode is rejected')
    for k in (ns, ns + 1):
        c.check(rejects(lambda: intmat(c, A.copy()).reduce_slopes(k), ValueError), 'discarding every slope is rejected')


def h_views(c, ns=3, nm=4):
    """access by mode and by slope, also for writing"""
    A, v, w = c.arr('A', (ns, nm), -5, 5), c.arr('v', ns, -5, 5), c.arr('w', nm, -5, 5)
    for j in range(nm):
        im = intmat(c, A.copy())
        im.modes[j] += v
        for i in range(nm):
            c.equal(im.intmat[:, i], A[:, i] + v if i == j else A[:, i], 'writing a mode')
    for j in range(ns):
        im = intmat(c, A.copy())
        im.slopes[j] = w
        for i in range(ns):
            c.equal(im.intmat[i], w if i == j else A[i], 'writing a slope')
    im = intmat(c, A.copy())
    c.equal(im.modes[1:3], A[:, 1:3], 'range of modes')
    c.equal(im.slopes[1:], A[1:], 'range of slopes')
    im.modes[1:3] = A[:, :2]
    c.equal(im.intmat, c.xp.hstack([A[:, :1], A[:, :2], A[:, 3:]]), 'writing a range of modes')


def h_recmat(c, nm=3, ns=2):
    from specula.data_objects.recmat import Recmat
    R = c.arr('R', (nm, ns), -5, 5)
    for k in range(nm):
        r = Recmat(R.copy(), target_device_idx=-1, precision=0)
        r.reduce_size(k)
        c.check(r.nmodes == nm - k, 'requested number of modes')
        c.equal(r.recmat, R[:nm - k], 'the last modes are discarded')
    c.check(rejects(lambda: Recmat(R.copy(), target_device_idx=-1).reduce_size(nm), ValueError), 'discarding every mode is rejected')


def h_layers(c, layout=((1, 1, 0, 0), (0, 0, 1, 1))):
    """modes are put into their layer, in order"""
    from specula.data_objects.recmat import Recmat
    n = len(layout[0])
    r = Recmat(c.arr('R', (n, 2), -5, 5), target_device_idx=-1, precision=0)
    r.set_modes2recLayer(c.xp.array(layout))
    v = c.arr('v', n, -5, 5)
    c.check(len(r.proj_list) == len(layout), 'one projection per layer')
    for row, P in zip(layout, r.proj_list):
        idx = [i for i in range(n) if row[i] > 0]
        c.check(P.shape == (n, len(idx)), 'one column per mode of the layer')
        if idx:
            c.equal(v @ P, v[idx], 'the modes of the layer, in order')
            e = c.xp.zeros(n)
            e[idx] = v[idx]
            c.equal(P @ v[idx], e, 'each mode at its own position')


def h_reject(c):
    from specula.lib.mmse_reconstructor import compute_mmse_reconstructor as f
    A = c.arr('A', (3, 2), -2, 2)
    E = c.xp.eye
    c.check(rejects(lambda: f(A, E(3), c.xp, c.xp.float64), ValueError), 'a turbulence covariance of another size is rejected')
    c.check(rejects(lambda: f(A, E(2), c.xp, c.xp.float64, c_noise=E(2)), ValueError), 'a noise covariance of another size is rejected')
    c.check(rejects(lambda: f(A, E(2), c.xp, c.xp.float64, noise_variance=[1.0, 1.0]), ValueError), 'variances that leave slopes out are rejected')
    from specula.processing_objects.rec_calibrator import RecCalibrator
    c.check(rejects(lambda: RecCalibrator(2, str(c.tmp), None), ValueError), 'no file name is rejected')
    c.check(rejects(lambda: RecCalibrator(2, str(c.tmp), 'r', mmse=True), ValueError), 'minimum variance without noise is rejected')


def harnesses(tier):
    T = tier == 'thorough'
    r = [H(f'inverse {ns}x{nm} {keep or ""} {via}', h_invert, ns=ns, nm=nm, keep=keep, via=via, budget=120)
         for ns, nm, keep in [(1, 1, None), (2, 1, None), (3, 1, None), (2, 2, None), (3, 2, None), (3, 3, 2), (3, 2, 1)] for via in ('generate', 'calibrator')]
    r += [H('several sensors', h_multi_rec, budget=90), H('three sensors', h_multi_rec, n=3, ns=1, budget=90)]
    for ns, nm, noise, atm in [(1, 1, None, 'diag'), (2, 1, None, 'diag'), (1, 2, None, 'diag'), (2, 1, 'wfs1', 'diag'), (2, 1, 'wfs', 'diag'), (2, 2, 'wfs', 'diag'),
                               (4, 1, 'wfs2', 'diag'), (2, 1, 'full', 'diag'), (2, 2, None, 'full'), (2, 2, 'diag', 'full'), (2, 2, 'full', 'diag'), (1, 2, 'diag', 'full'),
                               (3, 2, None, 'diag')]:
        r.append(H(f'minimum variance {ns}x{nm} noise={noise} turbulence={atm}', h_mmse, ns=ns, nm=nm, noise=noise, atm=atm, budget=150))
    r.append(H('minimum variance, small units', h_mmse, ns=2, nm=1, noise='full', atm='diag', scale=1e-10, budget=120))
    for ns, nm, noise in [(2, 1, 'full'), (2, 2, None), (3, 1, None)]:
        r.append(H(f'minimum variance from inverses {ns}x{nm} noise={noise}', h_mmse, ns=ns, nm=nm, noise=noise, atm='full', inverse=True, budget=120))
    if T:
        r.append(H('inverse 3x3', h_invert, ns=3, nm=3, budget=300, assert_timeout=60000))
        r.append(H('minimum variance 2x2 full', h_mmse, ns=2, nm=2, budget=300, assert_timeout=60000))
        r.append(H('minimum variance 3x2', h_mmse, ns=3, nm=2, noise='wfs', atm='diag', budget=300, assert_timeout=60000))
    for noise in ('scalar', 'list1', 'array1', 'array11', 'list', 'vector', 'matrix'):
        r.append(H(f'from interaction matrix, noise {noise}', h_generate, ns=2, nm=1, noise=noise, budget=90))
    r += [H('from interaction matrix, some modes', h_generate, ns=2, nm=2, keep=1, budget=90), H('from interaction matrix, modal', h_generate, ns=1, nm=1, m2c=True),
          H('from interaction matrix, square', h_generate, ns=2, nm=2, noise='vector', budget=120)]
    r += [H('sizes', h_sizes), H('sizes 2x4', h_sizes, ns=2, nm=4), H('access', h_views), H('reconstructor sizes', h_recmat),
          H('layers', h_layers), H('layers, interleaved', h_layers, layout=((1, 0, 1, 0, 0), (0, 1, 0, 0, 1), (0, 0, 0, 1, 0))),
          H('requests that make no sense', h_reject)]
    return r
