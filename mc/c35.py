"""C35: the maximum-entropy solver returns the unique optimum of its functional, selects alpha as configured and reports consistent numbers."""
import contextlib
import io
import itertools

import numpy as np

from mc.common import close, expect, prod, same, Fail

LEVEL = 'exploration'
RULE = ('kernel x mesh x number of data points x data set x error (or covariance matrix) x entropy weight x preblur x optimizer, every '
        'optimum compared with an independent solution of the dual convex problem; selection rules of the entropy weight on the same '
        'problems with every subset of failing optimizations; kernels element by element')

BETA = 4.0
MESH = {'lin': np.linspace(-5, 5, 31), 'tan': np.tan(np.linspace(-1.25, 1.25, 25)) / np.tan(1.25) * 6, 'shift': np.linspace(-2, 7, 28),
        'pos': np.linspace(0, 7, 29), 'postan': np.tan(np.linspace(0, 1.2, 24)) / np.tan(1.2) * 8, 'gap': np.linspace(0.5, 7, 22)}
KERNELS = ('freq_fermionic', 'freq_bosonic', 'time_fermionic', 'time_bosonic', 'freq_bosonic_xyz', 'freq_fermionic_phsym', 'time_fermionic_phsym')


def im_axis(kernel, n, beta=BETA):
    if kernel in ('freq_fermionic', 'freq_fermionic_phsym'):
        return np.pi / beta * (2 * np.arange(n) + 1)
    if kernel in ('freq_bosonic', 'freq_bosonic_xyz'):
        return 2 * np.pi / beta * np.arange(n)
    return np.linspace(0, beta, n) if n > 1 else np.array([0.3 * beta])


def element(kernel, y, x):
    """ kernel in dimensionless units (times in units of beta, frequencies in units of 1/beta for the time kernels) """
    if kernel == 'freq_fermionic':
        return 1 / (1j * y - x)
    if kernel == 'freq_bosonic':
        return 1.0 if x == 0 and y == 0 else x * x / (x * x + y * y)
    if kernel == 'time_fermionic':
        return np.exp(-y * x) / (1 + np.exp(-x)) if x > -600 else np.exp((1 - y) * x)
    if kernel == 'time_bosonic':
        if abs(x) < 1e-14:
            return 1.0
        return 0.5 * x * (np.exp(-y * x) + np.exp(-(1 - y) * x)) / (1 - np.exp(-x))
    if kernel == 'freq_bosonic_xyz':
        return 0.0 if y == 0 else -y / (x * x + y * y)
    if kernel == 'freq_fermionic_phsym':
        return -2 * y / (x * x + y * y)
    return (np.cosh(y * x) + np.cosh((1 - y) * x)) / (1 + np.cosh(x))


def axes(kernel, mesh, n, beta=BETA):
    """ (imaginary axis, real axis) in physical and in kernel units """
    im, re = im_axis(kernel, n, beta), MESH[mesh]
    if kernel.startswith('time'):
        return im, re, im / beta, re * beta
    return im, re, im, re


def kmat(kernel, im, re):
    return np.array([[element(kernel, y, x) for x in re] for y in im])


def stack(k):
    return np.concatenate((k.real, k.imag)) if np.iscomplexobj(k) else k


def weights(x):
    w = np.zeros(len(x))
    w[1:] += 0.5 * np.diff(x)
    w[:-1] += 0.5 * np.diff(x)
    return w


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        return f(*a, **kw)


# ------------------------------------------------------------------------------------------------ kernels

def kernel_case(kernel, mesh, n):
    from ana_cont import kernels
    _, _, im, re = axes(kernel, mesh, n)
    k = quiet(kernels.Kernel, kind=kernel, im_axis=im.copy(), re_axis=re.copy())
    ref = kmat(kernel, im, re)
    rt = 1e-7 if kernel == 'time_fermionic' else 1e-11      # documented asymptotic form
    close(k.matrix, ref, 'kernel matrix', rtol=rt)
    close(k.original_matrix, ref, 'original kernel matrix', rtol=rt)
    close(k.real_matrix(), stack(ref), 'real matrix', rtol=rt)
    expect((k.nw, k.niw) == (len(re), len(im)), f'sizes {(k.nw, k.niw)}')
    same(quiet(k.kernel_matrix), k.original_matrix, 'repeated evaluation')
    u = np.linalg.qr(np.vander(np.arange(1, n + 1) * 0.3) + 1j * np.eye(n))[0]
    k.rotate_to_cov_eb(u)
    close(k.matrix, u.conj().T @ ref, 'rotated kernel', rtol=rt)


def gauss_nodes(b):
    """ fine quadrature of the Gaussian on five widths on either side """
    x, w = np.polynomial.legendre.leggauss(400)
    x, w = 5 * b * x, 5 * b * w
    return x, w * np.exp(-0.5 * (x / b) ** 2) / (b * np.sqrt(2 * np.pi))


def blur_kernel(kernel, im, re, b):
    x, w = gauss_nodes(b)
    out = np.zeros((len(im), len(re)), complex if kernel == 'freq_fermionic' else float)
    for i, y in enumerate(im):
        for j, r in enumerate(re):
            if kernel == 'freq_fermionic':
                out[i, j] = np.sum(w / (1j * y - r - x))
            else:
                f = (lambda s: np.ones_like(s)) if y == 0 else (lambda s: s * s / (s * s + y * y))
                out[i, j] = 0.5 * np.sum(w * (f(r + x) + f(r - x)))
    return out


def preblur_case(kernel, mesh, n, b):
    from ana_cont import kernels
    im, re, _, _ = axes(kernel, mesh, n)
    k = kernels.Kernel(kind=kernel, im_axis=im, re_axis=re)
    plain = k.matrix.copy()
    quiet(k.preblur, b)
    if b > 0:
        close(k.matrix, blur_kernel(kernel, im, re, b), 'blurred kernel', rtol=1e-5)
    else:
        same(k.matrix, plain, 'kernel without blur')
    same(k.original_matrix, plain, 'original kernel')
    if b <= 0:
        return
    # a Gaussian well inside the window becomes a wider Gaussian; the bosonic spectrum is continued evenly
    fine = np.linspace(-10, 10, 401) if kernel == 'freq_fermionic' else np.linspace(0, 10, 201)
    k = kernels.Kernel(kind=kernel, im_axis=im, re_axis=fine)
    quiet(k.preblur, b)
    c0, s = (0.6, 0.8) if kernel == 'freq_fermionic' else (0.0, 0.8)
    h = np.exp(-0.5 * ((fine - c0) / s) ** 2) / s
    t = np.hypot(s, b)
    close(k.blur(h), np.exp(-0.5 * ((fine - c0) / t) ** 2) / t, 'blurred Gaussian', rtol=2e-4)
    close(k.blur(3 * h), 3 * k.blur(h), 'blur is linear')
    if kernel == 'freq_bosonic':
        g = np.exp(-0.5 * ((fine - 2.0) / 0.5) ** 2)
        t = np.hypot(0.5, b)
        r = 0.5 / t * (np.exp(-0.5 * ((fine - 2.0) / t) ** 2) + np.exp(-0.5 * ((fine + 2.0) / t) ** 2))
        close(k.blur(g), r, 'even continuation of the bosonic spectrum', rtol=2e-3)


# ------------------------------------------------------------------------------------------------ optimum

def spectra(re, positive):
    """ positive spectra on the mesh """
    span = re[-1] - re[0]
    c = 0.5 * (re[0] + re[-1])
    out = {'peak': np.exp(-((re - c - 0.1 * span) / (0.12 * span)) ** 2), 'two': np.exp(-((re - c + 0.2 * span) / (0.1 * span)) ** 2)
           + 0.5 * np.exp(-((re - c - 0.25 * span) / (0.08 * span)) ** 2), 'flat': np.ones_like(re)}
    for a in out.values():
        a /= np.sum(a * weights(re))
    return out


def models(re):
    flat = np.ones_like(re) / (re[-1] - re[0])
    g = np.exp(-0.5 * ((re - re.mean()) / (0.3 * (re[-1] - re[0]))) ** 2) + 0.02
    return {'flat': flat, 'gauss': g / np.sum(g * weights(re)), 'heavy': 2.5 * flat}


def dual(kr, wt, model, d, einv, alpha):
    """ unique maximum of alpha S - chi2/2: A = D exp(K^T l) with alpha E^-1 l + K (w A) = d (strictly convex dual, damped Newton) """
    lam = np.zeros(len(d))

    def phi(l):
        with np.errstate(over='ignore'):
            return 0.5 * alpha * np.sum(einv * l * l) + np.sum(wt * model * np.exp(kr.T @ l)) - d @ l

    p = phi(lam)
    for _ in range(500):
        a = model * np.exp(kr.T @ lam)
        g = alpha * einv * lam + kr @ (wt * a) - d
        h = alpha * np.diag(einv) + (kr * (wt * a)) @ kr.T
        step = np.linalg.solve(h, g)
        dec = g @ step
        if np.max(np.abs(kr.T @ step)) < 1e-8 or dec < 1e-18 * max(1.0, abs(p)):
            return model * np.exp(kr.T @ (lam - step))
        t = 1.0
        while True:
            q = phi(lam - t * step)
            if np.isfinite(q) and q <= p - 1e-4 * t * dec + 1e-13 * abs(p):
                break
            t *= 0.5
            if t < 1e-12:
                raise RuntimeError('reference stalled')
        lam, p = lam - t * step, q
    raise RuntimeError('reference did not converge')


def problem(kernel, mesh, n, spec, noisy=1.0):
    im, re, kim, kre = axes(kernel, mesh, n)
    k = kmat(kernel, kim, kre)
    a = spectra(re, True)[spec]
    d = k @ (weights(re) * a)
    if noisy > 0:
        d = d * (1 + noisy * 0.003 * np.cos(3.1 * np.arange(n))) + noisy * 0.001 * np.sin(1.7 * np.arange(n))
        if np.iscomplexobj(k):
            d = d + noisy * 0.002j * np.cos(2.3 * np.arange(n))
    return im, re, kim, kre, k, d


def solver(kernel, kim, kre, d, **kw):
    from ana_cont import solvers
    return quiet(solvers.MaxentSolverSVD, kim, kre, d, kernel_mode=kernel, verbose=False, **kw)


def entropy(a, model, wt):
    return float(np.sum(wt * (a - model - a * np.log(a / model))))


def optimum_case(kernel, mesh, n, spec, model, err, cov, alpha, b, optimizer):
    im, re, kim, kre, k, d = problem(kernel, mesh, n, spec)
    wt = weights(kre)
    s = 1.0
    if kernel.startswith('time'):
        s = BETA             # spectra per dimensionless frequency
    mod = models(re)[model] / s
    std = err * (1 + 0.5 * np.cos(np.arange(n)) ** 2)
    keep = d.copy(), std.copy(), mod.copy()
    if cov == 'std':
        kw, u, var = {'stdev': std}, np.eye(n), std ** 2
    elif cov == 'diag':
        kw, u, var = {'cov': np.diag(std ** 2)}, np.eye(n), std ** 2
    else:
        q = np.linalg.qr(np.vander(np.linspace(0.2, 1, n), n) + np.eye(n) + (0.4j * np.ones((n, n)) if kernel == 'freq_fermionic' and cov == 'complex' else 0))[0]
        c = (q * std ** 2) @ q.conj().T
        kw = {'cov': c}
        var, u = np.linalg.eigh(c)
    if b:
        kw.update(preblur=True, blur_width=b)
        km = blur_kernel(kernel, kim, kre, b)
    else:
        km = k
    sol = solver(kernel, kim, kre, d.copy(), model=mod, optimizer=optimizer, **kw)
    o = quiet(sol.maxent_optimization, alpha, np.zeros(sol.n_sv))
    same(d, keep[0], 'data')
    same(std, keep[1], 'errors')
    same(mod, keep[2], 'model')
    if n > 1 and cov not in ('std', 'diag'):
        kr, dr = u.conj().T @ km, u.conj().T @ d
    else:
        kr, dr = km, d
    kr, dr = stack(kr), stack(dr)
    ev = np.concatenate((var, var)) if kernel == 'freq_fermionic' else var
    a = dual(kr, wt, mod, dr, ev, alpha)
    expect(np.all(o.A_opt >= -1e-12), 'negative spectrum')
    if b:
        aref = sol.kernel.blur(a)
        expect(o.blur_width == b, 'blur width')
    else:
        aref = a
        expect(o.blur_width == 0, 'blur width')
        close(o.entropy, entropy(o.A_opt, mod, wt), 'entropy of the result', rtol=1e-8, atol=1e-10)
        back = km @ (wt * o.A_opt)
        close(o.backtransform, back, 'transform of the result', rtol=1e-9)
        res = stack(u.conj().T @ (d - back)) if cov not in ('std', 'diag') else stack(d - back)
        close(o.chi2, np.sum(res ** 2 / ev), 'chi-squared of the result', rtol=1e-6, atol=1e-7)
        close(o.norm, np.sum(wt * o.A_opt), 'weight of the result', rtol=1e-10)
    tol = 2e-3
    close(o.A_opt, aref, 'spectrum', rtol=tol)
    close(o.entropy, entropy(a, mod, wt), 'entropy', rtol=5e-3, atol=1e-4)
    close(o.norm, np.sum(wt * a), 'weight', rtol=tol)
    chi = np.sum((dr - kr @ (wt * a)) ** 2 / ev)
    close(o.chi2, chi, 'chi-squared', rtol=5e-3, atol=1e-3 * max(1, alpha))
    close(o.backtransform, km @ (wt * a), 'backtransform', rtol=tol)
    close(o.Q, alpha * o.entropy - 0.5 * o.chi2, 'functional', rtol=1e-10)
    expect(o.alpha == alpha, f'alpha {o.alpha}')


def offdiag_case(kernel, mesh, n, err, alpha, sign):
    """ spectra of both signs: A = D (exp(v) - exp(-v)), optimum odd in the data """
    im, re, kim, kre, k, _ = problem(kernel, mesh, n, 'flat')
    wt = weights(kre)
    sp = spectra(re, True)
    d = sign * (k @ (weights(re) * (sp['peak'] - sp['two'])))
    mod = models(re)['flat']
    sol = solver(kernel, kim, kre, d, model=mod, stdev=np.full(n, err), offdiag=True)
    o = quiet(sol.maxent_optimization, alpha, np.zeros(sol.n_sv))
    kr, dr = stack(k), stack(d)
    lam = np.zeros(len(dr))
    e2 = err ** 2
    for _ in range(500):
        v = kr.T @ lam
        g = alpha * e2 * lam + kr @ (wt * mod * 2 * np.sinh(v)) - dr
        h = alpha * e2 * np.eye(len(dr)) + (kr * (wt * mod * 2 * np.cosh(v))) @ kr.T
        st = np.linalg.solve(h, g)
        m = np.max(np.abs(kr.T @ st))
        lam = lam - st * min(1.0, 1.0 / m if m > 0 else 1.0)
        if m < 1e-12:
            break
    a = mod * 2 * np.sinh(kr.T @ lam)
    close(o.A_opt, a, 'spectrum', rtol=3e-3, atol=1e-6)
    root = np.sqrt(a ** 2 + 4 * mod ** 2)
    close(o.entropy, np.sum(wt * (root - 2 * mod - a * np.log((root + a) / (2 * mod)))), 'entropy', rtol=1e-2, atol=1e-4)
    close(o.chi2, np.sum((dr - kr @ (wt * a)) ** 2) / e2, 'chi-squared', rtol=1e-2, atol=1e-2 * max(1, alpha))
    close(o.backtransform, k @ (wt * o.A_opt), 'backtransform')


def derivative_case(kernel, mesh, n, model, alpha, off):
    """ the Jacobian handed to the root finders is the derivative of the function """
    im, re, kim, kre, k, d = problem(kernel, mesh, n, 'two')
    s = BETA if kernel.startswith('time') else 1.0
    sol = solver(kernel, kim, kre, d, model=models(re)[model] / s, stdev=np.full(n, 0.05), offdiag=off)
    f = sol.compute_f_J_offdiag if off else sol.compute_f_J_diag
    for seed in range(2):
        u = 0.3 * np.cos(np.arange(sol.n_sv) * (1 + seed) + seed)
        _, j = f(u, alpha)
        num = np.zeros_like(j)
        for i in range(sol.n_sv):
            h = np.zeros(sol.n_sv)
            h[i] = 1e-5
            num[:, i] = (f(u + h, alpha)[0] - f(u - h, alpha)[0]) / 2e-5
        close(j, num, 'Jacobian', rtol=1e-6)


# ------------------------------------------------------------------------------------------------ selection of alpha

def full(kernel, mesh, n, spec, err, mode, **kw):
    from ana_cont import continuation
    im, re, kim, kre, k, d = problem(kernel, mesh, n, spec, noisy=0.1 if kernel == 'time_bosonic' and mode == 'historic' else 1.0)
    mod = models(re)['flat']
    if kernel.startswith('time'):
        mod = mod / BETA
    if kernel == 'time_bosonic':
        d = d / BETA         # physical kernel
    p = continuation.AnalyticContinuationProblem(im_axis=im, re_axis=re, im_data=d.copy(), kernel_mode=kernel, beta=BETA)
    sol, arr = quiet(p.solve, method='maxent_svd', model=mod, stdev=np.full(n, err), alpha_determination=mode, verbose=False,
                     optimizer='newton', preblur=False, blur_width=0., **kw)
    return p, sol, arr, im, re, k, d


def physical(kernel, p, sol, re, k):
    """ relation of the returned spectrum and the returned transform """
    if kernel == 'time_bosonic':
        close(sol.backtransform, (k @ (weights(re) * sol.A_opt)) / BETA, 'transform of the spectrum', rtol=1e-8)
    else:
        close(sol.backtransform, k @ (weights(re) * sol.A_opt), 'transform of the spectrum', rtol=1e-8)


def mode_case(kernel, mesh, n, spec, err, mode):
    p, sol, arr, im, re, k, d = full(kernel, mesh, n, spec, err, mode)
    m = 2 * n if kernel == 'freq_fermionic' else n
    if mode == 'historic':
        close(sol.chi2, m, 'chi-squared equals the number of data points', rtol=1e-3)
    elif mode == 'classic':
        o = quiet(p.solver.maxent_optimization, sol.alpha, np.zeros(p.solver.n_sv), use_bayes=True)
        close(o.convergence, 1.0, 'number of good data points', rtol=2e-2)
    else:
        al = np.array([o.alpha for o in arr])
        pr = np.array([o.probability for o in arr])
        expect(np.all(np.diff(al) < 0), 'entropy weights must decrease')
        w = weights(-al) * pr
        a = np.einsum('i,ij->j', w / np.sum(w), np.array([o.A_opt for o in arr]))
        if kernel.startswith('time'):
            a = a * BETA
        close(sol.A_opt, a, 'probability-weighted spectrum', rtol=1e-8)
    expect(np.all(sol.A_opt >= 0) and np.all(np.isfinite(sol.A_opt)), 'spectrum must be positive')
    physical(kernel, p, sol, re, k)
    bayes(kernel, p, arr, re, k, n, err)


def bayes(kernel, p, arr, re, k, n, err):
    """ reported statistics of every optimization """
    kr = stack(k)
    s = BETA if kernel.startswith('time') else 1.0
    wt = weights(re) * s
    for o in arr:
        if o.convergence is None:
            continue
        lam = np.linalg.eigvalsh((np.sqrt(o.A_opt_solver if hasattr(o, 'A_opt_solver') else o.A_opt * wt)[:, None] * (kr.T @ kr / err ** 2)
                                  * np.sqrt(o.A_opt * wt)[None, :]))
        close(o.n_good, -2 * o.alpha * o.entropy, 'number of good data points')
        close(o.trace, np.sum(lam / (o.alpha + lam)), 'trace', rtol=1e-6)
        close(o.convergence, o.trace / o.n_good, 'ratio')


def kink_case(kernel, mesh, n, spec, err, start, end, div, fit):
    import scipy.optimize as opt
    p, sol, arr, im, re, k, d = full(kernel, mesh, n, spec, err, 'chi2kink', alpha_start=start, alpha_end=end, alpha_div=div, fit_position=fit)
    want, a = [], start
    while True:
        want.append(a)
        a /= div
        if a < end:
            break
    close(np.log([o.alpha for o in arr]), np.log(want), 'entropy weights')
    chi = np.array([o.chi2 for o in arr])
    ent = np.array([o.entropy for o in arr])
    expect(np.all(np.diff(chi) <= 1e-3 * chi[:-1] + 1e-8), f'chi-squared must not grow when the entropy weight is reduced: {chi}')
    expect(np.all(np.diff(ent) <= 1e-3 * np.abs(ent[:-1]) + 1e-6), f'entropy must not grow when its weight is reduced: {ent}')
    x = np.log10(want)
    c = quiet(opt.curve_fit, lambda x, a, b, c, d: a + b / (1 + np.exp(-d * (x - c))), x, np.log10(chi), p0=(0., 5., 2., 0.))[0]
    close(np.log10(sol.alpha), c[2] - fit / c[3], 'selected entropy weight', rtol=1e-5, atol=1e-5)
    o = quiet(p.solver.maxent_optimization, sol.alpha, np.zeros(p.solver.n_sv))
    close(sol.A_opt, o.A_opt * (BETA if kernel.startswith('time') else 1.0), 'spectrum at the selected weight', rtol=2e-3)
    physical(kernel, p, sol, re, k)


def failing_case(kernel, bad):
    """ optimizations failing at any subset of entropy weights: the others are unaffected and the selection uses exactly those """
    from ana_cont import solvers
    args = (kernel, 'lin' if 'ferm' in kernel else 'pos', 6, 'two', 1e-2, 'chi2kink')
    kw = dict(alpha_start=1e5, alpha_end=1e-2, alpha_div=10., fit_position=2.5)
    want = [1e5 / 10 ** i for i in range(8)]
    _, _, ref, *_ = full(*args, **kw)
    cls = solvers.MaxentSolverSVD
    orig = cls.maxent_optimization
    seen = []

    def opt(self, alpha, ustart, *a, **k):
        seen.append(alpha)
        if len(seen) <= 8 and len(seen) - 1 in bad:
            raise RuntimeWarning('Function returned NaN.')
        return orig(self, alpha, ustart, *a, **k)

    cls.maxent_optimization = opt
    try:
        p, sol, arr, *_ = full(*args, **kw)
    finally:
        cls.maxent_optimization = orig
    good = [i for i in range(8) if i not in bad]
    close([np.log10(o.alpha) for o in arr], [np.log10(want[i]) for i in good], 'successful entropy weights')
    for o, i in zip(arr, good):
        close(o.A_opt, ref[i].A_opt, f'spectrum at weight {want[i]}', rtol=2e-3)
    expect(len(seen) == 9 and sol.alpha == seen[-1], 'one final optimization at the selected weight')
    expect(np.all(sol.A_opt >= 0), 'positive spectrum')


def model_case(kernel, mesh, n, alpha, model):
    """ data of the default model are continued to the default model for every weight of the entropy """
    im, re, kim, kre, k, _ = problem(kernel, mesh, n, 'flat')
    mod = models(re)[model]
    s = BETA if kernel.startswith('time') else 1.0
    d = k @ (weights(re) * mod)
    sol = solver(kernel, kim, kre, d, model=mod / s, stdev=np.full(n, 0.01))
    o = quiet(sol.maxent_optimization, alpha, np.zeros(sol.n_sv))
    close(o.A_opt * s, mod, 'default model', rtol=1e-6)
    close(o.chi2, 0.0, 'chi-squared', atol=1e-6)
    close(o.entropy, 0.0, 'entropy', atol=1e-6)


def scale_case(kernel, mesh, n, alpha, c, e):
    """ units: amplitudes (c) and energies (e) """
    from ana_cont import continuation
    im, re, kim, kre, k, d = problem(kernel, mesh, n, 'two')
    mod = models(re)['gauss']
    if kernel.startswith('time'):
        mod = mod / BETA
    std = np.full(n, 0.01)

    def go(im, re, d, std, mod, beta, alpha):
        p = continuation.AnalyticContinuationProblem(im_axis=im, re_axis=re, im_data=d, kernel_mode=kernel, beta=beta)
        return quiet(p.partial_solution, method='maxent_svd', model=mod, stdev=std, alpha=alpha, ustart=np.zeros(500), verbose=False, optimizer='newton')

    o = go(im, re, d.copy(), std, mod, BETA, alpha)
    q = go(im, re, c * d, c * std, c * mod, BETA, alpha / c)
    close(q.A_opt, c * o.A_opt, 'amplitude', rtol=2e-3)
    close(q.chi2, o.chi2, 'chi-squared', rtol=5e-3, atol=1e-3)
    # energies
    if kernel == 'freq_fermionic':
        q = go(im * e, re * e, d / e, std / e, mod / e, BETA / e, alpha)
        close(q.A_opt, o.A_opt / e, 'energy unit', rtol=2e-3)
    elif kernel == 'freq_bosonic':
        q = go(im * e, re * e, d, std, mod / e, BETA / e, alpha)
        close(q.A_opt, o.A_opt / e, 'energy unit', rtol=2e-3)
    elif kernel == 'time_fermionic':
        q = go(im / e, re * e, d, std, mod, BETA / e, alpha)
        close(q.A_opt, o.A_opt / e, 'energy unit', rtol=2e-3)


def invalid_case():
    from ana_cont import continuation, kernels, solvers
    im, re, d, m = im_axis('freq_fermionic', 3), MESH['lin'], np.ones(3) * (1 - 1j), models(MESH['lin'])['flat']

    def raises(kind, f):
        try:
            quiet(f)
        except kind:
            return
        except Exception as e:
            raise Fail(f'{type(e).__name__} instead of {kind}') from e
        raise Fail('not refused')

    pr = lambda mode='freq_fermionic', ax=im: continuation.AnalyticContinuationProblem(im_axis=ax, re_axis=re, im_data=d, kernel_mode=mode, beta=1.0)
    raises(ValueError, lambda: pr('freq'))
    raises(ValueError, lambda: pr(ax=1j * im))
    raises(ValueError, lambda: pr().solve(method='other'))
    raises(NotImplementedError, lambda: pr().solve(method='maxent_mc'))
    raises(ValueError, lambda: kernels.Kernel(kind='x', re_axis=re, im_axis=im))
    raises(ValueError, lambda: kernels.Kernel(kind='freq_fermionic', re_axis=re))
    raises(ValueError, lambda: pr().solve(method='maxent_svd', model=m, stdev=np.ones(3), alpha_determination='x', verbose=False))
    raises(KeyError, lambda: pr().solve(method='maxent_svd', model=m, stdev=np.ones(3), verbose=False))
    raises(ValueError, lambda: solvers.MaxentSolverSVD(im, re, d, kernel_mode='freq_fermionic', model=m, stdev=np.ones(3), verbose=False,
                                                       optimizer='x').maxent_optimization(1.0, np.zeros(5)))


def run(ck):
    import ana_cont.continuation  # noqa: F401
    th = ck.thorough
    two = lambda k: ('pos', 'postan', 'gap') if ('bosonic' in k or 'phsym' in k) else ('lin', 'tan', 'shift')
    items = [(f'kernel:{k},{m},{n}', (k, m, n)) for k in KERNELS for m in two(k) for n in (1, 2, 3, 5, 9)
             if not (k == 'time_bosonic' and m == 'gap')]
    ck.pcases(kernel_case, items)
    items = [(f'preblur:{k},{m},{n},{b}', (k, m, n, b)) for k in KERNELS[:2] for m in two(k) for n, b in prod((1, 3, 6), (0.0, 0.05, 0.3, 1.0))]
    ck.pcases(preblur_case, items)
    K = KERNELS[:4]
    alphas = (1e4, 1e2, 10.0, 1.0, 1e-1) + ((1e6, 1e3, 1e-2) if th else ())
    items = []
    for k in K:
        for m in two(k):
            if k == 'time_bosonic' and m == 'gap':
                continue
            for n, sp, mo, er, al in prod((1, 2, 4, 8) + ((3, 16) if th else ()), ('peak', 'two'), ('flat', 'gauss', 'heavy') if th else ('flat', 'gauss'),
                                          (0.1, 0.01), alphas):
                items.append((f'optimum:{k},{m},{n},{sp},{mo},{er},std,{al:g},0,newton', (k, m, n, sp, mo, er, 'std', al, 0, 'newton')))
        m = two(k)[0]
        for n, er, cov, al in prod((1, 2, 4), (0.1, 0.01), ('diag', 'full', 'complex'), (100.0, 1.0)):
            if cov == 'complex' and k != 'freq_fermionic':
                continue
            items.append((f'optimum:{k},{m},{n},two,gauss,{er},{cov},{al:g},0,newton', (k, m, n, 'two', 'gauss', er, cov, al, 0, 'newton')))
        for n, er, al in prod((2, 4), (0.1, 0.01), (100.0, 1.0)):
            items.append((f'optimum:{k},{m},{n},two,flat,{er},std,{al:g},0,scipy_lm', (k, m, n, 'two', 'flat', er, 'std', al, 0, 'scipy_lm')))
        if k in K[:2]:
            for n, er, al, b in prod((1, 2, 4, 8), (0.1, 0.01), (100.0, 1.0), (0.1, 0.5)):
                items.append((f'optimum:{k},{m},{n},two,flat,{er},std,{al:g},{b},newton', (k, m, n, 'two', 'flat', er, 'std', al, b, 'newton')))
    ck.pcases(optimum_case, items)
    items = [(f'offdiag:{k},{m},{n},{er},{al:g},{s}', (k, m, n, er, al, s)) for k, m in (('freq_fermionic', 'lin'), ('freq_fermionic', 'shift'))
             for n, er, al, s in prod((1, 2, 4, 8), (0.1, 0.01), (1e3, 10.0, 1.0), (1, -1))]
    ck.pcases(offdiag_case, items)
    items = [(f'derivative:{k},{two(k)[0]},{n},{mo},{al:g},{off}', (k, two(k)[0], n, mo, al, off)) for k in K
             for n, mo, al, off in prod((2, 4, 8), ('flat', 'gauss'), (100.0, 0.1), (False, True))]
    ck.pcases(derivative_case, items)
    items = [(f'{mode}:{k},{two(k)[0]},{n},{sp},{er}', (k, two(k)[0], n, sp, er, mode)) for k in K
             for mode, n, sp, er in prod(('historic', 'classic', 'bryan'), (4, 8, 20), ('peak', 'two'), (1e-2, 3e-3))]
    ck.pcases(mode_case, items)
    items = [(f'kink:{k},{two(k)[0]},{n},{sp},{er},{s:g},{e:g},{dv},{f}', (k, two(k)[0], n, sp, er, s, e, dv, f)) for k in K
             for n, sp, er, (s, e, dv), f in prod((8, 20), ('peak', 'two'), (1e-2, 1e-3), ((1e9, 1e-3, 10.), (1e8, 1e-2, 5.), (1e6, 1.0, 3.)), (2.0, 2.5))]
    ck.pcases(kink_case, items)
    items = [(f'failing:{k},{bad}', (k, bad)) for k in K[:2] for r in ((0, 1, 2) if not th else (0, 1, 2, 3)) for bad in itertools.combinations(range(8), r)]
    ck.pcases(failing_case, items)
    items = [(f'model:{k},{m},{n},{al:g},{mo}', (k, m, n, al, mo)) for k in K for m in two(k) if not (k == 'time_bosonic' and m == 'gap')
             for n, al, mo in prod((1, 2, 5), (1e5, 10.0, 0.1), ('flat', 'gauss', 'heavy'))]
    ck.pcases(model_case, items)
    items = [(f'scale:{k},{two(k)[0]},{n},{al:g},{c},{e}', (k, two(k)[0], n, al, c, e)) for k in K[:3]
             for n, al, c, e in prod((2, 4), (100.0, 1.0), (0.25, 3.0), (0.5, 4.0))]
    ck.pcases(scale_case, items)
    ck.case('invalid:arguments', invalid_case)
