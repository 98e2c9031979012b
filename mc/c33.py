"""C33: low-frequency extrapolation and correlation-length fits are exact on the functions they assume."""
import itertools
import os

import numpy as np

from mc import bench
from mc.common import close, det, expect, prod, scratch

LEVEL = 'exploration'
RULE = ('polynomial order x number of fitted frequencies x temperature x every monomial (the fit is linear) and combinations, with '
        'arbitrary values beyond the fitted frequencies; meshes x symmetries for the momentum-resolved files; Ornstein-Zernike data on '
        'a parameter grid x meshes; non-trivial: order of at least one or more than one momentum')


def vgrid(beta, n):
    return np.pi / beta * (2 * np.arange(n) + 1)


def noise(n, k):
    return det((n,), k)


def poly(c, x):
    return sum(ci * x ** i for i, ci in enumerate(c))


def extrap_case(beta, order, n_fit, extra, deg):
    from dga import analytic_continuation as ac
    x = vgrid(beta, n_fit + extra)
    c = np.zeros(order + 1)
    c[:deg + 1] = [0.7, -1.3, 0.4, 0.9, -0.25, 0.6][:deg + 1] if deg >= 0 else 0
    y = poly(c, x)
    y[n_fit:] = 100 + noise(extra, 3).real
    close(ac.poly_extrap_0(x, y, order, n_fit), c[0], 'value at zero', rtol=1e-6, atol=1e-7)
    close(ac.poly_der_extrap_0(x, y, order, n_fit), c[1] if order >= 1 else 0.0, 'slope at zero', rtol=1e-6, atol=1e-6)
    # linearity: every monomial
    for i in range(order + 1):
        y = x ** i
        y[n_fit:] = -7.0
        close(ac.poly_extrap_0(x, y, order, n_fit), 1.0 if i == 0 else 0.0, f'monomial {i}', atol=1e-6 * max(1, x[n_fit - 1] ** i))
    # least squares when there are more frequencies than coefficients
    if n_fit > order + 1:
        y = noise(len(x), 7).real
        v = np.array([[xi ** j for j in range(order + 1)] for xi in x[:n_fit]])
        sol = np.linalg.lstsq(v, y[:n_fit], rcond=None)[0]
        close(ac.poly_extrap_0(x, y, order, n_fit), sol[0], 'least-squares value', rtol=1e-5, atol=1e-6)


def zref(slope):
    z = 1 / (1 - slope)
    z = min(max(z, 0), 1)
    return 1 if z == 0 else z


def gamma_case(beta, order, n_fit, gam, shift, slope):
    """ Im S/v must itself be a polynomial for the fit to be exact: S = shift + r v^2 + i (slope v + c v^3), gamma via S(0) """
    from dga import analytic_continuation as ac
    x = vgrid(beta, n_fit + 3)
    re = shift + 0.2 * x ** min(order, 2) * (order > 0)
    im = slope * x + (0.05 * x ** 3 if order >= 3 else 0)
    if order == 0:
        re = np.full_like(x, shift)
        im = np.zeros_like(x) if slope == 0 else slope * x
    siw = re + 1j * im
    siw[n_fit:] = 50 + 50j
    g, b, z = ac.get_gamma_bandshift_z(x, siw, order, n_fit)
    close(b, shift, 'band shift', rtol=1e-6, atol=1e-6)
    if order >= 1:
        close(g, 0.0, 'scattering rate', atol=1e-6)
    close(z, zref(slope), 'quasiparticle weight', rtol=1e-6, atol=1e-6)
    expect(0 < z <= 1, f'quasiparticle weight {z} outside (0, 1]')
    siw2 = siw - 1j * gam
    siw2[n_fit:] = 11
    g2, b2, _ = ac.get_gamma_bandshift_z(x, siw2, order, n_fit)
    close(g2 - g, gam, 'added scattering rate', rtol=1e-6, atol=1e-6)
    close(b2, b, 'band shift does not depend on the imaginary part', atol=1e-9)
    e = ac.extract_coefficient_imaxis(siw2, x, n_fit, order)
    close(e, (b2, g2, ac.get_gamma_bandshift_z(x, siw2, order, n_fit)[2]), 'order (band shift, scattering rate, weight)')


def selfenergy(nk, beta, niv, seed):
    """ per momentum shift, slope and rate, symmetric under the lattice symmetries (depends on cos kx, cos ky symmetrically) """
    kx, ky, kz = (2 * np.pi * np.arange(n) / n for n in nk)
    c = np.cos(kx)[:, None, None] + np.cos(ky)[None, :, None] + 0.3 * np.cos(kz)[None, None, :]
    p = np.cos(kx)[:, None, None] * np.cos(ky)[None, :, None] + 0 * c
    v = vgrid(beta, niv)
    shift, gam, slope = 0.5 + c, 0.4 + 0.1 * p, -0.5 - 0.2 * c * c
    s = shift[..., None] + 0.1 * v ** 2 + 1j * (-gam[..., None] + slope[..., None] * v)
    return np.concatenate((np.conj(s[..., ::-1]), s), -1), shift, gam, slope, v


def indices_case(nk, order, n_fit):
    from dga import analytic_continuation as ac
    s, shift, gam, slope, v = selfenergy(nk, 4.0, 8, 0)
    flat = s.reshape(-1, 16)[:, 8:]
    n = len(flat)
    for ind in (list(range(n)), list(range(n))[::-1], [0], [n - 1, 0], list(range(0, n, 2)), []):
        b, g, z = ac.extract_coeff_on_ind(flat, ind, v, n_fit, order)
        for j, i in enumerate(ind):
            w = ac.get_gamma_bandshift_z(v, flat[i], order, n_fit)
            close((g[j], b[j], z[j]), w, f'momentum {i}')
        if order >= 2:
            close(b, shift.ravel()[ind], 'band shifts', rtol=1e-5, atol=1e-5)
            close(g, gam.ravel()[ind], 'rates', rtol=1e-5, atol=1e-5)


def file_case(nk, sym, order, n_fit, beta):
    """ polynomial-fit file of a momentum-dependent function: the value of every momentum at its place """
    import matplotlib
    matplotlib.use('agg')
    import dga.plotting as plotting
    from dga import analytic_continuation as ac, brillouin_zone as bz, dga_io
    cfg = bench.make_cfg(nk, sym, 1, 1)
    grid = cfg.lattice.k_grid
    s, shift, gam, slope, v = selfenergy(nk, beta, 9, 1)
    old = plotting.plot_siwk_extrap
    plotting.plot_siwk_extrap = lambda **k: None
    try:
        with scratch() as d:
            dga_io.poly_fit(s, beta, grid, n_fit, order, name='fit', output_path=d)
            out = np.load(d + 'fit.npy', allow_pickle=True).item()
    finally:
        plotting.plot_siwk_extrap = old
    for p in np.ndindex(*nk):
        g, b, z = ac.get_gamma_bandshift_z(v, s[p][9:], order, n_fit)
        close(out['re_fs'][p], b, f'band shift at {p}', rtol=1e-7, atol=1e-9)
        close(out['im_fs'][p], g, f'rate at {p}', rtol=1e-7, atol=1e-9)
        close(out['Z'][p], z, f'weight at {p}', rtol=1e-7, atol=1e-9)
    expect(set(out) == {'re_fs', 'im_fs', 'Z'}, f'entries {set(out)}')


def dmft_file_case(order, n_fit, beta, rank, on):
    import matplotlib
    matplotlib.use('agg')
    import dga.plotting as plotting
    from dga import analytic_continuation as ac, dga_io, two_point as twop
    old = plotting.plot_siwk_extrap
    plotting.plot_siwk_extrap = lambda **k: None
    niv = 12
    s, shift, gam, slope, v = selfenergy((1, 1, 1), beta, niv, 1)
    siw = s[0, 0, 0]
    try:
        with scratch() as d:
            extra = {'poly_fitting': {'n_fit': n_fit, 'o_fit': order}} if on else {}
            cfg = bench.make_cfg((4, 4, 1), 'sq', 1, 2, siw=siw, beta=beta, out=d, comm=bench.P(rank, 2), **extra)
            cfg.poly_fit_dir = d
            before = set(os.listdir(d))
            g = twop.GreensFunction(twop.SelfEnergy(siw[None, None, None, :], beta), cfg.lattice.get_ek(), mu=0.2, niv_asympt=20)
            dga_io.dmft_poly_fit(g, cfg)
            new = set(os.listdir(d)) - before
            if rank or not on:
                expect(not new, f'files {new} written')
                return
            expect(new == {'Siw_DMFT_polyfit.txt', 'Giwk_dmft_poly_cont_.npy'}, f'files {new}')
            t = np.loadtxt(d + 'Siw_DMFT_polyfit.txt')
            gm, b, z = ac.get_gamma_bandshift_z(v, siw[niv:], order, n_fit)
            close(t, [b, gm, z], 'band shift, rate, weight of the impurity', atol=1e-6)
            out = np.load(d + 'Giwk_dmft_poly_cont_.npy', allow_pickle=True).item()
            full = g.g_full()
            m = full.shape[-1] // 2
            vv = vgrid(beta, m)
            for p in np.ndindex(4, 4, 1):
                gm, b, z = ac.get_gamma_bandshift_z(vv, full[p][m:], order, n_fit)
                close((out['re_fs'][p], out['im_fs'][p], out['Z'][p]), (b, gm, z), f'Green function at {p}', rtol=1e-7, atol=1e-9)
    finally:
        plotting.plot_siwk_extrap = old


def oz(grid, a, xi):
    out = np.zeros(grid.nk)
    for i, j, k in np.ndindex(*grid.nk):
        d2 = (grid.kx[i] - np.pi) ** 2 + (grid.ky[j] - np.pi) ** 2 + grid.kz[k] ** 2
        out[i, j, k] = a / (xi ** -2.0 + d2)
    return out


def oz_case(nk, a, xi):
    from dga import brillouin_zone as bz, ornstein_zernicke_function as ozf
    grid = bz.KGrid(nk)
    ref = oz(grid, a, xi)
    close(ozf.oz_spin_w0(grid, a, xi), ref.ravel(), 'function')
    p = ozf.fit_oz_spin(grid, ref.ravel())[0]
    close([p[0], abs(p[1])], [a, xi], 'fitted amplitude and correlation length', rtol=1e-4)


def oz_file_case(nk, niw, what):
    import matplotlib
    matplotlib.use('agg')
    import dga.plotting as plotting
    from dga import brillouin_zone as bz, dga_io
    grid = bz.KGrid(nk)
    chi = np.zeros(tuple(nk) + (2 * niw + 1,), complex)
    for w in range(2 * niw + 1):
        chi[..., w] = oz(grid, 2.0 + abs(w - niw), 1.5 + 0.1 * abs(w - niw)) + (0 if w == niw else 3.0) + 0.7j
    if what == 'nan':
        chi[0, 0, 0, niw] = np.nan
    old = plotting.plot_oz_fit
    plotting.plot_oz_fit = lambda **k: None
    try:
        with scratch() as d:
            np.save(d + 'chi_magn_lam.npy', chi)
            dga_io.fit_and_plot_oz(d, grid)
            p = np.loadtxt(d + 'oz_coeff.txt')
    finally:
        plotting.plot_oz_fit = old
    if what == 'nan':
        close(p, [-1, -1], 'failed fit')
    else:
        close([p[0], abs(p[1])], [2.0, 1.5], 'amplitude and correlation length of the static susceptibility', rtol=1e-4)


def run(ck):
    th = ck.thorough
    items = []
    for order in range(0, 5 if not th else 6):
        for n_fit, extra, beta in prod(range(order + 1, order + 5), (0, 1, 4), (1.0, 5.0, 25.0)):
            for deg in range(0, order + 1):
                items.append((f'extrap:{beta},{order},{n_fit},{extra},{deg}', (beta, order, n_fit, extra, deg)))
    ck.pcases(extrap_case, items, trivial=lambda b, o, *a: o == 0)
    items = []
    for beta, order, g, s, sl in prod((2.0, 20.0), (0, 1, 2, 3, 4), (0.0, 0.3, -0.2), (0.0, 1.1), (-300.0, -30.0, -3.0, -0.5, 0.0, 0.5, 0.999, 1.5)):
        if order == 0 and sl:
            continue
        for n_fit in (order + 1, order + 2, order + 4):
            items.append((f'gamma:{beta},{order},{n_fit},{g},{s},{sl}', (beta, order, n_fit, g, s, sl)))
    ck.pcases(gamma_case, items)
    for nk, o, n in prod(((2, 2, 1), (3, 2, 2), (1, 1, 1), (4, 4, 1)), (1, 2, 3), (4, 6)):
        ck.case(f'indices:{nk},{o},{n}', indices_case, nk, o, n)
    items = []
    for (nk, sym), o, n, b in prod((((2, 2, 1), 'none'), ((4, 4, 1), 'none'), ((4, 4, 1), 'sq'), ((6, 6, 1), 'sq'), ((5, 5, 1), 'sq'), ((4, 6, 1), 'q1d'),
                                    ((4, 4, 2), 'sq'), ((3, 3, 3), 'q1d'), ((2, 3, 2), 'none')), (1, 2, 3), (4, 5), (3.0, 12.0)):
        items.append((f'file:{nk},{sym},{o},{n},{b}', (nk, sym, o, n, b)))
    ck.pcases(file_case, items)
    for o, n, b, r, on in prod((1, 3), (4, 6), (3.0, 12.0), (0, 1), (True, False)):
        ck.case(f'dmftfile:{o},{n},{b},rank={r},{"on" if on else "off"}', dmft_file_case, o, n, b, r, on)
    xis = (0.5, 1.0, 1.5, 2.0, 3.0, 6.0, 12.0) + ((0.3, 0.8, 2.5, 20.0) if th else ())
    items = [(f'oz:{nk},{a},{xi}', (nk, a, xi)) for nk, a, xi in prod(((4, 4, 1), (8, 8, 1), (6, 4, 1), (4, 4, 2), (5, 5, 1), (16, 16, 1)), (0.1, 1.0, 7.5), xis)]
    ck.pcases(oz_case, items)
    for nk, niw, w in prod(((4, 4, 1), (8, 8, 1), (4, 4, 2)), (0, 1, 3), ('good', 'nan')):
        ck.case(f'ozfile:{nk},{niw},{w}', oz_file_case, nk, niw, w)
