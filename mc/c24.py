"""C24: the power iteration returns eigenpairs of the linearized gap equation; gap starts and vertex symmetrization."""
import numpy as np

from mc.common import close, det, expect, raises

LEVEL = 'exploration'
RULE = ('meshes x numbers of fermionic frequencies x Hermitian pairing vertices (generic; rank-one with all sign / dominance patterns; shifted '
        'repulsive) x shift on/off x number of eigenpairs against dense diagonalization; non-trivial: operator of dimension above 2')


def momenta(nk):
    return [(i, j, l) for i in range(nk[0]) for j in range(nk[1]) for l in range(nk[2])]


def dense(gamma, gk, norm):
    """ (k v),(k' v') matrix of the linearized gap equation """
    nk, n = gamma.shape[:3], gamma.shape[-1]
    ks = momenta(nk)
    out = np.zeros((len(ks) * n,) * 2, complex)
    for a, k in enumerate(ks):
        for b, p in enumerate(ks):
            d = tuple((k[c] - p[c]) % nk[c] for c in range(3))
            out[a * n:(a + 1) * n, b * n:(b + 1) * n] = gamma[d] * np.abs(gk[p])[None, :] ** 2 / norm
    return out


def vertex(nk, niv, kind, seed):
    """ Gamma(q)[v,v'] = conj Gamma(-q)[v',v]: the operator is self-adjoint """
    n = 2 * niv
    g = det(tuple(nk) + (n, n), 700 + seed)
    if kind == 'real':
        g = g.real + 0j
    m = g[(-np.arange(nk[0])) % nk[0]][:, (-np.arange(nk[1])) % nk[1]][:, :, (-np.arange(nk[2])) % nk[2]]
    g = 0.5 * (g + np.conj(np.swapaxes(m, -1, -2)))
    if kind == 'repulsive':      # the largest eigenvalue in magnitude is negative
        g = g - 3.0
    if kind == 'attractive':
        g = g + 3.0
    return g


def eig(nk, niv, kind, seed, shift, n_eig, norm):
    from dga import eliashberg_equation as eq
    gamma = vertex(nk, niv, kind, seed)
    gk = det(tuple(nk) + (2 * niv,), 800 + seed) + 0.3
    gap0 = np.abs(det(tuple(nk) + (2 * niv,), 900 + seed)) + 0j
    keep = gamma.copy(), gk.copy(), gap0.copy()
    np.random.seed(7)
    p = eq.EliashberPowerIteration(gamma=gamma, gk=gk, gap0=gap0, norm=norm, eps=1e-13, max_count=100000, shift_mat=shift, n_eig=n_eig)
    close(gamma, keep[0], 'vertex stays unmodified', rtol=0, atol=0)
    close(gk, keep[1], 'Green function stays unmodified', rtol=0, atol=0)
    close(gap0, keep[2], 'start gap stays unmodified', rtol=0, atol=0)
    mat = dense(gamma, gk, norm)
    ev = np.sort(np.linalg.eigvals(mat).real)
    mag = ev[np.argsort(-np.abs(ev))]
    expect(len(p.lam) == n_eig and len(p.gap) == n_eig, 'number of eigenpairs')
    s = 0.0
    if shift:
        close(p.lam_s if mag[0] < 0 else min(p.lam_s, 0), min(mag[0], 0), 'shift', rtol=0, atol=1e-6 * abs(mag[0]))
        s = min(mag[0], 0)
        want = (ev - s)[np.argsort(-np.abs(ev - s))] + s
        close(p.lam[0], ev[-1], 'largest eigenvalue', rtol=0, atol=1e-6 * np.abs(mag[0]))
    else:
        want = mag
    close(p.lam, want[:n_eig] + 0j, 'eigenvalues', rtol=0, atol=1e-6 * abs(mag[0]))
    for i in range(n_eig):
        x = np.asarray(p.gap[i])
        expect(x.shape == gk.shape, 'shape of the gap function')
        x = x.reshape(-1)
        r = np.linalg.norm(mat @ x - p.lam[i] * x) / np.linalg.norm(x)
        expect(r < 2e-4 * abs(mag[0]), f'gap function {i} does not solve the gap equation: residual {r}')


def first_guess(nk, niv, lams, mix):
    """ start vector made of two eigenvectors: the estimate after one iteration is the mean of their eigenvalues """
    from dga import eliashberg_equation as eq
    n = 2 * niv
    gamma = np.zeros(tuple(nk) + (n, n), complex)
    d = np.zeros(n)
    d[:2] = lams
    gamma[0, 0, 0] = np.diag(d)
    gap0 = np.zeros(tuple(nk) + (n,), complex)
    gap0[..., :2] = mix
    p = eq.EliashberPowerIteration(gamma=gamma, gk=np.ones_like(gap0), gap0=gap0, norm=1, eps=1e-10, shift_mat=False, n_eig=1)
    close(p.lam[0], max([l for l, m in zip(lams, mix) if m], key=abs), 'dominant eigenvalue in the start vector', atol=1e-4)


def start(nk, niv, k_type, v_type, sym):
    from dga import eliashberg_equation as eq
    from dga import brillouin_zone as bz
    g = bz.KGrid(nk, symmetries=sym)
    gap = eq.get_gap_start(shape=tuple(nk) + (2 * niv,), k_type=k_type, v_type=v_type, k_grid=g.grid)
    for k in momenta(nk):
        kx, ky = 2 * np.pi * k[0] / nk[0], 2 * np.pi * k[1] / nk[1]
        f = {'d-wave': np.cos(ky) - np.cos(kx), 'p-wave-x': np.sin(kx), 'p-wave-y': np.sin(ky)}[k_type]
        sgn = 1 if v_type == 'even' else -1
        for v in range(-niv, niv):
            close(gap[k + (v + niv,)], (f if v >= 0 else sgn * f) + 0j, f'gap start at {k} {v}', rtol=0, atol=1e-13)


def symm(nk, niv, channel, seed):
    from dga import eliashberg_equation as eq
    g = det(tuple(nk) + (2 * niv, 2 * niv), seed)
    got = eq.symmetrize_gamma(g.copy(), channel)
    s = {'sing': 1, 'trip': -1}[channel]
    want = np.zeros_like(g)
    for v in range(2 * niv):
        for vp in range(2 * niv):
            want[..., v, vp] = 0.5 * (g[..., v, vp] + s * g[..., v, 2 * niv - 1 - vp])
    close(got, want, 'symmetrized vertex')
    expect(raises(lambda: eq.symmetrize_gamma(g, 'dens'), ValueError), 'unknown channel accepted')


class Cfg:
    """ the few settings the solver reads """


def driver(nk, niv_pp, niv_g, channel, sym, gapsym, beta, shift, seed):
    """ solver as called by the main program: vertex from file, core Green function cut to the pairing box, normalization """
    from dga import eliashberg_equation as eq
    from dga import brillouin_zone as bz
    g = vertex(nk, niv_pp, 'real', seed)
    g = 0.5 * (g + g[..., ::-1, ::-1])          # even under v,v' -> -v,-v'
    cfg = Cfg()
    cfg.box, cfg.lattice, cfg.sys, cfg.eliash = Cfg(), Cfg(), Cfg(), Cfg()
    cfg.verbosity = 0
    cfg.box.niv_pp = niv_pp
    cfg.lattice.q_grid = bz.KGrid(nk, symmetries=[])
    cfg.sys.beta = beta
    cfg.eliash.gap0_sing = cfg.eliash.gap0_trip = gapsym
    cfg.eliash.sym_sing = cfg.eliash.sym_trip = sym
    cfg.eliash.eps, cfg.eliash.max_count, cfg.eliash.n_eig = 1e-13, 100000, 1
    asked = []

    def load(name):
        asked.append(name)
        return g.copy()
    cfg.eliash.load_data = load
    gk = Cfg()
    gk.core = det(tuple(nk) + (2 * niv_g,), 50 + seed)
    gk.core = gk.core + np.conj(gk.core[..., ::-1])
    np.random.seed(3)
    p = eq.linear_eliashberg(cfg, gk, channel, shift_mat=shift)
    expect(asked == [f'F_{channel}_pp'], f'vertex read: {asked}')
    gam = -g
    if sym:
        gam = 0.5 * (gam + {'sing': 1, 'trip': -1}[channel] * gam[..., ::-1])
    gg = gk.core[..., niv_g - niv_pp:niv_g + niv_pp]
    mat = dense(gam, gg, cfg.lattice.q_grid.nk_tot * beta)
    ev = np.linalg.eigvals(mat).real
    want = np.max(ev) if shift else ev[np.argmax(np.abs(ev))]
    close(p.lam, np.array([want]) + 0j, 'eigenvalue', rtol=0, atol=1e-6 * np.max(np.abs(ev)))
    x = p.gap[0].reshape(-1)
    expect(np.linalg.norm(mat @ x - want * x) < 2e-4 * np.linalg.norm(x) * np.max(np.abs(ev)), 'gap function')
    expect(raises(lambda: eq.linear_eliashberg(cfg, gk, 'dens'), ValueError), 'unknown channel accepted')


def separated(nk, niv, kind, seed, shift, n_eig, norm):
    """ power iteration has a limit only if the needed eigenvalues are separated """
    gamma = vertex(nk, niv, kind, seed)
    gk = det(tuple(nk) + (2 * niv,), 800 + seed) + 0.3
    ev = np.linalg.eigvals(dense(gamma, gk, norm)).real
    m = np.sort(np.abs(ev))[::-1]
    s = min(ev[np.argmax(np.abs(ev))], 0) if shift else 0
    if shift and len(m) > 1 and m[1] > 0.96 * m[0]:
        return False
    m = np.sort(np.abs(ev - s))[::-1]
    return len(m) > n_eig and all(m[i + 1] < 0.96 * m[i] for i in range(n_eig)) and m[n_eig] > 1e-8


def run(ck):
    t = ck.thorough
    meshes = [(1, 1, 1), (2, 1, 1), (1, 3, 1), (2, 2, 1), (3, 2, 1), (2, 2, 2), (4, 4, 1)] + ([(3, 3, 1), (4, 3, 2), (5, 2, 1), (6, 6, 1)] if t else [])
    seeds = range(12 if t else 3)
    items = []
    for nk in meshes:
        for niv in (1, 2, 3):
            for kind in ('generic', 'real', 'repulsive', 'attractive'):
                for seed in seeds:
                    for shift in (True, False):
                        for n_eig in (1, 2, 3):
                            for norm in (1.0, 12.5):
                                if norm != 1.0 and seed:
                                    continue
                                a = (nk, niv, kind, seed, shift, n_eig, norm)
                                if separated(*a):
                                    items.append((f'eigenpairs:{"x".join(map(str, nk))},v{niv},{kind},{seed},shift={shift},n={n_eig},norm={norm}', a))
    ck.pcases(eig, items, trivial=lambda nk, niv, *a: np.prod(nk) * 2 * niv <= 2)
    items = [(f'first_guess:{nk},{lams},{mix}', (nk, 1, lams, mix)) for nk in ((1, 1, 1), (2, 2, 1))
             for lams in ((0.5, 1.5), (1.25, 0.75), (3.0, -1.0), (1.0, 0.25), (0.5, 0.25), (1.0, 0.0)) for mix in ((1, 1), (1, -1), (1, 0.5), (0.5, 1), (1, 2))]
    ck.pcases(first_guess, items)
    items = [(f'start:{nk},{niv},{k},{v}', (nk, niv, k, v, s)) for nk in meshes for niv in (1, 2, 5) for k in ('d-wave', 'p-wave-x', 'p-wave-y')
             for v in ('even', 'odd') for s in ([],)]
    ck.pcases(start, items)
    items = [(f'symmetrize:{nk},{niv},{c}', (nk, niv, c, 3)) for nk in meshes for niv in (1, 2, 3) for c in ('sing', 'trip')]
    ck.pcases(symm, items)
    items = []
    for nk in meshes[:6]:
        for niv_pp in (1, 2):
            for niv_g in (niv_pp, niv_pp + 1, niv_pp + 3):
                for ch in ('sing', 'trip'):
                    for sym in (True, False):
                        for beta in (2.0, 10.0):
                            for shift in (True, False):
                                for seed in seeds:
                                    a = (nk, niv_pp, niv_g, ch, sym, {'k': 'random', 'v': 'random'}, beta, shift, seed)
                                    items.append((f'driver:{"x".join(map(str, nk))},{niv_pp},{niv_g},{ch},{sym},{beta},{shift},{seed}', a))
    items = [i for i in items if driver_separated(*i[1])]
    ck.pcases(driver, items)
    ck.assumptions += ['self-adjoint pairing vertex (as produced by the symmetrization on loading); eigenvalues separated by more than 4 % in magnitude']


def driver_separated(nk, niv_pp, niv_g, channel, sym, gapsym, beta, shift, seed):
    g = vertex(nk, niv_pp, 'real', seed)
    gam = -0.5 * (g + g[..., ::-1, ::-1])
    if sym:
        gam = 0.5 * (gam + {'sing': 1, 'trip': -1}[channel] * gam[..., ::-1])
    gk = det(tuple(nk) + (2 * niv_g,), 50 + seed)
    gk = gk + np.conj(gk[..., ::-1])
    ev = np.linalg.eigvals(dense(gam, gk[..., niv_g - niv_pp:niv_g + niv_pp], 1.0)).real
    m = np.sort(np.abs(ev))[::-1]
    if len(m) > 1 and m[1] > 0.96 * m[0]:
        return False
    s = min(ev[np.argmax(np.abs(ev))], 0) if shift else 0
    m = np.sort(np.abs(ev - s))[::-1]
    return m[0] > 1e-8 and m[1] < 0.96 * m[0]
