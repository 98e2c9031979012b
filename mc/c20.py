"""C20: assembly of self-energies and Green's functions (core + analytic tail, Dyson equation, energies)."""
import numpy as np

from mc import ref
from mc.common import close, det, expect, raises, same

LEVEL = 'exploration'
RULE = ('all meshes, available frequencies, core sizes (given / estimated), requested ranges, given / fitted moments in the stated ranges; '
        'generic data; every requested range is enumerated; non-trivial: more than one k-point or a range beyond the core')


def sigma_pos(nk, n, beta, seed, m0=0.4, m1=-0.35, decay=None):
    """ tail + deviation that decays (or not) """
    v = ref.nu(beta, np.arange(n))
    dev = 0.2 * det(nk + (n,), seed)
    if decay is not None:
        dev = dev * np.exp(-np.arange(n) / decay)
    return m0 + 1j * m1 / v + dev


def selfenergy(nk, n, core, given, pos, seed, decay):
    from dga import two_point as twop
    beta = 3.3 + seed
    s = sigma_pos(nk, n, beta, seed, decay=decay)
    kw = dict(smom0=0.37, smom1=-0.31) if given else {}
    r = ref.Sigma(s, beta, niv_core=core, **kw)
    data = s if pos else ref.herm_f(s)
    variants = [data]
    if nk == (1, 1, 1):
        variants.append(data[0, 0, 0])
    for d in variants:
        keep = d.copy()
        o = twop.SelfEnergy(d, beta, pos=pos, niv_core=core, **kw) if core != 'estimate' else twop.SelfEnergy(d, beta, pos=pos, **kw)
        close(d, keep, 'input not modified')
        expect(o.niv == n and o.nk == nk, 'ranges')
        if not given and not pos and False:
            continue
        close(o.smom0, r.m0, 'zeroth moment')
        close(o.smom1, r.m1, 'first moment')
        expect(o.niv_core == r.niv_core, f'core size {o.niv_core} != {r.niv_core}')
        close(o.sigma_core, r.get(r.niv_core), 'core')
        close(o.k_mean(), s.mean(axis=(0, 1, 2)), 'mean over k')
        for m in sorted({1, 2, max(1, r.niv_core - 1), r.niv_core, r.niv_core + 1, n, n + 1, n + 7, 2 * n}):
            want = r.get(m)
            close(o.get_siw(m), want, f'range {m}')
            if nk != (1, 1, 1):
                h = (-(nk[0] // 2), -(nk[1] // 2), 0)
                close(o.get_siw(m, pi_shift=True), ref.kplus(want, h), f'range {m}, shifted by pi')
        close(o.get_siw(), r.get(n), 'available range')
        for start in (None, 0, 1, r.niv_core, r.niv_core + 3):
            b = r.niv_core if start is None else start
            for m in (1, 4):
                t = np.broadcast_to(r.tail(np.arange(b, b + m)), nk + (m,))
                close(o.get_asympt(m, n_min=start), t, f'tail from {start}')
                close(o.get_asympt(m, n_min=start, pos=False), np.concatenate((np.conj(t[..., ::-1]), t), axis=-1), f'tail from {start}, both signs')


def estimate(n, first, err, seed):
    """ the estimated core contains every frequency before the deviation from the tail drops below err """
    from dga import two_point as twop
    beta = 4.0
    v = ref.nu(beta, np.arange(n))
    for part in (1, 1j, -1, -1j, 1 - 1j, -1 + 0.5j):
        dev = np.where(np.arange(n) < first, 50 * err, 0.01 * err) * part
        s = 0.2 - 0.3j / v + dev
        o = twop.SelfEnergy(s, beta, pos=True, smom0=0.2, smom1=-0.3, err=err)
        want = min(max(first, 20), n)
        expect(o.niv_core == want, f'core {o.niv_core} != {want}')


def shapes(seed):
    from dga import two_point as twop
    for bad in ((3, 4), (2, 2, 4), (1, 1, 1, 1, 4)):
        expect(raises(lambda b=bad: twop.SelfEnergy(det(b), 2., pos=True, niv_core=2)), f'shape {bad} accepted')
    o = twop.sigma_const(3.0, 0.2, (2, 1, 3), np.arange(-5, 5))
    close(o.get_siw(5)[..., 5:], -0.2j * np.ones((2, 1, 3, 5)), 'constant self-energy')
    expect(o.niv == 5 and o.nk == (2, 1, 3) and o.beta == 3.0, f'constant self-energy: {o.niv} frequencies on {o.nk} at {o.beta}')
    for u in (0.5, 2.):
        for n in (0.3, 1., 1.6):
            close(twop.get_smom0(u, n), u * n / 2, 'Hartree')
            close(twop.get_smom1(u, n), -u ** 2 * n / 2 * (1 - n / 2), 'first moment')
            close(twop.get_sum_chiupup(n), n / 2 * (1 - n / 2), 'sum rule')


def with_asympt(nk, ncore, nsh, ndmft, dcore, seed):
    from dga import two_point as twop
    beta = 3.1 + seed
    d = sigma_pos((1, 1, 1), ndmft, beta, seed)
    rd = ref.Sigma(d, beta, smom0=0.37, smom1=-0.3, niv_core=dcore)
    od = twop.SelfEnergy(d, beta, pos=True, smom0=0.37, smom1=-0.3, niv_core=dcore)
    s = ref.herm_f(det(nk + (ncore,), seed + 5))
    o = twop.create_dga_siwk_with_dmft_as_asympt(s, od, nsh)
    n = ncore + nsh
    want = np.broadcast_to(rd.get(n), nk + (2 * n,)).copy()
    want[..., nsh:nsh + 2 * ncore] = s
    expect(o.niv_core == n and o.beta == beta and o.smom0 == 0.37 and o.smom1 == -0.3, 'metadata')
    close(o.get_siw(n), want, 'core from the lattice, shell from the impurity')
    close(o.sigma_core, want, 'core from the lattice, shell from the impurity')
    t = rd.tail(np.arange(n, n + 3))
    close(o.get_siw(n + 3)[..., 2 * n + 3:], np.broadcast_to(t, nk + (3,)), 'tail')


def green(nk, n, core, nas, local, seed):
    from dga import two_point as twop
    beta, mu = 3.0 + seed, 0.23 - 0.4 * seed
    s = sigma_pos((1, 1, 1) if local else nk, n, beta, seed)
    s = s.real - 1j * np.abs(s.imag)
    ek = det(nk, seed + 3).real
    rs = ref.Sigma(s, beta, smom0=0.37, smom1=-0.3, niv_core=core)
    os_ = twop.SelfEnergy(s, beta, pos=True, smom0=0.37, smom1=-0.3, niv_core=core)
    for first in (nas, 3):
        r = ref.Green(rs, ek, mu=mu, niv_asympt=nas)
        o = twop.GreensFunction(os_, ek, mu=mu, niv_asympt=first)
        if first != nas:
            o.set_g_asympt(nas)
        expect(o.mu == mu and o.niv_full == core + nas and o.niv_core == core, 'ranges')
        close(o.core, ref.core(r.full, core), 'core')
        close(o.g_full(), r.full, 'full range')
        close(o.full, r.full, 'full range')
        close(o.g_loc, r.loc, 'local')
        close(o.k_mean('full'), r.loc, 'local')
        close(o.k_mean('core'), ref.core(r.loc, core), 'local core')
        close(o.k_mean(), ref.core(r.loc, core), 'local core')
        h = (-(nk[0] // 2), -(nk[1] // 2), 0)
        close(o.g_full(pi_shift=True), ref.kplus(r.full, h), 'shifted by pi')
        close(o.v, ref.nu(beta, np.arange(-core - nas, core + nas)), 'frequencies')
        same(o.vn, np.arange(-core - nas, core + nas), 'frequency numbers')
        close(o.v_core, ref.nu(beta, np.arange(-core, core)), 'core frequencies')
        close(o.fs(), -r.full[..., core + nas].imag / np.pi, 'Fermi surface')
        close(o.fs(pi_shift=True), ref.kplus(-r.full[..., core + nas].imag / np.pi, h), 'Fermi surface shifted by pi')
        close(o.get_sigma_full(nas), np.broadcast_to(rs.get(core + nas), o.get_sigma_full(nas).shape), 'self-energy on the full range')
        close(o.n, r.n, 'filling')
        close(o.e_kin, r.ekin(), 'kinetic energy')
        close(o.e_pot, r.epot(), 'potential energy')
    v = ref.nu(beta, np.arange(-core, core))
    close(twop.build_g(1j * v, ek, mu, rs.get(core)), ref.gk(beta, ek, mu, rs.get(core)), 'Dyson equation')
    close(twop.get_gloc(1j * v, ek, rs.get(core), mu), ref.gk(beta, ek, mu, rs.get(core)).mean(axis=(0, 1, 2)), 'local Dyson equation')


def run(ck):
    T = ck.thorough
    meshes = [(1, 1, 1), (2, 1, 1), (2, 3, 1), (3, 2, 2)] + ([(4, 4, 1), (5, 2, 3)] if T else [])
    items = [(f'sigma:nk={k},n={n},core={c},given={g},pos={p},decay={d},seed={s}', (k, n, c, g, p, s, d)) for k in meshes for n in (4, 9, 26) + ((70,) if T else ())
             for c in [1, 2, n, 'estimate'] for g in (True, False) for p in (True, False) for d in (None, 2.) for s in (0, 1)]
    ck.pcases(selfenergy, items)
    ck.pcases(estimate, [(f'estimate:n={n},first={f},err={e}', (n, f, e, 0)) for n in (5, 20, 21, 40) for f in range(0, n + 1) for e in (1e-4, 1e-2)])
    ck.case('shapes:all', shapes, 0)
    ck.pcases(with_asympt, [(f'shell:nk={k},core={c},nsh={h},n={n},dcore={d}', (k, c, h, n, d, 0)) for k in meshes for c in (1, 3, 6) for h in (1, 2, 5)
                            for n in (4, 8, 14) for d in sorted({1, 4, n})])
    ck.pcases(green, [(f'green:nk={k},n={n},core={c},nas={a},local={l},seed={s}', (k, n, c, a, l, s)) for k in meshes for n in (3, 8) for c in sorted({1, 2, n})
                      for a in (1, 4, 30) for l in (True, False) for s in (0, 1)])
    ck.assumptions.append('self-energies with an imaginary-frequency conjugation symmetry (negative frequencies are rebuilt from positive ones)')
