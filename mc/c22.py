"""C22: tight-binding Hamiltonians in momentum space and their velocity vertices are the exact Fourier sums of the hoppings."""
import itertools

import numpy as np

from mc.common import close, det, expect, raises

LEVEL = 'exploration'
RULE = ('all model constructors x parameter grids x meshes, plus generic real-space Hamiltonians (bands x lattice vectors x weights) against '
        'explicit loops over lattice vectors; non-trivial: more than one k-point')


def kpts(nk):
    return [(i, tuple(2 * np.pi * i[a] / nk[a] for a in range(3))) for i in itertools.product(*map(range, nk))]


def fourier(hr, rg, w, nk, der=None):
    nb = hr.shape[-1]
    out = np.zeros(tuple(nk) + (nb, nb), complex)
    for i, k in kpts(nk):
        for r in range(hr.shape[0]):
            for a in range(nb):
                for b in range(nb):
                    ph = sum(rg[r, a, b, c] * k[c] for c in range(3))
                    f = 1 if der is None else 1j * rg[r, a, b, der]
                    out[i + (a, b)] += f * hr[r, a, b] * np.exp(1j * ph) / w[r, 0]
    return out


def grid(nk):
    from dga import brillouin_zone as bz
    return bz.KGrid(nk)


def compare(h, hr, rg, w, nk, what):
    from dga import wannier
    g = grid(nk)
    want = fourier(hr, rg, w, nk)
    close(h.get_ek(g, one_band=False), want, f'{what}: H(k)')
    close(h.get_ek(g), want[..., 0, 0], f'{what}: first band')
    close(wannier.convham(hr, rg, w, g.kmesh.reshape(3, -1)).reshape(want.shape), want, f'{what}: H(k)')
    close(wannier.convham2(hr, rg, w, g.kmesh.reshape(3, -1)).reshape(want.shape), want, f'{what}: H(k), loop version')
    for d in range(3):
        v = fourier(hr, rg, w, nk, d)
        close(h.get_light_vertex(g, der=d, one_band=False), v, f'{what}: velocity {d}')
        close(h.get_light_vertex(g, der=d), v[..., 0, 0], f'{what}: velocity {d}, first band')
    close(h.get_light_vertex(g), fourier(hr, rg, w, nk, 0)[..., 0, 0], f'{what}: default direction')
    return want


def generic(nk, nb, nr, seed, perorb):
    """ arbitrary hoppings, lattice vectors and degeneracies """
    from dga import wannier
    rng = np.random.default_rng(seed)
    rvec = rng.integers(-3, 4, (nr, 3))
    rg = np.broadcast_to(rvec[:, None, None, :], (nr, nb, nb, 3)).copy().astype(float)
    if perorb:
        rg = rg + rng.integers(-1, 2, rg.shape)
    w = rng.integers(1, 5, (nr, 1))
    hr = det((nr, nb, nb), seed)
    keep = [hr.copy(), rg.copy(), w.copy()]
    h = wannier.WannierHr(hr, rg, w, wannier.create_orbs(nr, nb))
    compare(h, hr, rg, w, nk, 'generic')
    for a, b in zip((hr, rg, w), keep):
        close(a, b, 'inputs are not modified')


def one_band(nk, p):
    """ square lattice up to third neighbours """
    from dga import wannier
    t, tp, tpp = p
    h = wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(t, tp, tpp))
    e = compare(h, h.hr, h.r_grid, h.r_weights, nk, 't-tp-tpp')[..., 0, 0]
    g = grid(nk)
    mat = wannier.one_band_2d_t_tp_tpp(t, tp, tpp)
    e3 = wannier.ek_3d(g.grid, mat)
    el = wannier.ek_3d_klist(np.array(g.kmesh_list).T, mat)
    for i, (kx, ky, kz) in kpts(nk):
        want = -2 * t * (np.cos(kx) + np.cos(ky)) - 4 * tp * np.cos(kx) * np.cos(ky) - 2 * tpp * (np.cos(2 * kx) + np.cos(2 * ky))
        v = 2 * t * np.sin(kx) + 4 * tp * np.sin(kx) * np.cos(ky) + 4 * tpp * np.sin(2 * kx)
        close(e[i], want, 'dispersion')
        close(e3[i], want, 'dispersion on a mesh')
        close(wannier.ek_square(kx, ky, t, tp, tpp), want, 'closed form')
        close(wannier.del_ek_del_kx_square(kx, ky, t, tp, tpp), v, 'velocity')
        close(h.get_light_vertex(g)[i], v, 'velocity')
        q = (0.3, -0.7, 1.1)
        wq = -2 * t * (np.cos(kx + q[0]) + np.cos(ky + q[1])) - 4 * tp * np.cos(kx + q[0]) * np.cos(ky + q[1]) - 2 * tpp * (np.cos(2 * kx + 2 * q[0]) + np.cos(2 * ky + 2 * q[1]))
        close(wannier.ekpq_3d(kx, ky, kz, *q, mat), wq, 'shifted dispersion')
        close(wannier.ekpq_3d(kx, ky, kz, t_mat=mat), want, 'unshifted dispersion')
    close(el, np.array([e3[i] for i, _ in kpts(nk)]), 'dispersion on a list')


def anisotropic(nk, p):
    from dga import wannier
    tx, ty, txx, tyy, txy = p
    h = wannier.WannierHr(*wannier.wannier_one_band_2d_nematic(tx, ty, txx, tyy, txy))
    e = compare(h, h.hr, h.r_grid, h.r_weights, nk, 'nematic')[..., 0, 0]
    g = grid(nk)
    mats = [f(tx=tx, ty=ty, tppx=txx, tppy=tyy, tpxy=txy) for f in (wannier.one_band_2d_nematic, wannier.one_band_2d_quasi1d)]
    for i, (kx, ky, kz) in kpts(nk):
        want = -2 * tx * np.cos(kx) - 2 * ty * np.cos(ky) - 4 * txy * np.cos(kx) * np.cos(ky) - 2 * txx * np.cos(2 * kx) - 2 * tyy * np.cos(2 * ky)
        close(e[i], want, 'dispersion')
        for m in mats:
            close(wannier.ek_3d(g.grid, m)[i], want, 'dispersion from hopping matrix')


def presets(nk):
    from dga import wannier
    g = grid(nk)
    cases = []
    for t in (0.25, 1.0):
        cases += [(wannier.standard_cuprates(t), (t, -0.2 * t, 0.1 * t), False), (wannier.motoharu_nickelates(t), (t, -0.25 * t, 0.12 * t), False),
                  (wannier.unfrustrated_square(t), (t, 0, 0), False), (wannier.one_band_2d_triangular_t_tp_tpp(t, 0.3, 0.1), (t, 0.3, 0.1), True)]
    for mat, (t, tp, tpp), tri in cases:
        e = wannier.ek_3d(g.grid, mat)
        for i, (kx, ky, kz) in kpts(nk):
            diag = -2 * tp * np.cos(kx + ky) if tri else -4 * tp * np.cos(kx) * np.cos(ky)
            close(e[i], -2 * t * (np.cos(kx) + np.cos(ky)) + diag - 2 * tpp * (np.cos(2 * kx) + np.cos(2 * ky)), 'preset')
    for mat, (tx, ty, txy, txx, tyy) in ((wannier.Ba2CuO4_plane(), (0.0185, 0.47, 0.0068, 0.0013, 0.085)),
                                         (wannier.Ba2CuO4_plane_2d_projection(), (0.0258, 0.5181, 0.0119, -0.0014, 0.0894))):
        e = wannier.ek_3d(g.grid, mat)
        for i, (kx, ky, kz) in kpts(nk):
            close(e[i], -2 * tx * np.cos(kx) - 2 * ty * np.cos(ky) - 4 * txy * np.cos(kx) * np.cos(ky) - 2 * txx * np.cos(2 * kx) - 2 * tyy * np.cos(2 * ky), 'preset')


def emery(nk, p):
    from dga import wannier
    ed, ep, tpd, tpp, tppp = p
    h = wannier.WannierHr(*wannier.wannier_emery_model(*p))
    e = compare(h, h.hr, h.r_grid, h.r_weights, nk, 'emery')
    close(wannier.emery_model_ek(grid(nk), *p), e, 'momentum-space form')
    close(e, np.conj(np.swapaxes(e, -1, -2)), 'hermitian')
    for i, (kx, ky, kz) in kpts(nk):
        a, b = 1 - np.exp(-1j * kx), 1 - np.exp(-1j * ky)
        want = np.array([[ed, tpd * a, tpd * b], [0, ep + 2 * tppp * np.cos(kx), tpp * np.conj(a) * b], [0, 0, ep + 2 * tppp * np.cos(ky)]], complex)
        want = np.triu(want, 1) + np.conj(np.triu(want, 1)).T + np.diag(np.diag(want))
        close(e[i], want, 'Emery model')


def orbs(nr, nb):
    from dga import wannier
    o = wannier.create_orbs(nr, nb)
    expect(o.shape == (nr, nb, nb, 2), 'shape')
    r2 = {tuple(int(x) for x in np.unravel_index(r, (3, 3, 3))): r for r in range(nr)}
    g = wannier.create_r_grid(r2, nb)
    expect(g.shape == (nr, nb, nb, 3), 'shape')
    hr = np.zeros((nr, nb, nb))
    for v, r in r2.items():
        for a in range(nb):
            for b in range(nb):
                close(o[r, a, b], [a + 1, b + 1], 'orbital labels')
                close(g[r, a, b], v, 'lattice vector')
                wannier.insert_hr_elemend(hr, r2, v, a + 1, b + 1, r * 100 + a * 10 + b + 1.)
    close(hr, np.arange(nr)[:, None, None] * 100 + np.arange(nb)[None, :, None] * 10 + np.arange(nb) + 1., 'matrix elements')


def run(ck):
    T = ck.thorough
    meshes = [(1, 1, 1), (2, 1, 1), (3, 2, 1), (4, 4, 1), (2, 3, 4)] + ([(5, 5, 5), (8, 8, 1)] if T else [])
    triv = lambda nk, *a: nk == (1, 1, 1)
    ck.pcases(generic, [(f'generic:nk={k},bands={b},R={r},seed={s},perorb={p}', (k, b, r, s, p)) for k in meshes for b in (1, 2, 3) for r in (1, 2, 7)
                        for s in (0, 1) for p in (False, True)], trivial=triv)
    vals = (0., 0.25, -0.7)
    ck.pcases(one_band, [(f'square:nk={k},{p}', (k, p)) for k in meshes for p in itertools.product((1., 0.25), vals, vals)], trivial=triv)
    ck.pcases(anisotropic, [(f'nematic:nk={k},{p}', (k, p)) for k in meshes for p in itertools.product((1., 0.3), (0.5, 0.), (0., 0.2), (0.1, -0.2), (0.07,))], trivial=triv)
    ck.pcases(presets, [(f'presets:nk={k}', (k,)) for k in meshes], trivial=triv)
    ck.pcases(emery, [(f'emery:nk={k},{p}', (k, p)) for k in meshes for p in itertools.product((6.5, 0.), (0., -1.), (2.1, 0.3), (1., -0.4), (0.2,))], trivial=triv)
    ck.pcases(orbs, [(f'orbs:nr={r},bands={b}', (r, b)) for r in (1, 2, 9, 27) for b in (1, 2, 3, 5)], trivial=lambda r, b: r == 1)
