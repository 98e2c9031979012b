"""C09: momentum shifts, mesh/list conversion, pi shift and slices are exact relabelings of the momentum grid."""
import itertools

import numpy as np

from mc.common import close, expect, same, tagged

LEVEL = 'exploration'
RULE = 'all meshes in the box, on each of them every shift vector / every slice / every axis subset; arrays carry unique tags; non-trivial: more than one k-point'
TRAILS = ((), (2,), (2, 3))


def axes(nk):
    from dga import brillouin_zone as bz
    g = bz.KGrid(nk=nk)
    n = int(np.prod(nk))
    ax = [2 * np.pi * np.arange(m) / m for m in nk]
    for a, b in zip((g.kx, g.ky, g.kz), ax):
        close(a, b, 'k-axis')
    for a, b in zip((g.kx_shift, g.ky_shift, g.kz_shift), ax):
        close(a, b - np.pi, 'shifted k-axis')
    for a, b in zip(g.grid, ax):
        close(a, b, 'grid')
    triples = np.array(list(itertools.product(*map(range, nk)))).reshape(n, 3)
    pts = np.array([[ax[i][t[i]] for t in triples] for i in range(3)])
    close(g.kmesh, pts.reshape((3,) + nk), 'kmesh')
    close(g.kmesh_list, pts, 'kmesh_list')
    same(g.kmesh_ind, triples.T.reshape((3,) + nk), 'kmesh_ind')
    same(np.reshape(g.ind, (n, 3)) if n > 1 else np.reshape(g.ind, (1, 3)), triples, 'ind')
    same(np.asarray(g.ind_lin), np.arange(n), 'ind_lin')
    same(np.asarray(g.get_q_list()), triples, 'q-list')
    for trail in TRAILS:
        mesh = tagged(nk + trail)
        lst = g.map_fbz_mesh2list(mesh)
        same(lst, np.array([mesh[tuple(t)] for t in triples]).reshape((n,) + trail), 'mesh -> list')
        same(g.map_fbz_list2mesh(lst), mesh, 'list -> mesh')
        # without symmetries the irreducible zone is the full one
        same(g.map_fbz2irrk(mesh), lst, 'mesh -> irreducible')
        same(g.map_irrk2fbz(lst), mesh, 'irreducible -> mesh')


def shifts(nk):
    from dga import brillouin_zone as bz
    g = bz.KGrid(nk=nk)
    mesh = tagged(nk + (2,))
    keep = mesh.copy()
    idx = np.indices(nk)
    for q in itertools.product(*[range(-m, m + 1) for m in nk]):
        want = mesh[tuple((idx[a] - q[a]) % nk[a] for a in range(3))]        # f(k - q)
        same(g.shift_mat_by_ind(mesh, q), want, f'shift by {q}')
        same(bz.shift_mat_by_ind(mesh, q), want, f'shift by {q}')
        same(g.shift_mat_by_ind(mesh, ind=[-i for i in q]), mesh[tuple((idx[a] + q[a]) % nk[a] for a in range(3))], f'shift by -{q}')
        if min(q) >= 0 and all(q[a] < nk[a] for a in range(3)):
            qv = [2 * np.pi * q[a] / nk[a] for a in range(3)]
            expect([int(i) for i in g.find_q_ind(qv)] == list(q), f'index of momentum {qv}')
            same(g.shift_mat_by_q(mesh, qv), want, f'shift by momentum {qv}')
            for got, ax, s in zip(g.add_q_to_kgrid(qv), (g.kx, g.ky, g.kz), qv):
                close(got, ax - s, 'shifted grid')
    same(mesh, keep, 'input')
    same(g.shift_mat_by_ind(mesh), mesh, 'no shift')


def pishift(nk):
    from dga import brillouin_zone as bz
    g = bz.KGrid(nk=nk)
    for trail in TRAILS:
        mesh = tagged(nk + trail)
        idx = np.indices(nk)
        for r in range(4):
            for ax in itertools.combinations(range(3), r):
                got = g.shift_mat_by_pi(mesh, axes=ax)
                want = mesh[tuple((idx[a] - (nk[a] // 2 if a in ax else 0)) % nk[a] for a in range(3))]
                same(got, want, f'pi shift of axes {ax}')
                if all(m % 2 == 0 or i not in ax for i, m in enumerate(nk)):
                    same(g.shift_mat_by_pi(got, axes=ax), mesh, 'twice the pi shift')
        same(g.shift_mat_by_pi(mesh), mesh[tuple((idx[a] - nk[a] // 2) % nk[a] for a in range(3))], 'pi shift')
        keep = mesh.copy()
        want = mesh[tuple((idx[a] - (nk[a] // 2 if a < 2 else 0)) % nk[a] for a in range(3))]
        same(bz.shift_mat_by_pi(mesh), want, 'planar pi shift')
        same(bz.shift_mat_by_pi(mesh, nk=nk), want, 'planar pi shift')
        same(mesh, keep, 'input')
    # the shifted array belongs to the shifted axes
    if all(m % 2 == 0 for m in nk):
        f = np.exp(1j * (g.kmesh[0] + 2 * g.kmesh[1] + 3 * g.kmesh[2]))
        kk = np.meshgrid(g.kx_shift, g.ky_shift, g.kz_shift, indexing='ij')
        close(g.shift_mat_by_pi(f), np.exp(1j * (kk[0] + 2 * kk[1] + 3 * kk[2])), 'pi-shifted function')


def slices(nk):
    from dga import brillouin_zone as bz
    g = bz.KGrid(nk=nk)
    for trail in TRAILS:
        mesh = tagged(nk + trail)
        for dim in range(3):
            ax = (g.kx, g.ky, g.kz)[dim]
            for i in range(nk[dim]):
                want = np.take(mesh, i, axis=dim)
                same(g.get_k_slice(mesh, k_slice_dim=dim, k_slice_val=ax[i]), want, 'slice')
                for eps in (0.3, -0.3):       # the nearest grid point
                    if 0 <= i + eps <= nk[dim] - 1:
                        same(g.get_k_slice(mesh, k_slice_dim=dim, k_slice_val=ax[i] + eps * 2 * np.pi / nk[dim]), want, 'nearest slice')
        same(g.get_k_slice(mesh), mesh[0], 'default slice')


def masks(nk):
    from dga import brillouin_zone as bz
    m = bz.get_bz_masks(nk)
    expect(len(m) == 4, 'four quadrants')
    tot = sum(1 - x for x in m)
    same(tot, np.ones((nk, nk), int), 'quadrants overlap or miss points')
    for x in m:
        expect(set(np.unique(x)) <= {0, 1}, 'mask values')


def run(ck):
    lim = (6, 6, 4) if not ck.thorough else (9, 9, 6)
    meshes = [(x, y, z) for x in range(1, lim[0] + 1) for y in range(1, lim[1] + 1) for z in range(1, lim[2] + 1)]
    triv = lambda nk: nk == (1, 1, 1)
    ck.pcases(axes, [(f'axes:nk={nk}', (nk,)) for nk in meshes], trivial=triv)
    ck.pcases(pishift, [(f'pishift:nk={nk}', (nk,)) for nk in meshes], trivial=triv)
    ck.pcases(slices, [(f'slices:nk={nk}', (nk,)) for nk in meshes], trivial=triv)
    ck.pcases(shifts, [(f'shifts:nk={nk}', (nk,)) for nk in meshes if np.prod(nk) <= (150 if not ck.thorough else 500)], trivial=triv)
    ck.pcases(masks, [(f'masks:nk={n}', (n,)) for n in range(1, 33)])
