"""C08: irreducible Brillouin zone: sound classes, exact round trips, exact means."""
import itertools
import warnings

import numpy as np

from mc.common import close, expect, same, tagged, det

LEVEL = 'exploration'
RULE = ('all meshes in the box x all ordered selections of the known symmetries (plus the named sets); orbits are computed '
        'independently from the group action on index triples; non-trivial: at least one symmetry and more than one k-point')
SYMS = ('x-inv', 'y-inv', 'z-inv', 'x-y-sym', 'x-y-inv')


def act(sym, k, nk):
    x, y, z = k
    if sym == 'x-inv':
        return (-x % nk[0], y, z)
    if sym == 'y-inv':
        return (x, -y % nk[1], z)
    if sym == 'z-inv':
        return (x, y, -z % nk[2])
    if sym == 'x-y-inv':
        return (-x % nk[0], -y % nk[1], z)
    return (y, x, z) if nk[0] == nk[1] else k


def orbits(nk, syms):
    pts = list(itertools.product(*map(range, nk)))
    root = {}
    for p in pts:
        if p in root:
            continue
        root[p] = p
        todo = [p]
        while todo:
            k = todo.pop()
            for s in syms:
                q = act(s, k, nk)
                if q not in root:
                    root[q] = p
                    todo.append(q)
    return np.array([np.ravel_multi_index(root[p], nk) for p in pts])


def check(nk, syms, complete):
    from dga import brillouin_zone as bz
    g = bz.KGrid(nk=nk, symmetries=list(syms))
    n = int(np.prod(nk))
    orb = orbits(nk, syms)
    rep = np.asarray(g.fbz2irrk).reshape(-1)
    expect(rep.size == n and int(g.nk_tot) == n, 'wrong number of points')
    expect(np.all(orb[rep] == orb), 'a k-point is represented by one which no symmetry connects to it')
    ind = np.asarray(g.irrk_ind)
    vals, inv = np.unique(rep, return_inverse=True)
    same(np.asarray(g.irrk_inv).reshape(-1), inv.reshape(-1), 'inverse map')
    same(rep[ind], vals, 'an irreducible point does not belong to its class:')
    # from here on a class is named by its irreducible point
    same(ind, np.array([np.flatnonzero(rep == v)[0] for v in vals]), 'irreducible indices')
    if complete:
        same(ind, vals, 'representatives')
    rep = ind[inv.reshape(-1)]
    expect(np.all(orb[rep] == orb), 'a k-point is represented by one which no symmetry connects to it')
    expect(int(g.nk_irr) == ind.size, 'nk_irr')
    same(np.asarray(g.irrk_count), np.array([np.sum(rep == i) for i in ind]), 'multiplicities')
    if complete:
        expect(ind.size == np.unique(orb).size, f'{ind.size} irreducible points, but {np.unique(orb).size} orbits')
    triples = np.array(list(itertools.product(*map(range, nk)))).reshape(n, 3)
    same(np.asarray(g.get_irrq_list()), triples[ind], 'irreducible index triples')
    same(np.asarray(g.get_q_list()), triples, 'index triples')
    same(np.asarray(g.irrk_mesh_ind), triples[ind].T, 'irreducible index mesh')
    axes = [2 * np.pi * np.arange(m) / m for m in nk]
    pts = np.array([[axes[a][t[a]] for t in triples] for a in range(3)])
    close(np.asarray(g.irr_kmesh), pts[:, ind], 'irreducible momenta')
    close(np.array(g.irr_kgrid), pts[:, ind], 'irreducible momenta')
    for trail in ((), (2,), (2, 3)):
        irr = tagged((ind.size,) + trail)
        mesh = g.map_irrk2fbz(irr)
        same(mesh, irr[inv.reshape(-1)].reshape(tuple(nk) + trail), 'expansion to the mesh')
        same(g.map_irrk2fbz(irr, shape='mesh'), mesh, 'expansion to the mesh')
        same(g.map_irrk2fbz(irr, shape='list'), mesh.reshape((n,) + trail), 'expansion to the list')
        same(g.map_fbz2irrk(mesh), irr, 'mesh -> irreducible')
        same(g.map_fbz2irrk(mesh, shape='mesh'), irr, 'mesh -> irreducible')
        same(g.map_fbz2irrk(mesh.reshape((n,) + trail), shape='list'), irr, 'list -> irreducible')
        mean = mesh.reshape((n,) + trail).mean(axis=0)
        close(g.k_mean(irr), mean, 'mean over the irreducible zone')
        close(g.k_mean(irr, shape='irrk'), mean, 'mean over the irreducible zone')
        for shp in ('fbz-mesh', 'mesh'):
            close(g.k_mean(mesh, shape=shp), mean, 'mean over the mesh')
        for shp in ('fbz-list', 'list'):
            close(g.k_mean(mesh.reshape((n,) + trail), shape=shp), mean, 'mean over the list')
        gen = det(tuple(nk) + trail)
        keep = gen.copy()
        sym = g.symmetrize_irrk(gen)
        flat = gen.reshape((n,) + trail)
        want = np.array([flat[rep == r].mean(axis=0) for r in rep]).reshape(gen.shape)
        close(sym, want, 'symmetrised mesh')
        close(g.symmetrize_irrk(mesh), mesh, 'symmetrisation of a symmetric mesh')
        same(gen, keep, 'input')
        # a function with the symmetry of the lattice survives the reduction exactly
        fun = tagged((n,) + trail)[orb].reshape(tuple(nk) + trail)
        same(g.map_irrk2fbz(g.map_fbz2irrk(fun)), fun, 'symmetric function')


def named(which, nk):
    from dga import brillouin_zone as bz
    fn, want = which
    syms = getattr(bz, fn)()
    expect(set(syms) == set(want), f'{fn} returns {syms}')
    check(nk, tuple(syms), fn != 'simultaneous_x_y_inversion')


NAMED = [('two_dimensional_square_symmetries', SYMS[:2] + SYMS[3:4]), ('two_dimensional_nematic_symmetries', SYMS[:2]),
         ('quasi_two_dimensional_square_symmetries', SYMS[:4]), ('quasi_one_dimensional_square_symmetries', SYMS[:2]),
         ('simultaneous_x_y_inversion', SYMS[4:])]


def refuses(nk):
    from dga import brillouin_zone as bz
    from mc.common import raises
    expect(raises(lambda: bz.KGrid(nk=nk, symmetries=['x-inv', 'nonsense']), (AssertionError, ValueError)), 'unknown symmetry accepted')
    g = bz.KGrid(nk=nk, symmetries=['x-inv'])
    m = np.zeros(nk)
    expect(raises(lambda: g.k_mean(m, shape='nonsense'), ValueError), 'unknown shape accepted')
    expect(raises(lambda: g.map_irrk2fbz(np.zeros(g.nk_irr), shape='nonsense'), ValueError), 'unknown shape accepted')
    expect(raises(lambda: g.map_fbz2irrk(m, shape='nonsense'), ValueError), 'unknown shape accepted')


def run(ck):
    lim = (6, 6, 4) if not ck.thorough else (9, 9, 5)
    meshes = [(x, y, z) for x in range(1, lim[0] + 1) for y in range(1, lim[1] + 1) for z in range(1, lim[2] + 1)]
    ck.pcases(named, [(f'named:{w[0]},nk={nk}', (w, nk)) for w in NAMED for nk in meshes + [(8, 8, 1), (7, 7, 1), (12, 12, 1), (5, 8, 2)]])
    seqs = [()] + [s for r in (1, 2, 3) for s in itertools.permutations(SYMS, r)]
    small = [m for m in meshes if m[0] <= 5 and m[1] <= 5 and m[2] <= 2] if not ck.thorough else [m for m in meshes if max(m) <= 6]
    ck.pcases(check, [(f'sequence:{"+".join(s) or "none"},nk={nk}', (nk, s, False)) for s in seqs for nk in small],
              trivial=lambda nk, s, c: not s or nk == (1, 1, 1))
    if ck.thorough:
        seqs = [s for r in (4, 5) for s in itertools.permutations(SYMS, r)]
        ck.pcases(check, [(f'sequence:{"+".join(s)},nk={nk}', (nk, s, False)) for s in seqs for nk in [(3, 3, 2), (4, 4, 1), (5, 5, 3), (4, 3, 2)]])
    ck.pcases(refuses, [(f'unknown:nk={nk}', (nk,)) for nk in [(2, 2, 1), (3, 4, 2), (4, 4, 4), (1, 1, 1)]])
