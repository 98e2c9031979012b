"""C10: k-paths visit exactly the grid points on the straight lines between the corner points."""
import itertools

import numpy as np

from mc.common import close, expect, same, tagged

LEVEL = 'exploration'
RULE = ('all paths over the known corner points up to the stated length plus numeric corner points, on all meshes of the list; '
        'non-trivial: the path has at least two points')
KNOWN = {'Gamma': (0, 0, 0), 'X': (.5, 0, 0), 'Y': (0, .5, 0), 'M': (.5, .5, 0), 'M2': (.25, .25, 0), 'Z': (0, 0, .5),
         'R': (.5, 0, .5), 'A': (.5, .5, .5)}


def corner(s):
    return np.array(KNOWN[s] if s in KNOWN else [float(x) for x in s.split(' ')], float)


def check(nk, corners, delim):
    from dga import brillouin_zone as bz
    p = bz.KPath(nk, delim.join(corners), path_deliminator=delim)
    nkv = np.array(nk)
    pts = np.array([corner(c) for c in corners])
    close(np.asarray(p.ckp), pts, 'corner points')
    expect(list(p.ckps) == list(corners), 'corner names')
    pos = 0
    kpts = np.asarray(p.kpts)
    for i in range(len(corners) - 1):
        a, b = pts[i] * nkv, pts[i + 1] * nkv
        n = int(p.nkp[i])
        expect(n == int(np.round(np.linalg.norm(b - a))), f'segment {i} has {n} points')
        seg = kpts[pos:pos + n]
        pos += n
        for j in range(n):
            want = a + (b - a) * j / n
            d = (seg[j] - want + nkv / 2.) % nkv - nkv / 2.
            expect(np.all(np.abs(d) <= 0.5 + 1e-9), f'point {j} of segment {i} is {seg[j]}, the straight line is at {want}')
        if n:
            same(seg[0], np.round(a).astype(int) % nkv, 'a segment has to start at its corner')
    expect(len(kpts) == pos == int(p.nk_tot), 'number of points')
    expect(np.all(kpts >= 0) and np.all(kpts < nkv), 'index outside of the grid')
    for got, c in ((p.ikx, 0), (p.iky, 1), (p.ikz, 2)):
        same(np.asarray(got), kpts[:, c], 'index along the path')
    ax = [2 * np.pi * np.arange(m) / m for m in nk]
    want = np.array([[ax[c][k[c]] for c in range(3)] for k in kpts]).reshape(-1, 3)
    close(np.asarray(p.k_points), want, 'momenta along the path')
    close(np.array(p.k_val), want.T, 'momenta along the path')
    for trail in ((), (2,), (2, 3)):
        m = tagged(tuple(nk) + trail)
        same(p.map_to_kpath(m), np.array([m[tuple(k)] for k in kpts]).reshape((len(kpts),) + trail), 'values along the path')
    axis = np.asarray(p.k_axis)
    expect(len(axis) == len(kpts) and axis[0] == 0 and (len(axis) < 2 or axis[-1] == 1), 'path axis')
    expect(len(p.labels) == len(corners), 'labels')
    expect(len(p.x_ticks) == len(corners), 'ticks')
    # bands: sorted real eigenvalues at every point of the path
    rng = np.random.default_rng(0)
    h = rng.normal(size=tuple(nk) + (2, 2)) + 1j * rng.normal(size=tuple(nk) + (2, 2))
    h = h + np.conj(np.swapaxes(h, -1, -2))
    close(p.get_bands(h), np.array([np.linalg.eigvalsh(h[tuple(k)]) for k in kpts]), 'bands along the path')
    # user-supplied axes only relabel the momenta
    p2 = bz.KPath(nk, delim.join(corners), kx=ax[0] - np.pi, ky=ax[1] + 1, kz=ax[2] + 2, path_deliminator=delim)
    same(np.asarray(p2.kpts), kpts, 'index along the path')
    close(np.asarray(p2.k_points), want + np.array([-np.pi, 1, 2]), 'momenta along the path')


def run(ck):
    names = list(KNOWN)
    meshes = [(4, 4, 1), (8, 8, 1), (8, 4, 2), (4, 8, 4), (6, 6, 6), (5, 7, 3), (16, 16, 2)]
    if ck.thorough:
        meshes += [(12, 12, 12), (9, 9, 9), (20, 10, 4), (3, 3, 1), (2, 2, 2)]
    num = ['0 0 0', '0.25 0.5 0', '0.5 0.25 0.25', '0.75 0.75 0', '1 0 0', '1 1 1', '0.75 0.25 0.5']
    pairs = [p for p in itertools.permutations(names + num, 2)]
    trip = [t for t in itertools.product(names, repeat=3) if t[0] != t[1] and t[1] != t[2]]
    long = [('Gamma', 'X', 'M', 'Gamma'), ('Gamma', 'X', 'M', 'M2', 'Gamma'), ('Gamma', 'X', 'M', 'Gamma', 'Z', 'R', 'A', 'Z'),
            ('Gamma', '0.25 0.5 0', 'A', '1 1 1'), ('Y', 'Gamma', 'Z', 'X')]
    items = []
    for nk in meshes:
        for c in pairs + (trip if nk in meshes[1:4] or ck.thorough else []) + long:
            n = [np.round(np.linalg.norm((corner(a) - corner(b)) * np.array(nk))) for a, b in zip(c[:-1], c[1:])]
            if min(n) < 1:
                continue
            items.append((f'path:nk={nk},{"-".join(c)}', (nk, c, '-')))
    items += [(f'delimiter:{d}', ((8, 8, 2), ('Gamma', 'X', 'M', '0.25 0.5 0', 'A'), d)) for d in ('-', ',', '->', '_')]
    ck.pcases(check, items)
