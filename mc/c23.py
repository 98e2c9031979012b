"""C23: Hamiltonian files: written files read back identically; files of other programs are read entry by entry."""
import os
import warnings

import numpy as np

from mc.common import close, det, expect, raises, same, scratch

LEVEL = 'exploration'
RULE = ('all numbers of lattice vectors, bands, weights, k-points and spin settings in the stated ranges; files are also written by an '
        'independent writer; non-trivial: more than one lattice vector or k-point')


def hamiltonian(nr, nb, seed, fl):
    rng = np.random.default_rng(seed * 1000 + nr * 10 + nb)
    rg = np.broadcast_to(rng.integers(-40, 41, (nr, 1, 1, 3)), (nr, nb, nb, 3)).astype(float)
    w = rng.integers(1, 13, (nr, 1))
    w = w.astype(float) if fl else w
    hr = np.round(det((nr, nb, nb), seed, scale=[1., 300.][seed % 2]), 6)
    hr[0, 0, 0] = 0
    orbs = np.zeros((nr, nb, nb, 2))
    orbs[..., 0] = np.arange(1, nb + 1)[None, :, None]
    orbs[..., 1] = np.arange(1, nb + 1)[None, None, :]
    return hr, rg, w, orbs


def hr_roundtrip(nr, nb, seed, fl):
    from dga import wannier
    hr, rg, w, orbs = hamiltonian(nr, nb, seed, fl)
    with scratch() as d:
        h = wannier.WannierHr(hr, rg, w, orbs)
        h.save_hr(d)
        expect(os.listdir(d) == ['wannier_hr.dat'], 'default file name')
        h.save_hr(d, name='b.dat')
        for name in ('wannier_hr.dat', 'b.dat'):
            r = wannier.create_wannier_hr_from_file(d + name)
            close(r.hr, hr, 'hoppings', rtol=0, atol=1e-9)
            close(r.r_grid, rg, 'lattice vectors')
            close(r.r_weights, w, 'weights')
            close(r.orbs, orbs, 'orbital labels')
        close(h.hr, hr, 'input not modified')
        # twice
        r.save_hr(d, name='c.dat')
        r2 = wannier.create_wannier_hr_from_file(d + 'c.dat')
        close(r2.hr, hr, 'second round trip', rtol=0, atol=1e-9)


def hr_foreign(nr, nb, seed, cols):
    """ wannier90 layout written independently: header, weights in lines of 15, one line per element """
    from dga import wannier
    hr, rg, w, orbs = hamiltonian(nr, nb, seed, False)
    with scratch() as d:
        with open(d + 'x_hr.dat', 'w') as f:
            f.write(' written on 11Nov2020 at 11:11:11\n')
            f.write(f'        {nb}\n        {nr}\n')
            for i in range(0, nr, cols):
                f.write(''.join(f'{int(x):5d}' for x in w[i:i + cols, 0]) + '\n')
            for r in range(nr):
                for a in range(nb):
                    for b in range(nb):
                        f.write(''.join(f'{int(x):5d}' for x in rg[r, a, b]) + f'{a + 1:5d}{b + 1:5d}{hr[r, a, b].real:12.6f}{hr[r, a, b].imag:12.6f}\n')
        r = wannier.create_wannier_hr_from_file(d + 'x_hr.dat')
        close(r.hr, hr, 'hoppings', rtol=0, atol=1e-9)
        close(r.r_grid, rg, 'lattice vectors')
        close(r.r_weights, w, 'weights')
        close(r.orbs, orbs, 'orbital labels')


def hk_roundtrip(nk, nb, seed):
    from dga import brillouin_zone as bz
    from dga import wannier
    g = bz.KGrid(nk)
    rng = np.random.default_rng(seed)
    nr = 3
    rg = np.broadcast_to(np.array([[0, 0, 0], [1, 2, -1], [-1, -2, 1]])[:, None, None, :], (nr, nb, nb, 3)).astype(float)
    a = rng.normal(size=(nb, nb)) + 1j * rng.normal(size=(nb, nb))
    b = rng.normal(size=(nb, nb)) + 1j * rng.normal(size=(nb, nb))
    h = wannier.WannierHr(np.array([a + a.conj().T, b, b.conj().T]), rg, np.ones((nr, 1)), wannier.create_orbs(nr, nb))
    ek = h.get_ek(g, one_band=False)
    with scratch() as d:
        h.save_hk(g, d)
        h.save_hk(g, d, name='o.hk')
        for name in ('wannier.hk', 'o.hk'):
            with warnings.catch_warnings():
                warnings.simplefilter('error')
                hk, k = wannier.read_hk_w2k(d + name)
            close(hk, g.map_fbz_mesh2list(ek), 'H(k) as list', rtol=1e-11)
            close(g.map_fbz_list2mesh(hk), ek, 'H(k) as mesh', rtol=1e-11)
            close(k, g.kmesh_list, 'momenta')


def hk_foreign(n, nb, spin, comment, extra, seed, header=3):
    from dga import wannier
    s = 2 if spin else 1
    h = det((n, s * nb, s * nb), seed)
    h = np.round(h + np.conj(np.swapaxes(h, 1, 2)), 9)
    ks = np.round(det((n, 3), seed + 1).real, 6)
    with scratch() as d:
        with open(d + 'h.hk', 'w') as f:
            tail = ('# comment 1 2 3' if comment else '') + '\n'
            if header == 3:
                f.write(f'{n - extra} {s * nb} {s * nb} ' + tail)
            elif header == 1:       # k-points, atoms, d and p orbitals per atom
                f.write(f'{n - extra} {s} 1 {nb - 1} ' + tail)
            else:                   # version line, k-points and atoms, orbitals of each atom
                f.write('VERSION 2 ' + tail + f'{n - extra} {s * nb} ' + tail)
                f.write(''.join(f'{i % 2} {1 - i % 2} 7 ' + tail for i in range(s * nb)))
            for i in range(n):
                f.write(' '.join(f'{x:.6f}' for x in ks[i]) + '\n')
                for row in h[i]:
                    f.write('   '.join(f'{x.real:.9f} {x.imag:.9f}' for x in row) + '\n')
        hk, k = wannier.read_hk_w2k(d + 'h.hk', spin_sym=not spin)
        m = n - extra
        close(k, ks[:m].T, 'momenta')
        if not spin:
            close(hk, h[:m], 'H(k)')
        else:
            for a in range(nb):
                for b in range(nb):
                    for x in range(2):
                        for y in range(2):
                            close(hk[:, a, x, b, y], h[:m, x * nb + a, y * nb + b], 'H(k) with spin')
        if header != 3:
            return
        # fewer k-points than announced
        with open(d + 'h.hk') as f:
            txt = f.read().split('\n', 1)
        with open(d + 'h2.hk', 'w') as f:
            f.write(f'{n + 1} {s * nb} {s * nb}\n' + txt[1])
        expect(raises(lambda: wannier.read_hk_w2k(d + 'h2.hk', spin_sym=not spin)), 'incomplete file accepted')


def run(ck):
    T = ck.thorough
    nrs = list(range(1, 34)) + [45, 46, 60, 61] + ([75, 76, 150, 301] if T else [])
    ck.pcases(hr_roundtrip, [(f'hr:nr={n},bands={b},seed={s},floatweights={f}', (n, b, s, f)) for n in nrs for b in (1, 2, 3) for s in (0, 1) for f in (False, True)],
              trivial=lambda n, *a: n == 1)
    ck.pcases(hr_foreign, [(f'hr_w90:nr={n},bands={b},seed={s},columns={c}', (n, b, s, c)) for n in nrs for b in (1, 2, 3) for s in (0, 1) for c in (15, 10)],
              trivial=lambda n, *a: n == 1)
    ck.pcases(hk_roundtrip, [(f'hk:nk={k},bands={b},seed={s}', (k, b, s)) for k in ((1, 1, 1), (2, 1, 1), (1, 3, 2), (4, 4, 1), (3, 2, 5)) for b in (1, 2, 3) for s in (0, 1)],
              trivial=lambda k, *a: k == (1, 1, 1))
    ck.pcases(hk_foreign, [(f'hk_w90:n={n},bands={b},spin={p},comment={c},extra={e}', (n, b, p, c, e, 0)) for n in (1, 2, 5) for b in (1, 2, 3) for p in (False, True)
                           for c in (False, True) for e in (0, 1) if n > e], trivial=lambda n, *a: n == 1)
    ck.pcases(hk_foreign, [(f'hk_header:version={v},n={n},bands={b},spin={p},comment={c},extra={e}', (n, b, p, c, e, 0, v)) for v in (1, 2) for n in (1, 2, 5) for b in (1, 2, 3)
                           for p in (False, True) for c in (False, True) for e in (0, 1) if n > e], trivial=lambda n, *a: n == 1)
    ck.assumptions.append('hoppings with at most six decimals below 1000 eV (resolution of the file format)')
