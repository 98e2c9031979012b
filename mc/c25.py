"""C25: the singlet and triplet pairing vertices combine both channels at transferred momentum and frequency k-k', v-v'."""
import numpy as np

from mc import bench
from mc.c05 import expand, write, expected_pv
from mc.common import close, det, expect, same, scratch, tagged

LEVEL = 'exploration'
RULE = ('lattice symmetries x meshes x box sizes x numbers of processes with generic ladder data against entry-by-entry assembly; frequency '
        'slices with index-tagged arrays for all sizes; non-trivial: more than one pairing frequency')


def assembled(nk, sym, niw, niv, size, seed):
    from dga import pairing_vertex as pv
    with scratch() as d:
        u, beta = 1.1 + 0.4 * seed, 2.5 + seed
        cfg = bench.make_cfg(nk, sym, niw, niv, out=d, u=u, beta=beta)
        g = cfg.lattice.q_grid
        nq = g.nk_irr
        data, x0 = bench.ladder_data(nq, niw, niv, seed)
        write(('pv',), cfg, size, range(size), data, x0, ('dens', 'magn'))
        chi = {}
        for i, ch in enumerate(('dens', 'magn')):
            c = det((nq, 2 * niw + 1), seed + i)
            chi[ch] = expand(c + np.conj(c[:, ::-1]), g)
        keep = {c: x.copy() for c, x in chi.items()}
        pv.build_pairing_vertex(cfg, bench.P(0, size), chi['magn'], chi['dens'])
        npp = cfg.box.niv_pp
        full = {}
        for ch, s in (('dens', 1), ('magn', -1)):
            f1, f2 = (expand(expected_pv(f, niw, niv, npp), g) for f in bench.components(*data[ch], x0, beta, u, ch))
            full[ch] = np.zeros(f1.shape, complex)
            for v in range(-npp, npp):
                for p in range(-npp, npp):
                    i = (..., v + npp, p + npp)
                    full[ch][i] = f1[i] + (1 - s * u * keep[ch][..., v - p + niw]) * f2[i]
            close(chi[ch], keep[ch], 'susceptibility stays unmodified', rtol=0, atol=0)
        close(np.load(d + 'F_sing_pp.npy'), 1.5 * full['magn'] - 0.5 * full['dens'], 'singlet vertex')
        close(cfg.eliash.load_data('F_trip_pp'), 0.5 * full['magn'] + 0.5 * full['dens'], 'triplet vertex')


def slices(niv, npp):
    """ every pair of pairing frequencies is read from exactly one bosonic frequency """
    from dga import pairing_vertex as pv
    om = pv.get_omega_condition(niv_pp=npp)
    seen = np.zeros((2 * npp, 2 * npp), int)
    mats = {w: tagged((2 * niv, 2 * niv), 1 + (w + 2 * npp) * 7 * niv ** 2) for w in range(-2 * npp + 1, 2 * npp)}
    for w, m in mats.items():
        cond = om == w
        keep = m.copy()
        got = np.zeros((2 * npp, 2 * npp), complex)
        got[cond] = pv.get_pp_slice_4pt(mat=m, condition=cond, niv_pp=npp)
        same(m, keep, 'input stays unmodified')
        for v in range(-npp, npp):
            for p in range(-npp, npp):
                if v - p == w:
                    seen[v + npp, p + npp] += 1
                    expect(got[v + npp, p + npp] == -m[v + niv, -p - 1 + niv], f'entry {v},{p} at w={w}')
                else:
                    expect(got[v + npp, p + npp] == 0, f'entry {v},{p} written at w={w}')
    same(seen, np.ones_like(seen), 'each pair of frequencies once')


def chi_pp(nk, niw, npp):
    from dga import pairing_vertex as pv
    chi = tagged(tuple(nk) + (2 * niw + 1,))
    got = pv.reshape_chi(chi, npp)
    want = np.zeros(tuple(nk) + (2 * npp, 2 * npp), complex)
    for v in range(-npp, npp):
        for p in range(-npp, npp):
            want[..., v + npp, p + npp] = chi[..., niw + v - p]
    same(got, want, 'susceptibility at v-v\'')


def components(shape, n, ch, seed):
    from dga import four_point as fp
    from dga import pairing_vertex as pv
    from dga import local_four_point as lfp
    u, beta = 0.7 + seed, 1.9
    aux, vrg, x0 = det(shape + (2 * n, 2 * n), seed), det(shape + (2 * n,), seed + 1), det(shape + (2 * n,), seed + 2) + 2
    chi = det(shape, seed + 3)
    f1, f2 = bench.components(aux, vrg, x0, beta, u, ch)
    got = fp.ladder_vertex_from_chi_aux_components(gchi_aux=aux, vrg=vrg, gchi0=x0, beta=beta, u_r=lfp.get_ur(u, ch))
    close(got[0], f1, 'first component')
    close(got[1], f2, 'second component')
    s = {'dens': 1, 'magn': -1}[ch]
    # this form takes the three-leg vertex in units of 1/beta
    full = pv.ladder_vertex_from_chi_aux(gchi_aux=aux, vrg=vrg / beta, chir=chi, gchi0=x0, beta=beta, u_r=lfp.get_ur(u, ch))
    close(full, f1 + (1 - s * u * chi)[..., None, None] * f2, 'ladder vertex')


def run(ck):
    t = ck.thorough
    from dga import brillouin_zone as bz
    syms = {'none': [], 'sq': bz.two_dimensional_square_symmetries(), 'q1d': bz.quasi_one_dimensional_square_symmetries(),
            'inv': bz.simultaneous_x_y_inversion()}
    grids = [((2, 2, 1), 'sq'), ((4, 4, 1), 'sq'), ((4, 2, 1), 'q1d'), ((3, 2, 1), 'none'), ((3, 3, 1), 'inv')] + \
        ([((6, 6, 1), 'sq'), ((4, 4, 2), 'sq'), ((4, 4, 1), 'inv'), ((5, 4, 1), 'none')] if t else [])
    boxes = [(2, 2), (3, 2), (4, 4), (4, 5), (6, 4)] + ([(6, 6), (8, 7)] if t else [])
    items = []
    for nk, sym in grids:
        nq = bz.KGrid(nk, syms[sym]).nk_irr
        for niw, niv in boxes:
            for size in sorted({1, 2, 3, nq}):
                if size <= nq and (size in (1, nq) or niw < 5):
                    items.append((f'assembled:{"x".join(map(str, nk))},{sym},w{niw},v{niv},n{size}', (nk, sym, niw, niv, size, size % 2)))
    ck.pcases(assembled, items, trivial=lambda nk, sym, niw, niv, *a: min(niw, niv) < 2)
    ck.pcases(slices, [(f'slices:v{niv},pp{npp}', (niv, npp)) for niv in range(1, 12 if t else 8) for npp in range(1, niv + 1)])
    ck.pcases(chi_pp, [(f'chi_pp:{nk},w{niw},pp{npp}', (nk, niw, npp)) for nk in ((1, 1, 1), (2, 3, 1), (2, 2, 2)) for npp in range(1, 6)
                       for niw in range(2 * npp, 2 * npp + 3)])
    ck.pcases(components, [(f'components:{s},v{n},{ch},{seed}', (s, n, ch, seed)) for s in ((1,), (2, 3), (2, 1, 3)) for n in (1, 2, 3, 5)
                           for ch in ('dens', 'magn') for seed in (0, 1, 2)])
