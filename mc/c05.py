"""C05: the momentum-dependent vertex written by many processes is reassembled without loss, for every number of processes."""
import itertools
import os

import numpy as np

from mc import bench
from mc.common import close, det, expect, scratch

LEVEL = 'exploration'
RULE = ('lattice symmetries x meshes x every number of processes from one to the number of irreducible momenta x orders in which processes and '
        'channels write x box sizes, with generic (index-distinct) data; non-trivial: at least two momenta')


def orders(size, full):
    if size <= 3 or full:
        return list(itertools.permutations(range(size)))[:24]
    return [tuple(range(size)), tuple(reversed(range(size)))]


def write(kind, cfg, size, order, data, x0, chans):
    from dga import four_point as fp
    from dga import pairing_vertex as pv
    from dga import optics
    from dga import mpi_aux
    nq = cfg.lattice.q_grid.nk_irr
    dist = [mpi_aux.MpiDistributor(ntasks=nq, comm=bench.P(r, size), output_path=cfg.output_path, name='Q') for r in range(size)]
    for ch in chans:
        for r in order:
            sl = dist[r].my_slice
            aux, vrg = data[ch]
            for k in kind:
                if k == 'fq':
                    fp.write_vertex_components(cfg, dist[r], ch, aux[sl], vrg[sl], x0[sl], name='fq_')
                elif k == 'pv':
                    pv.write_pairing_vertex_components(cfg, dist[r], ch, aux[sl], vrg[sl], x0[sl])
                else:
                    optics.write_optics_vertex_components(cfg, dist[r], ch, aux[sl], vrg[sl], x0[sl])
    return dist


def expected_pv(f, niw, niv, npp):
    """ pairing slice -F(w=v-v'; v,-v') of every momentum, made Hermitian in v,v' """
    raw = np.zeros((f.shape[0], 2 * npp, 2 * npp), complex)
    for v in range(-npp, npp):
        for p in range(-npp, npp):
            raw[:, v + npp, p + npp] = -f[:, v - p + niw, v + niv, (-p - 1) + niv]
    return 0.5 * (raw + np.conj(np.swapaxes(raw, 1, 2)))


def expected_opt(f, niw, niv, nwv, nwc, nvv):
    """ F(q, wp; v-w, v) for w >= 0 """
    out = np.zeros((f.shape[0], 2 * nwv + 1, nwc + 1, 2 * nvv), complex)
    for wp in range(-nwv, nwv + 1):
        for w in range(nwc + 1):
            for v in range(-nvv, nvv):
                out[:, wp + nwv, w, v + nvv] = f[:, wp + niw, v + niv, v - w + niv]
    return out


def roundtrip(nk, sym, niw, niv, size, order, chans, kinds, opt):
    from dga import four_point as fp
    from dga import pairing_vertex as pv
    from dga import optics
    with scratch() as d:
        cfg = bench.make_cfg(nk, sym, niw, niv, out=d, optics=opt)
        cfg.optics.set_frequency_ranges(cfg)
        nq = cfg.lattice.q_grid.nk_irr
        data, x0 = bench.ladder_data(nq, niw, niv, 3)
        dist = write(kinds, cfg, size, order, data, x0, chans)
        expect(sorted(f for f in os.listdir(d) if f.endswith('.hdf5')) == [f'QRank{r:05d}.hdf5' for r in range(size)], 'one file per process')
        f = {ch: bench.components(*data[ch], x0, cfg.sys.beta, cfg.sys.u, ch) for ch in ('dens', 'magn')}
        if 'fq' in kinds:
            got = fp.load_vertex_from_rank_files(d, 'Q', size, nq, niw, niv)
            for g, (ch, i) in zip(got, (('magn', 0), ('magn', 1), ('dens', 0), ('dens', 1))):
                close(g, f[ch][i], f'vertex component {i + 1} {ch}')
        if 'pv' in kinds:
            npp = cfg.box.niv_pp
            got = pv.load_pairing_vertex_from_rank_files(output_path=d, name='Q', mpi_size=size, nq=nq, niv_pp=npp)
            for g, (ch, i) in zip(got, (('magn', 0), ('magn', 1), ('dens', 0), ('dens', 1))):
                close(g, expected_pv(f[ch][i], niw, niv, npp), f'pairing component {i + 1} {ch}')
        if 'opt' in kinds:
            o = cfg.optics
            got = optics.load_optics_vertex_from_rank_files(d, 'Q', size, nq, o)
            for g, (ch, i) in zip(got, (('magn', 0), ('magn', 1), ('dens', 0), ('dens', 1))):
                close(g, expected_opt(f[ch][i], niw, niv, o.niw_vert, o.niw_cond, o.niv_vert), f'optics component {i + 1} {ch}')
        for x in dist:
            x.delete_file()
        expect(not [g for g in os.listdir(d) if g.endswith('.hdf5')], 'rank files removed')


def expand(irr, grid):
    """ full-zone mesh from irreducible values via the map of the grid """
    return irr[grid.irrk_inv.reshape(grid.nk)]


def assembled(nk, sym, niw, niv, size, seed):
    """ full ladder vertex on the full zone as stored at the end """
    from dga import four_point as fp
    with scratch() as d:
        cfg = bench.make_cfg(nk, sym, niw, niv, out=d, u=1.1 + 0.3 * seed, beta=3.0 + seed)
        nq = cfg.lattice.q_grid.nk_irr
        data, x0 = bench.ladder_data(nq, niw, niv, seed)
        write(('fq',), cfg, size, range(size), data, x0, ('dens', 'magn'))
        g = cfg.lattice.q_grid
        chi = {ch: expand(det((nq, 2 * niw + 1), seed + i), g) for i, ch in enumerate(('dens', 'magn'))}
        keep = {c: x.copy() for c, x in chi.items()}
        fp.build_vertex_fq(cfg, bench.P(0, size), chi['magn'], chi['dens'])
        for ch, s in (('dens', 1), ('magn', -1)):
            f1, f2 = bench.components(*data[ch], x0, cfg.sys.beta, cfg.sys.u, ch)
            want = expand(f1, g) + (1 - s * cfg.sys.u * keep[ch])[..., None, None] * expand(f2, g)
            close(np.load(d + f'F_{ch}.npy'), want, f'stored vertex {ch}')
            close(cfg.load_data(f'F_{ch}'), want, f'loaded vertex {ch}')
            close(chi[ch], keep[ch], 'susceptibility stays unmodified', rtol=0, atol=0)


def run(ck):
    t = ck.thorough
    from dga import brillouin_zone as bz
    grids = [((2, 1, 1), 'none'), ((2, 2, 1), 'sq'), ((4, 4, 1), 'sq'), ((4, 2, 1), 'q1d'), ((3, 2, 1), 'none'), ((3, 3, 1), 'inv'), ((4, 4, 1), 'inv')]
    grids += [((6, 6, 1), 'sq'), ((4, 4, 2), 'sq')] if t else []
    boxes = [(1, 2), (2, 2), (3, 3), (2, 4), (4, 3)] + ([(5, 5), (6, 4)] if t else [])
    syms = {'none': [], 'sq': bz.two_dimensional_square_symmetries(), 'q1d': bz.quasi_one_dimensional_square_symmetries(),
            'inv': bz.simultaneous_x_y_inversion()}
    items = []
    for nk, sym in grids:
        nq = bz.KGrid(nk, syms[sym]).nk_irr
        for niw, niv in boxes:
            for size in range(1, nq + 1):
                big = niw * niv > 6
                if big and size not in (1, 2, nq):
                    continue
                for order in (orders(size, t) if not big else [tuple(range(size))]):
                    for chans in ((('dens', 'magn'), ('magn', 'dens')) if size <= 2 or t else (('dens', 'magn'),)):
                        kinds = ('pv', 'opt', 'fq')
                        items.append((f'roundtrip:{"x".join(map(str, nk))},{sym},w{niw},v{niv},n{size},{order},{chans[0]}',
                                      (nk, sym, niw, niv, size, order, chans, kinds, {})))
                for kinds in (('fq',), ('pv',), ('opt',), ('fq', 'opt')):
                    if size in (1, 2) and not big:
                        items.append((f'roundtrip:{"x".join(map(str, nk))},{sym},w{niw},v{niv},n{size},{kinds}',
                                      (nk, sym, niw, niv, size, tuple(range(size)), ('dens', 'magn'), kinds, {})))
                if size == 2:
                    for nwv in range(1, niw + 1):
                        for nwc in range(1, niv):
                            items.append((f'ranges:{"x".join(map(str, nk))},{sym},w{niw},v{niv},vert={nwv},cond={nwc}',
                                          (nk, sym, niw, niv, size, tuple(range(size)), ('dens', 'magn'), ('opt', 'pv'), {'niw_vert': nwv, 'niw_cond': nwc})))
    ck.pcases(roundtrip, items)
    items = []
    for nk, sym in grids:
        nq = bz.KGrid(nk, syms[sym]).nk_irr
        for niw, niv in boxes[:4] if not t else boxes:
            for size in sorted({1, 2, nq}):
                if size <= nq:
                    for seed in (0, 1):
                        items.append((f'assembled:{"x".join(map(str, nk))},{sym},w{niw},v{niv},n{size},{seed}', (nk, sym, niw, niv, size, seed)))
    ck.pcases(assembled, items)
