"""C31: impurity input of every supported format reaches the calculation unchanged, cut to the requested box."""
import h5py
import numpy as np

from mc import bench
from mc.common import close, det, expect, raises, same, scratch, tagged

LEVEL = 'exploration'
RULE = ('input formats x numbers of frequencies, bands, spins x densities given or measured x requested boxes from zero to beyond the available '
        'range x symmetrization flag, with generic data in independently written files; non-trivial: more than one bosonic frequency')


def w2dyn(d, nband, nv, niw, niv, dens, beta, seed, itype=float):
    """ one- and two-particle files in the layout of the impurity solver and of the symmetrized vertex """
    g = det((nband, 2, 2 * nv), seed)
    s = det((nband, 2, 2 * nv), seed + 1)
    occ = det((nband, 2, nband, 2), seed + 2).real
    with h5py.File(d + '1p.hdf5', 'w') as f:
        c = f.create_group('.config').attrs
        c['general.beta'] = itype(beta)
        c['general.totdens'] = dens
        c['general.nat'] = 1
        c['qmc.niw'] = nv
        c['atoms.1.nd'] = nband
        c['atoms.1.udd'] = 2.75
        f['dmft-last/mu/value'] = 0.625
        f['dmft-001/mu/value'] = -1.5
        for it, k in (('dmft-last', 1.0), ('dmft-001', 3.0)):
            f[f'{it}/ineq-001/giw/value'] = k * g
            f[f'{it}/ineq-001/siw/value'] = k * s
            f[f'{it}/ineq-001/g0iw/value'] = -k * s
            f[f'{it}/ineq-001/occ/value'] = k * occ
            f[f'{it}/ineq-001/dc/value'] = k * np.ones(3)
            f[f'{it}/dc-latt/value'] = k * np.ones(2)
    v = {ch: det((2 * niw + 1, 2 * niv, 2 * niv), seed + 5 + i) for i, ch in enumerate(('dens', 'magn'))}
    with h5py.File(d + '2p.hdf5', 'w') as f:
        for ch in v:
            for w in range(2 * niw + 1):
                f[f'ineq-001/{ch}/{w:05}/00001/value'] = v[ch][w].T
    return g, s, occ, v


def check_dict(r, g, s, n, beta, u, mu, v):
    close(r['giw'], g, 'Green function')
    close(r['siw'], s, 'self-energy')
    close(r['n'], n, 'density')
    close(r['beta'], beta, 'inverse temperature')
    close(r['u'], u, 'interaction')
    close(r['mu_dmft'], mu, 'chemical potential')
    for ch in ('dens', 'magn'):
        if v is None:
            expect(f'g4iw_{ch}' not in r, 'two-particle data without file')
        else:
            close(r[f'g4iw_{ch}'], v[ch], f'two-particle data {ch}')


def load_w2dyn(nband, nv, niw, niv, dens, beta, itype):
    from dga import dga_io
    from dga import w2dyn_aux_dga as aux
    with scratch() as d:
        g, s, occ, v = w2dyn(d, nband, nv, niw, niv, dens, beta, nband + nv, itype)
        n = dens if dens else occ[0, 0, 0, 0] + occ[0, 1, 0, 1]
        for two in (None, '2p.hdf5'):
            r = dga_io.load_1p_data('w2dyn', d, '1p.hdf5', two)
            check_dict(r, 0.5 * (g[0, 0] + g[0, 1]), 0.5 * (s[0, 0] + s[0, 1]), n, beta, 2.75, 0.625, v if two else None)
        f = aux.W2dynFile(d + '1p.hdf5')
        expect((f.get_niw(), f.get_nd(), f.get_natom(), f.get_nd_tot()) == (nv, nband, 1, nband), 'sizes')
        for it, k in (('dmft-last', 1.0), ('dmft-001', 3.0)):
            close(f.get_giw(dmft_iter=it), k * g, 'Green function of an iteration')
            close(f.get_siw(dmft_iter=it), k * s, 'self-energy of an iteration')
            close(f.get_g0iw(dmft_iter=it), -k * s, 'Weiss field of an iteration')
            close(f.get_occ(dmft_iter=it), k * occ, 'occupation of an iteration')
            close(f.get_dc(dmft_iter=it), k * np.ones(3), 'double counting')
            close(f.get_dc_latt(dmft_iter=it), k * np.ones(2), 'double counting')
        close(f.get_mu(dmft_iter='dmft-001'), -1.5, 'chemical potential of an iteration')
        f.close()


def load_other(fmt, nv, niw, niv, two):
    from dga import dga_io
    g, s = det((2 * nv,), 3), det((2 * nv,), 4)
    v = {ch: det((2 * niw + 1, 2 * niv, 2 * niv), 5 + i) for i, ch in enumerate(('dens', 'magn'))}
    with scratch() as d:
        if fmt == 'EDFermion':
            with h5py.File(d + 'a', 'w') as f:
                f['giw'], f['siw_hat'] = g, s
                f['siw'] = 2 * s
                f['config/totdens'], f['config/beta'], f['config/U'], f['dmft/mu'] = 0.85, 12.5, 8.0, 2.25
            with h5py.File(d + 'b', 'w') as f:
                f['g4iw_dens'], f['g4iw_magn'] = v['dens'], v['magn']
            r = dga_io.load_1p_data(fmt, d, 'a', 'b' if two else None)
            check_dict(r, g, s, 0.85, 12.5, 8.0, 2.25, v if two else None)
        else:
            dd = {'giw': g, 'siw': s, 'n': 0.85, 'beta': 12.5, 'u': 8.0, 'mu_dmft': 2.25}
            if two:
                dd.update({'g4iw_dens': v['dens'], 'g4iw_magn': v['magn']})
            np.save(d + 'a.npy', dd, allow_pickle=True)
            r = dga_io.load_1p_data(fmt, d, 'a.npy', None)
            check_dict(r, g, s, 0.85, 12.5, 8.0, 2.25, v if two else None)
        for bad in ('triqs', '', 'W2dyn', None):
            expect(raises(lambda b=bad: dga_io.load_1p_data(b, d, 'a', 'b'), NotImplementedError), f'unknown format {bad!r} accepted')


def boxed(niw, niv, rw, rv, nsh, sym, asy):
    """ requested box against available one """
    from dga import dga_io
    v = {ch: tagged((2 * niw + 1, 2 * niv, 2 * niv), 1 + 10 ** 4 * i) for i, ch in enumerate(('dens', 'magn'))}
    inp = {'g4iw_dens': v['dens'].copy(), 'g4iw_magn': v['magn'].copy(), 'beta': 5.5, 'u': 1.75, 'n': 0.9, 'mu_dmft': 0.3,
           'giw': det((2 * niv,), 1), 'siw': det((2 * niv,), 2)}
    cfg = bench.make_cfg((2, 2, 1), 'none', rw, rv, nsh, dmft_input={'do_sym_v_vp': sym})
    if asy is not None:
        cfg.box.niv_asympt = asy
    if rw > niw or rv > niv:
        expect(raises(lambda: dga_io.build_g2_obj(cfg, inp), ValueError), 'box larger than the data accepted')
        return
    dens, magn = dga_io.build_g2_obj(cfg, inp)
    cw, cv = (niw if rw == -1 else rw), (niv if rv == -1 else rv)
    expect((cfg.box.niw_core, cfg.box.niv_core, cfg.box.niv_shell) == (cw, cv, nsh), 'box sizes')
    expect(cfg.box.niv_full == cv + nsh, 'full box')
    expect(cfg.box.niv_pp == min(cw // 2, cv // 2), 'pairing box')
    same(cfg.box.wn, np.arange(-cw, cw + 1), 'bosonic frequencies')
    if asy is None:
        expect(cfg.box.niv_asympt == cv + nsh + 2 * cw, f'asymptotic box {cfg.box.niv_asympt}')
    else:
        expect(cfg.box.niv_asympt == asy, 'requested asymptotic box')
    for ch, o in (('dens', dens), ('magn', magn)):
        want = v[ch][niw - cw:niw + cw + 1, niv - cv:niv + cv, niv - cv:niv + cv]
        if sym:
            want = 0.5 * (want + np.swapaxes(want, 1, 2))
        same(o.mat, want, f'two-particle data {ch}')
        same(np.asarray(o.wn), np.arange(-cw, cw + 1), 'bosonic frequencies')
        expect((o.channel, o.beta, o.u, o.niv) == (ch, 5.5, 1.75, cv), f'attributes {(o.channel, o.beta, o.u, o.niv)}')
        same(inp[f'g4iw_{ch}'], v[ch], 'input stays unmodified')
    r = dga_io.create_dmft_ddict(inp, dens, magn)
    same(r['g4iw_dens'], dens.mat, 'stored density vertex')
    same(r['g4iw_magn'], magn.mat, 'stored magnetic vertex')
    for k in ('giw', 'siw', 'n', 'beta', 'u', 'mu_dmft'):
        same(np.asarray(r[k]), np.asarray(inp[k]), f'stored {k}')


def run(ck):
    t = ck.thorough
    ck.pcases(load_w2dyn, [(f'w2dyn:bands={nb},nv={nv},niw={niw},niv={niv},n={n},beta={beta}{it.__name__}', (nb, nv, niw, niv, n, beta, it))
                           for nb in (1, 2) for nv in (2, 5) for niw in (0, 1, 3, 12) for niv in (1, 3) for n in (0, 0.9) for beta in (4.0, 12.0) for it in (float, int)])
    ck.pcases(load_other, [(f'{fmt}:nv={nv},niw={niw},niv={niv},two={two}', (fmt, nv, niw, niv, two)) for fmt in ('EDFermion', 'test', 'default')
                           for nv in (1, 4) for niw in (0, 2) for niv in (1, 3) for two in (True, False)])
    m = 6 if t else 4
    ck.pcases(boxed, [(f'box:w{niw},v{niv},rw{rw},rv{rv},s{s},sym={sy},asy={a}', (niw, niv, rw, rv, s, sy, a)) for niw in range(0, m) for niv in range(1, m)
                      for rw in range(-1, niw + 2) for rv in [-1] + list(range(1, niv + 2)) for s in (0, 3) for sy in (True, False) for a in (None, 40)
                      if a is None or (sy and s)],
              trivial=lambda niw, *a: niw == 0)
