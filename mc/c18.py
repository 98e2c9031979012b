"""C18: Schwinger-Dyson equation on the lattice: explicit q/frequency sum; additive over any split of q; reduces to the local one."""
import numpy as np

from mc import ref
from mc.common import close, det, expect, raises
from mc.c16 import bed, lfp_of, ltp_of, CH

LEVEL = 'exploration'
RULE = ('every mesh, every way of cutting the q-list into two contiguous shares, channel, bosonic range, core and shell size in the stated '
        'ranges against explicit sums; non-trivial: more than one q-point')


def data(nk, niw, niv, nsh, seed):
    n = niv + niw + nsh
    gk = det(nk + (2 * n + 4,), seed)
    qs = np.array(ref.qlist(nk))
    wn = np.arange(-niw, niw + 1)
    v = {c: det((len(qs), len(wn), 2 * niv), seed + 1 + i) for i, c in enumerate(CH)}
    x = {c: det((len(qs), len(wn)), seed + 4 + i) for i, c in enumerate(CH)}
    return gk, qs, wn, v, x


def sums(nk, niw, niv, nsh, seed):
    from dga import four_point as fp
    beta, u = 2.3 + seed, 1.4
    gk, qs, wn, v, x = data(nk, niw, niv, nsh, seed)
    nq = len(qs)
    kdc = det((nq, len(wn), 2 * niv), seed + 9)
    keep = [a.copy() for a in (gk, v['dens'], v['magn'], x['dens'], x['magn'], kdc)]
    for c in CH:
        close(fp.get_kernel(v[c], x[c], u, c), ref.ur(u, c) / 2 * (1 - (1 - ref.ur(u, c) * x[c][..., None]) * v[c]), f'{c} kernel')
    ker = ref.sde_kernel(v['dens'], v['magn'], x['dens'], x['magn'], kdc, u)
    core = ref.sde_q(ker, gk, beta, wn, qs, nq)
    close(fp.schwinger_dyson_kernel_q(ker, gk, beta, qs, wn, nq), core, 'core self-energy from the kernel')
    shell = {c: ref.sde_q_shell(x[c], gk, beta, u, wn, qs, nq, niv, nsh) for c in CH}
    full = core if nsh == 0 else np.concatenate((shell['dens'][..., :nsh] + shell['magn'][..., :nsh], core,
                                                 shell['dens'][..., nsh:] + shell['magn'][..., nsh:]), axis=-1)
    args = (v['dens'], v['magn'], x['dens'], x['magn'], kdc, gk, beta, u)
    close(fp.schwinger_dyson_full_q(*args, qs, wn, nq, niv_shell=nsh), full, 'self-energy')
    for a, b in zip((gk, v['dens'], v['magn'], x['dens'], x['magn'], kdc), keep):
        close(a, b, 'inputs are not modified')
    # shares: the sum over contiguous pieces equals the whole, for every cut
    for cut in range(0, nq + 1):
        tot = 0
        for s in (slice(0, cut), slice(cut, nq)):
            if len(qs[s]):
                tot = tot + fp.schwinger_dyson_full_q(v['dens'][s], v['magn'][s], x['dens'][s], x['magn'][s], kdc[s], gk, beta, u, qs[s], wn, nq, niv_shell=nsh)
        close(tot, full, f'sum of the shares, cut at {cut}')
    # single channel, with weights of the q-points
    dup = np.arange(1, nq + 1)
    for c in CH:
        u_r = ref.ur(u, c)
        k = u_r / 2 * (1 - (1 - u_r * x[c][..., None]) * v[c])
        w = ref.sde_q(k * dup[:, None, None], gk, beta, wn, qs, nq)
        close(fp.schwinger_dyson_vrg_q(v[c], x[c], gk, beta, u, c, qs, dup, wn, nq), w, f'{c} core self-energy')
        close(fp.schwinger_dyson_q_shell(x[c], gk, beta, u, max(nsh, 1), niv, wn, qs, nq), ref.sde_q_shell(x[c], gk, beta, u, wn, qs, nq, niv, max(nsh, 1)), f'{c} shell')
        one = np.ones(nq)
        got = fp.schwinger_dyson_channel_q(v[c], x[c], c, gk, beta, u, qs, one, wn, nq, niv_shell=nsh)
        w = ref.sde_q(k, gk, beta, wn, qs, nq)
        if nsh:
            w = np.concatenate((shell[c][..., :nsh], w, shell[c][..., nsh:]), axis=-1)
        close(got, w, f'{c} self-energy')
    close(fp.schwinger_dyson_dc(kdc, gk, u, qs, dup, wn, nq), u * beta * ref.sde_q(kdc * dup[:, None, None], gk, beta, wn, qs, nq), 'double-counting self-energy')
    g = gk[0, 0, 0]
    close(fp.schwinger_dyson_shell(x['dens'][0], g, beta, u, max(nsh, 1), niv, wn),
          ref.sde_q_shell(x['dens'][:1], g[None, None, None], beta, u, wn, [(0, 0, 0)], 1, niv, max(nsh, 1))[0, 0, 0], 'local shell')


def local_limit(nk, niw, niv, nsh, seed):
    """ momentum-independent Green's function and ladder: double counting removes one of the three magnetic contributions and the
        lattice equation gives the local self-energy (without Hartree term) at every k """
    from dga import four_point as fp
    from dga import local_four_point as lfp
    beta, u, n = 2.9 + seed, 1.1, 0.9
    wn, g, giwk, gen, gam = bed(niw, niv, beta, u, seed, None, nk=(2, 2, 1), extra=nsh + 8)
    gam2 = ref.small_gamma(niw, niv, beta, 0.4, seed + 23)
    gm = {'dens': gam, 'magn': gam2}
    qs = np.array(ref.qlist(nk))
    nq = len(qs)
    gk = np.broadcast_to(g, nk + g.shape).copy()
    vr, ch, vq, cq = {}, {}, {}, {}
    rep = lambda a: np.repeat(np.asarray(a)[None], nq, axis=0)
    x0f, x0 = gen.get_gchi0(niv + nsh), gen.get_gchi0(niv)
    for c in CH:
        o = lfp_of(c, gm[c], beta, u, wn, None)
        vr[c], ch[c] = lfp.get_vrg_and_chir_tilde_from_gammar_urange(o, gen, nsh)
        a = fp.get_gchir_aux_from_gammar_q(o, rep(x0))
        vq[c] = fp.vrg_from_gchi_aux(a, rep(x0))
        cq[c] = fp.chi_phys_from_chi_aux_q(a.sum(axis=(-1, -2)) / beta ** 2, rep(x0f.sum(axis=-1) / beta ** 2), rep(x0.sum(axis=-1) / beta ** 2), u, c)
    f = lfp.fob2_from_gamob2_urange(lfp_of('magn', gam2, beta, u, wn, None), x0f)
    kdc = ref.core(fp.get_kernel_dc(f, rep(x0f)), niv)
    got = fp.schwinger_dyson_full_q(vq['dens'], vq['magn'], cq['dens'], cq['magn'], kdc, gk, beta, u, qs, wn, nq, niv_shell=nsh)
    loc = lfp.schwinger_dyson_full(vr['dens'], vr['magn'], ch['dens'], ch['magn'], g, n, niv_shell=nsh) - u * n / 2
    close(got, np.broadcast_to(loc, nk + loc.shape), 'self-energy in the local limit', rtol=1e-7)


def run(ck):
    T = ck.thorough
    meshes = [(1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 3, 1), (3, 2, 1), (2, 1, 3)] + ([(4, 4, 1), (2, 2, 3)] if T else [])
    boxes = [(0, 1), (1, 1), (1, 3), (2, 2), (3, 2)] + ([(4, 5)] if T else [])
    ck.pcases(sums, [(f'sums:nk={k},niw={w},niv={v},nsh={n},seed={s}', (k, w, v, n, s)) for k in meshes for w, v in boxes for n in (0, 1, 3) for s in (0, 1)],
              trivial=lambda k, *a: k == (1, 1, 1))
    ck.pcases(local_limit, [(f'local:nk={k},niw={w},niv={v},nsh={n},seed={s}', (k, w, v, n, s)) for k in meshes[:4] for w, v in boxes for n in (0, 1, 3) for s in (0, 1)],
              trivial=lambda k, *a: k == (1, 1, 1))
