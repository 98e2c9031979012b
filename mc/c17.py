"""C17: ladder Bethe-Salpeter equation per momentum and bosonic frequency; reduces to the local one for a local bubble."""
import numpy as np

from mc import ref
from mc.common import close, det, expect, raises
from mc.c16 import bed, lfp_of, ltp_of, CH

LEVEL = 'exploration'
RULE = ('every mesh, every selection of q-points used as the share of one process, channel, bosonic range, core and shell size in the '
        'stated ranges against dense matrix inversion on the full box; non-trivial: more than one q-point')


def ladder(nk, niw, niv, nsh, ch, sel, seed):
    from dga import four_point as fp
    from dga import local_four_point as lfp
    beta, u = 2.8 + seed, 1.0 + 0.4 * seed
    wn, g, giwk, gen, gam = bed(niw, niv, beta, u, seed, None, nk=nk, extra=nsh + 8)
    u_r = ref.ur(u, ch)
    n = niv + nsh
    qs = np.array(ref.qlist(nk))[sel]
    gk = np.asarray(giwk.g_full())
    x0f = ref.gchi0_q(gk, beta, n, wn, qs)
    x0 = ref.core(x0f, niv)
    gn = gam + 0.05 / beta ** 2 * det(gam.shape, seed + 3)
    ga = lfp_of(ch, gn, beta, u, wn, None)
    keep = gn.copy()
    # brute force on the big box
    big = ref.embed(gn, n, u_r / beta ** 2)
    chi = np.zeros((len(qs), len(wn)), complex)
    for iq in range(len(qs)):
        for i in range(len(wn)):
            chi[iq, i] = np.linalg.inv(np.diag(1 / x0f[iq, i]) + big[i]).sum() / beta ** 2
    aux, vrg, chi_l = ref.ladder(gn, x0f, beta, u, ch)
    close(chi_l, chi, 'reference model', rtol=1e-8)
    a = fp.get_gchir_aux_from_gammar_q(ga, x0)
    close(a, aux, 'auxiliary susceptibility')
    c0, c0f = x0.sum(axis=-1) / beta ** 2, x0f.sum(axis=-1) / beta ** 2
    ca = aux.sum(axis=(-1, -2)) / beta ** 2
    close(fp.chi_phys_from_chi_aux_q(ca, c0f, c0, u, ch), chi, 'susceptibility equals the ladder on the full box', rtol=1e-8)
    close(fp.vrg_from_gchi_aux(aux, x0), vrg, 'three-leg vertex')
    corr = gen.get_asymptotic_correction_q(n, qs)
    close(fp.chi_phys_asympt_q(chi, c0f, c0f + corr), chi + corr, 'asymptotic susceptibility')
    ratio = ((1 - u_r * chi) / (1 - u_r * (chi + corr)))[..., None]
    close(fp.vrg_from_gchi_aux_asympt(aux, x0, chi, chi + corr, u, ch), vrg * ratio, 'asymptotic three-leg vertex')
    # plain ladder without shell
    x = fp.get_gchir_from_gamma_loc_q(ga, x0)
    want = np.array([[np.linalg.inv(np.diag(1 / b) + m) for b, m in zip(q, gn)] for q in x0])
    close(x, want, 'ladder susceptibility')
    # the order of summation: three-leg vertex from the second fermionic frequency
    sign = {'dens': 1, 'magn': -1}[ch]
    lam = fp.lam_from_chir_q(want, x0, ch)
    wl = -sign * (1 - (want / x0[..., None]).sum(axis=-1))
    close(lam, wl, 'lambda vertex')
    sh = 0.1 * det((len(qs), len(wn)), seed + 5).real
    wt = (wl - (u * sh)[..., None]) / (1 + u_r * sh)[..., None]
    close(fp.get_lam_tilde(wl, sh, u, ch), wt, 'shell-corrected lambda')
    cs = -sign * u * sh ** 2 + sh * (1 - 2 * u / beta ** 2 * np.sum((wt + sign) * x0, axis=-1))
    close(fp.get_chir_shell(wt, sh, x0, beta, u, ch), cs, 'shell susceptibility')
    ct = (ca + cs) / (1 - (u * sh) ** 2)
    close(fp.chir_tilde(ca, wt, sh, x0, beta, u, ch), ct, 'shell-corrected susceptibility')
    close(fp.vrg_q_tilde(wt, ct, u, ch), (1 + sign * wt) / (1 - u_r * ct)[..., None], 'shell-corrected three-leg vertex')
    # ladder vertex components and their assembly
    f1, f2 = fp.ladder_vertex_from_chi_aux_components(gchi_aux=aux, vrg=vrg, gchi0=x0, beta=beta, u_r=u_r)
    w1 = np.array([[beta ** 2 * np.diag(1 / b) @ (np.eye(2 * niv) - m @ np.diag(1 / b)) for b, m in zip(p, r)] for p, r in zip(x0, aux)])
    close(f1, w1, 'first component of the ladder vertex', rtol=1e-8)
    close(f2, u_r * vrg[..., :, None] * vrg[..., None, :], 'second component of the ladder vertex')
    # symmetric vertex: F = f1 + (1 - u_r chi) f2 equals Gamma/(1+Gamma chi0) on the big box
    ga_s = lfp_of(ch, gam, beta, u, wn, None)
    aux_s, vrg_s, chi_s = ref.ladder(gam, x0f, beta, u, ch)
    f1, f2 = fp.ladder_vertex_from_chi_aux_components(gchi_aux=aux_s, vrg=vrg_s, gchi0=x0, beta=beta, u_r=u_r)
    f = f1 + (1 - u_r * chi_s)[..., None, None] * f2
    fb = np.array([beta ** 2 * ref.core(ref.f_urange(gam, x0f[iq], beta, u_r), niv, (-1, -2)) for iq in range(len(qs))])
    close(f, fb, 'ladder vertex equals the Bethe-Salpeter solution on the full box', rtol=1e-6)
    for iq in range(min(2, len(qs))):
        for i in range(len(wn)):
            p1, p2 = fp.ladder_vertex_from_chi_aux_components(gchi_aux=aux_s[iq, i], vrg=vrg_s[iq, i], gchi0=x0[iq, i], beta=beta, u_r=u_r)
            close(p1, f1[iq, i], 'single slice')
            close(p2, f2[iq, i], 'single slice')
    close(ga.mat, keep, 'input vertex is not modified')


def dc(nk, niw, niv, nsh, ch, seed):
    from dga import four_point as fp
    beta, u = 2.8 + seed, 1.0 + 0.4 * seed
    wn, g, giwk, gen, gam = bed(niw, niv, beta, u, seed, None, nk=nk, extra=nsh + 8)
    n = niv + nsh
    qs = np.array(ref.qlist(nk))
    x0f = ref.gchi0_q(np.asarray(giwk.g_full()), beta, n, wn, qs)
    f = det((len(wn), 2 * n, 2 * n), seed)
    k = fp.get_kernel_dc(lfp_of(ch, f, beta, u, wn, None), x0f)
    close(k, ref.kernel_dc(f, x0f, ref.ur(u, ch), n), 'double-counting kernel')


def whole(nk, niw, niv, nsh, sel, seed):
    """ one-stop routine for both channels including the asymptotic correction """
    from dga import four_point as fp
    from dga import local_four_point as lfp
    beta, u = 2.8 + seed, 0.9 + 0.4 * seed
    wn, g, giwk, gen, gam = bed(niw, niv, beta, u, seed, None, nk=nk, extra=nsh + 8)
    n = niv + nsh
    qs = np.array(ref.qlist(nk))[sel]
    x0f = ref.gchi0_q(np.asarray(giwk.g_full()), beta, n, wn, qs)
    corr = gen.get_asymptotic_correction_q(n, qs)
    gm = ref.small_gamma(niw, niv, beta, 0.4, seed + 23)
    f = det((len(wn), 2 * n, 2 * n), seed)
    vl, cl = det((len(wn), 2 * niv), seed + 1), det((len(wn),), seed + 2)
    out = fp.get_vrg_and_chir_lad_from_gammar_uasympt_q(lfp_of('dens', gam, beta, u, wn, None), lfp_of('magn', gm, beta, u, wn, None),
                                                        lfp_of('magn', f, beta, u, wn, None), ltp_of('magn', vl, beta, u, wn, None), cl,
                                                        gen, u, qs, niv_shell=nsh)
    for j, (ch, gmat) in enumerate((('dens', gam), ('magn', gm))):
        u_r = ref.ur(u, ch)
        aux, vrg, chi = ref.ladder(gmat, x0f, beta, u, ch)
        close(out[2 + j], chi + corr, f'{ch} susceptibility', rtol=1e-8)
        close(out[j], vrg * ((1 - u_r * chi) / (1 - u_r * (chi + corr)))[..., None], f'{ch} three-leg vertex', rtol=1e-8)
    kdc = ref.kernel_dc(f, x0f, -u, niv) - u / beta * ((1 + u * cl)[:, None] * vl)[None] * corr[..., None]
    close(out[4], kdc, 'double-counting kernel', rtol=1e-8)


def reduces(nq, niw, niv, nsh, ch, seed):
    """ momentum-independent bubble: every q carries exactly the local result of the local routines """
    from dga import four_point as fp
    from dga import local_four_point as lfp
    beta, u = 3.1 + seed, 1.2
    wn, g, giwk, gen, gam = bed(niw, niv, beta, u, seed, None, nk=(2, 1, 1), extra=nsh + 8)
    n = niv + nsh
    ga = lfp_of(ch, gam, beta, u, wn, None)
    x0f = gen.get_gchi0(n)
    x0 = gen.get_gchi0(niv)
    rep = lambda a: np.repeat(np.asarray(a)[None], nq, axis=0)
    aux = lfp.gchi_aux_core_from_gammar(ga, x0)
    vrg, chi = lfp.get_vrg_and_chir_tilde_from_gammar_urange(ga, gen, nsh)
    a = fp.get_gchir_aux_from_gammar_q(ga, rep(x0))
    close(a, rep(aux.mat), 'auxiliary susceptibility')
    c0, c0f = x0.sum(axis=-1) / beta ** 2, x0f.sum(axis=-1) / beta ** 2
    close(fp.chi_phys_from_chi_aux_q(a.sum(axis=(-1, -2)) / beta ** 2, rep(c0f), rep(c0), u, ch), rep(chi), 'susceptibility')
    close(fp.vrg_from_gchi_aux(a, rep(x0)), rep(vrg.mat), 'three-leg vertex')
    close(fp.get_gchir_from_gamma_loc_q(ga, rep(x0)), rep(lfp.gchir_from_gamob2(ga, x0).mat), 'ladder susceptibility')
    xl = lfp.gchir_from_gamob2(ga, x0)
    close(fp.lam_from_chir_q(rep(xl.mat), rep(x0), ch), rep(lfp.lam_from_chir(xl, x0).mat), 'lambda vertex')


def run(ck):
    T = ck.thorough
    meshes = [(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 2, 1), (1, 2, 3)] + ([(4, 4, 1), (2, 3, 4)] if T else [])
    boxes = [(0, 2), (1, 1), (1, 3), (2, 2)] + ([(3, 4), (2, 6)] if T else [])
    items = []
    for nk in meshes:
        nq = int(np.prod(nk))
        sels = [tuple(range(nq)), tuple(range(nq))[::-2], (nq - 1,)]
        for w, v in boxes:
            for n in (0, 2):
                for s in dict.fromkeys(sels):
                    for c in CH:
                        items.append((f'ladder:nk={nk},niw={w},niv={v},nsh={n},{c},q={s}', (nk, w, v, n, c, list(s), w % 2)))
    ck.pcases(ladder, items, trivial=lambda nk, niw, niv, nsh, ch, sel, seed: len(sel) == 1)
    ck.pcases(whole, [(k.replace('ladder:', 'whole:').replace(',dens', ''), (a[0], a[1], a[2], a[3], a[5], a[6])) for k, a in items if a[4] == 'dens'],
              trivial=lambda nk, niw, niv, nsh, sel, seed: len(sel) == 1)
    ck.pcases(dc, [(f'dc:nk={nk},niw={w},niv={v},nsh={n},{c}', (nk, w, v, n, c, w % 2)) for nk in meshes for w, v in boxes for n in (0, 2) for c in CH])
    ck.pcases(reduces, [(f'reduces:nq={q},niw={w},niv={v},nsh={n},{c}', (q, w, v, n, c, 0)) for q in (1, 2, 5) for w, v in boxes for n in (0, 2) for c in CH],
              trivial=lambda q, *a: q == 1)
