"""C16: local vertex equations (generalized susceptibility, irreducible / full vertex, three-leg vertices, asymptotics, SDE)."""
import numpy as np

from mc import ref
from mc.common import close, det, expect, raises

LEVEL = 'exploration'
RULE = ('every channel, bosonic range (full and selections), core and shell size in the stated ranges with generic complex data, against '
        'explicit matrix algebra on the full frequency box; non-trivial: more than one fermionic frequency pair')
CH = ('dens', 'magn')


def bed(niw, niv, beta, u, seed, sel=None, nk=(2, 2, 1), extra=12):
    """ Green's function, vertex and bubble generator; sel: selection of bosonic frequencies (None: all) """
    from dga import bubble as bub
    from dga import two_point as twop
    wn = np.arange(-niw, niw + 1) if sel is None else np.array(sel)
    ek = det(nk, seed).real
    ek = ek - ek.mean()
    n = niv + niw + extra
    pos = -1j * np.abs(det((1, 1, 1, n), seed + 1)) * 0.3 + 0.1 + 0.05 * det((1, 1, 1, n), seed + 2).real
    sig = twop.SelfEnergy(pos, beta, pos=True, smom0=0.2, smom1=-0.3, niv_core=n)
    giwk = twop.GreensFunction(sig, ek, mu=0.15, niv_asympt=2)
    gen = bub.BubbleGenerator(wn=wn, giwk_obj=giwk, is_full_wn=sel is None)
    gam = ref.small_gamma(niw, niv, beta, 0.5, seed + 7)
    gam = gam[wn + niw]
    g = np.asarray(giwk.g_full()).mean(axis=(0, 1, 2))
    return wn, g, giwk, gen, gam


def lfp_of(ch, mat, beta, u, wn, sel):
    from dga import local_four_point as lfp
    return lfp.LocalFourPoint(channel=ch, mat=np.array(mat), beta=beta, u=u, wn=None if sel is None else wn, is_full_w=sel is None)


def ltp_of(ch, mat, beta, u, wn, sel):
    from dga import local_four_point as lfp
    return lfp.LocalThreePoint(channel=ch, mat=np.array(mat), beta=beta, u=u, wn=None if sel is None else wn, is_full_w=sel is None)


def meta(a, b, ch, what):
    expect(a.channel == ch and a.beta == b.beta and a.u == b.u and np.array_equal(a.wn, b.wn), f'{what}: channel / beta / u / wn not carried over')


def conversions(niw, niv, ch, sel, seed):
    from dga import local_four_point as lfp
    beta, u = 3.1 + seed, 1.3 + 0.4 * seed
    wn, g, giwk, gen, gam = bed(niw, niv, beta, u, seed, sel)
    x0 = ref.gchi0_loc(g, beta, niv, wn)
    # g2 <-> chi
    m = det((len(wn), 2 * niv, 2 * niv), seed)
    m0 = m.copy()
    g2 = lfp_of(ch, m, beta, u, wn, sel)
    x = lfp.gchir_from_g2(g2, g)
    close(x.mat, ref.gchi_from_g2(m0, g, beta, ch, wn), 'gchi from G2')
    close(g2.mat, m0, 'input G2 is not modified')
    meta(x, g2, ch, 'gchi')
    back = lfp.g2_from_chir(x, g)
    close(back.mat, m0, 'G2 from gchi')
    close(x.mat, ref.gchi_from_g2(m0, g, beta, ch, wn), 'input gchi is not modified')
    # chi <-> Gamma
    ga = lfp_of(ch, gam, beta, u, wn, sel)
    x = lfp.gchir_from_gamob2(ga, x0)
    want = np.array([np.linalg.inv(np.diag(1 / b) + a) for a, b in zip(gam, x0)])
    close(x.mat, want, 'gchi from Gamma')
    meta(x, ga, ch, 'gchi')
    back = lfp.gamob2_from_gchir(x, x0)
    close(back.mat, gam, 'Gamma from gchi', rtol=1e-8)
    meta(back, ga, ch, 'Gamma')
    # chi <-> F
    f = lfp.fob2_from_gchir(x, x0)
    wf = np.array([np.diag(1 / b) - np.diag(1 / b) @ a @ np.diag(1 / b) for a, b in zip(want, x0)])
    close(f.mat, wf, 'F from gchi', rtol=1e-8)
    meta(f, ga, ch, 'F')
    close(f.mat, ref.f_urange(gam, x0, beta, 0), 'F = Gamma / (1 + Gamma chi0)', rtol=1e-7)
    close(lfp.gchir_from_fob2(f, x0).mat, want, 'gchi from F')
    close(lfp.get_gchi0_full(x0), np.array([np.diag(a) for a in x0]), 'diagonal bubble matrix')
    close(lfp.gamob2_from_gchir_urange(x, x0).mat, gam, 'u-range vertex without shell', rtol=1e-8)
    close(lfp.fob2_from_gamob2_urange(ga, x0).mat, wf, 'u-range F without shell', rtol=1e-7)
    if ch == 'dens':   # generic (not symmetric) irreducible vertex: the order of v and v' matters
        gn = gam + 0.05 / beta ** 2 * det(gam.shape, seed + 3)
        gb = lfp_of(ch, gn, beta, u, wn, sel)
        close(lfp.fob2_from_gamob2_urange(gb, x0).mat, np.array([a @ np.linalg.inv(np.eye(2 * niv) + np.diag(b) @ a) for a, b in zip(gn, x0)]), 'F of a generic vertex', rtol=1e-7)


def urange(niw, niv, nsh, ch, sel, seed):
    """ embed the core vertex into a box with a bare-interaction shell; everything must agree with plain algebra in the large box """
    from dga import local_four_point as lfp
    beta, u = 2.7 + seed, 1.1 + 0.5 * seed
    wn, g, giwk, gen, gam = bed(niw, niv, beta, u, seed, sel, extra=nsh + 8)
    u_r = ref.ur(u, ch)
    n = niv + nsh
    x0 = ref.gchi0_loc(g, beta, niv, wn)
    x0f = ref.gchi0_loc(g, beta, n, wn)
    big = ref.embed(gam, n, u_r / beta ** 2)
    xbig = np.array([np.linalg.inv(np.diag(1 / b) + a) for a, b in zip(big, x0f)])
    fbig = ref.f_urange(gam, x0f, beta, u_r)
    chi = xbig.sum(axis=(-1, -2)) / beta ** 2
    ga = lfp_of(ch, gam, beta, u, wn, sel)
    xcore = ref.core(xbig, niv, (-1, -2))
    xc = lfp_of(ch, xcore, beta, u, wn, sel)
    close(lfp.gamob2_from_gchir_urange(xc, x0f).mat, gam, 'irreducible vertex from the core of gchi', rtol=1e-7)
    close(lfp.fob2_from_gamob2_urange(ga, x0f).mat, fbig, 'F from the core of Gamma', rtol=1e-8)
    close(lfp.get_urange(ga, 0.3 - 0.2j, nsh).mat, ref.embed(gam, n, 0.3 - 0.2j), 'shell') if nsh else None
    # auxiliary susceptibility
    aux, vrg, chi_l = ref.ladder(gam, x0f, beta, u, ch)
    close(chi_l, chi, 'reference model', rtol=1e-8)
    a1 = lfp.gchi_aux_core_from_gammar(ga, x0)
    close(a1.mat, aux, 'auxiliary susceptibility')
    meta(a1, ga, ch, 'auxiliary susceptibility')
    close(lfp.local_gchi_aux_from_gammar(ga, x0).mat, aux, 'auxiliary susceptibility (2)')
    xplain = lfp_of(ch, [np.linalg.inv(np.diag(1 / b) + a) for a, b in zip(gam, x0)], beta, u, wn, sel)
    close(lfp.gchi_aux_core(xplain).mat, aux, 'auxiliary susceptibility from gchi', rtol=1e-8)
    wa = np.array([np.linalg.inv(np.diag(1 / b) + a - u_r / beta ** 2) for a, b in zip(big, x0f)])
    close(lfp.gchi_aux_core_from_gammar_urange(ga, x0f).mat, wa, 'auxiliary susceptibility in the u-range')
    close(a1.contract_legs(), aux.sum(axis=(-1, -2)) / beta ** 2, 'contracted legs')
    # physical susceptibility
    c0, c0f = x0.sum(axis=-1) / beta ** 2, x0f.sum(axis=-1) / beta ** 2
    close(lfp.chi_phys_urange(a1.contract_legs(), c0, c0f, u, ch), chi, 'susceptibility equals the sum over the full box', rtol=1e-8)
    corr = gen.get_asymptotic_correction(n)
    chi_as = chi + corr
    close(lfp.chi_phys_asympt(chi, c0f, c0f + corr), chi_as, 'asymptotic susceptibility')
    # three-leg vertex: one side summed with the bare legs removed
    gn = gam + 0.05 / beta ** 2 * det(gam.shape, seed + 3)
    gb = lfp_of(ch, gn, beta, u, wn, sel)
    auxn = ref.chi_aux(gn, x0, beta, u_r)
    cn = ref.ladder(gn, x0f, beta, u, ch)[2]
    for ax in (-1, -2):
        v0 = auxn.sum(axis=ax) / x0
        close(lfp.vrg_from_gchi_aux(lfp_of(ch, auxn, beta, u, wn, sel), x0, sum_axis=ax).mat, v0, f'three-leg vertex, axis {ax}')
        v1, c1 = lfp.get_vrg_and_chir_tilde_from_gammar_urange(gb, gen, nsh, sum_axis=ax)
        close(v1.mat, v0, f'three-leg vertex (u-range), axis {ax}')
        close(c1, cn, f'susceptibility (u-range), axis {ax}', rtol=1e-8)
        meta(v1, ga, ch, 'three-leg vertex')
        v2, c2 = lfp.get_vrg_and_chir_tilde_from_gammar_uasympt(gb, gen, nsh, sum_axis=ax)
        close(c2, cn + corr, f'susceptibility (asymptotic), axis {ax}', rtol=1e-8)
        close(v2.mat, v0 * ((1 - u_r * cn) / (1 - u_r * (cn + corr)))[:, None], f'three-leg vertex (asymptotic), axis {ax}', rtol=1e-8)
        close(lfp.vrg_from_gchi_aux_asympt(lfp_of(ch, auxn, beta, u, wn, sel), x0, cn, cn + corr, sum_axis=ax).mat,
              v0 * ((1 - u_r * cn) / (1 - u_r * (cn + corr)))[:, None], f'three-leg vertex (asymptotic, direct), axis {ax}', rtol=1e-8)
    v3, c3 = lfp.get_vrg_and_chir_tilde_from_chir_uasympt(xplain, gen, u, nsh)
    close(c3, chi_as, 'susceptibility from gchi', rtol=1e-7)
    close(v3.mat, vrg * ((1 - u_r * chi) / (1 - u_r * chi_as))[:, None], 'three-leg vertex from gchi', rtol=1e-7)
    # the default summation axis is the second fermionic frequency
    close(lfp.get_vrg_and_chir_tilde_from_gammar_uasympt(gb, gen, nsh)[0].mat, lfp.get_vrg_and_chir_tilde_from_gammar_uasympt(gb, gen, nsh, sum_axis=-1)[0].mat, 'default axis')
    # full vertex from three-leg vertices
    vl, vr = auxn.sum(axis=-1) / x0, auxn.sum(axis=-2) / x0
    fn = np.array([b @ np.linalg.inv(np.eye(2 * n) + np.diag(c) @ b) for b, c in zip(ref.embed(gn, n, u_r / beta ** 2), x0f)])
    got = lfp.fob2_from_vrg_and_chir(lfp_of(ch, auxn, beta, u, wn, sel), ltp_of(ch, vl, beta, u, wn, sel), ltp_of(ch, vr, beta, u, wn, sel), cn, x0)
    close(got.mat, ref.core(fn, niv, (-1, -2)), 'core of F from three-leg vertices and susceptibility', rtol=1e-6)
    expect(raises(lambda: lfp.fob2_from_vrg_and_chir(lfp_of('magn' if ch == 'dens' else 'dens', auxn, beta, u, wn, sel), ltp_of(ch, vl, beta, u, wn, sel), ltp_of(ch, vr, beta, u, wn, sel), cn, x0)), 'mixed channels accepted')
    got = lfp.get_f_dc_asympt(ltp_of(ch, vrg, beta, u, wn, sel), lfp_of(ch, aux, beta, u, wn, sel), chi, x0, u)
    close(got.mat, beta ** 2 * ref.core(fbig, niv, (-1, -2)), "F from a three-leg vertex symmetric in v, v'", rtol=1e-6)


def threeleg(niw, niv, ch, sel, seed):
    """ lambda-type vertex and shell corrections """
    from dga import local_four_point as lfp
    beta, u = 2.9 + seed, 0.9 + 0.4 * seed
    sign = {'dens': 1, 'magn': -1}[ch]
    wn, g, giwk, gen, gam = bed(niw, niv, beta, u, seed, sel)
    x0 = ref.gchi0_loc(g, beta, niv, wn)
    x = np.array([np.linalg.inv(np.diag(1 / b) + a) for a, b in zip(gam, x0)])
    aux, vrg, chi = ref.ladder(gam, x0, beta, u, ch)
    xo = lfp_of(ch, x, beta, u, wn, sel)
    lam = lfp.lam_from_chir(xo, x0)
    wl = -sign * (1 - (x / x0[:, :, None]).sum(axis=-1))
    close(lam.mat, wl, 'lambda vertex')
    meta(lam, xo, ch, 'lambda vertex')
    v = lfp.vrg_from_lam(lam, chi)
    close(v.mat, vrg, 'three-leg vertex from lambda equals the one from the auxiliary susceptibility', rtol=1e-7)
    sh = 0.1 * det((len(wn),), seed + 5).real
    wt = (wl - (u * sh)[:, None]) / (1 + sign * u * sh)[:, None]
    lt = lfp.get_lam_tilde(lam, sh)
    close(lt.mat, wt, 'shell-corrected lambda')
    close(lfp.get_lam_shell(sh, u), u * sh, 'lambda shell')
    ws = -sign * u * sh ** 2 + sh * (1 - 2 * u / beta ** 2 * np.sum((wt + sign) * x0, axis=-1))
    close(lfp.get_chir_shell(lt, sh, x0, u), ws, 'shell susceptibility')
    close(lfp.get_chir_tilde(lt, chi, sh, x0, u), (chi + ws) / (1 - (u * sh) ** 2), 'shell-corrected susceptibility')
    zero = np.zeros(len(wn))
    close(lfp.get_lam_tilde(lam, zero).mat, wl, 'no shell: lambda unchanged')
    close(lfp.get_chir_tilde(lam, chi, zero, x0, u), chi, 'no shell: susceptibility unchanged')


def sde(niw, niv, nsh, sel, seed):
    from dga import local_four_point as lfp
    beta, u, n = 2.6 + seed, 1.2 + 0.3 * seed, 0.85
    wn, g, giwk, gen, _ = bed(niw, niv, beta, u, seed, sel, extra=nsh + 8)
    tot = u * n / 2
    out = {}
    for i, ch in enumerate(CH):
        v = det((len(wn), 2 * niv), seed + i)
        c = det((len(wn),), seed + 3 + i)
        out[ch] = (ltp_of(ch, v, beta, u, wn, sel), c)
        for s in {0, nsh}:
            want = ref.sde_local(v, c, g, beta, u, ch, s, wn)
            close(lfp.schwinger_dyson_core_urange(out[ch][0], c, g, s), want, f'{ch} self-energy, shell {s}')
        close(lfp.schwinger_dyson_vrg(out[ch][0], c, g), ref.sde_local(v, c, g, beta, u, ch, 0, wn), f'{ch} self-energy, core')
        tot = tot + ref.sde_local(v, c, g, beta, u, ch, nsh, wn)
        if nsh:
            w = ref.sde_local(v, c, g, beta, u, ch, nsh, wn)
            close(lfp.schwinger_dyson_shell(c, g, beta, u, nsh, niv, wn), np.concatenate((w[:nsh], w[-nsh:])), f'{ch} self-energy, shell')
    got = lfp.schwinger_dyson_full(out['dens'][0], out['magn'][0], out['dens'][1], out['magn'][1], g, n, niv_shell=nsh)
    close(got, tot, 'full self-energy')


def sde_f(niw, niv, sel, seed):
    """ the self-energy from the full vertex equals the one from three-leg vertices (same finite box) """
    from dga import local_four_point as lfp
    beta, u, n = 3.3, 1.2, 0.9
    wn, g, giwk, gen, gam = bed(niw, niv, beta, u, seed, sel)
    x0 = ref.gchi0_loc(g, beta, niv, wn)
    f, v, c = {}, {}, {}
    for i, ch in enumerate(CH):
        ga = ref.small_gamma(niw, niv, beta, 0.4, seed + 11 + i)[wn + niw] + ref.ur(u, ch) / beta ** 2
        aux, v[ch], c[ch] = ref.ladder(ga, x0, beta, u, ch)
        f[ch] = ref.f_urange(ga, x0, beta, 0)
    fu = 0.5 * (f['dens'] - f['magn'])
    got = lfp.schwinger_dyson_f(lfp_of('updo', fu, beta, u, wn, sel), x0, g)
    want = np.array([sum(u / beta * np.sum(fu[i][k + niv] * x0[i]) * ref.fv(g, k - w) for i, w in enumerate(wn)) for k in ref.fi(niv)])
    close(got, want, 'self-energy from F')
    both = lfp.schwinger_dyson_full(ltp_of('dens', v['dens'], beta, u, wn, sel), ltp_of('magn', v['magn'], beta, u, wn, sel), c['dens'], c['magn'], g, n)
    close(both - u * n / 2, got, 'self-energies from F and from three-leg vertices agree', rtol=1e-7)


def container(niw, niv, ch, seed):
    from dga import local_four_point as lfp
    beta, u = 3.0, 1.5
    m = det((2 * niw + 1, 2 * niv, 2 * niv), seed)
    o = lfp_of(ch, m, beta, u, None, None)
    expect(o.niv == niv and np.array_equal(o.wn, np.arange(-niw, niw + 1)) and np.array_equal(o.vn, np.arange(-niv, niv)), 'ranges')
    expect(o.u_r == ref.ur(u, ch), 'signed interaction')
    for c in range(0, niw + 1):
        o = lfp_of(ch, m, beta, u, None, None)
        o.cut_iw(c)
        close(o.mat, m[niw - c:niw + c + 1], 'bosonic cut')
        expect(np.array_equal(o.wn, np.arange(-c, c + 1)), 'bosonic range after the cut')
    for c in range(1, niv + 1):
        o = lfp_of(ch, m, beta, u, None, None)
        o.cut_iv(c)
        close(o.mat, ref.core(m, c, (-1, -2)), 'fermionic cut')
        expect(o.niv == c, 'fermionic range after the cut')
    for s in range(1, 4):
        o = lfp_of(ch, m, beta, u, None, None)
        o.append_shell(0.7 + 0.1j, s)
        close(o.mat, ref.embed(m, niv + s, 0.7 + 0.1j), 'shell')
    o = lfp_of(ch, m, beta, u, None, None)
    o.symmetrize_v_vp()
    close(o.mat, 0.5 * (m + m.transpose(0, 2, 1)), 'symmetrization')
    close(o.contract_legs(), o.mat.sum(axis=(1, 2)) / beta ** 2, 'contraction')
    t = ltp_of(ch, m[..., 0], beta, u, None, None)
    close(t.contract_legs(), m[..., 0].sum(axis=1) / beta, 'contraction of a three-leg object')
    for bad in ('Dens', 'charge', ''):
        expect(raises(lambda b=bad: lfp_of(b, m, beta, u, None, None)), 'unknown channel accepted')
        expect(raises(lambda b=bad: lfp.get_ur(u, b)), 'unknown channel accepted by the signed interaction')
    dd = {f'g4iw_{c}': m + i for i, c in enumerate(CH)}
    dd.update(beta=beta, u=u)
    if ch in CH:
        o = lfp.get_g2_from_dmft_input(dd, ch)
        close(o.mat, m + CH.index(ch), 'two-particle Green\'s function from the input')
        expect(o.channel == ch and o.beta == beta and o.u == u, 'two-particle Green\'s function metadata')


def fdiag(niw, seed):
    from dga import local_four_point as lfp
    c = {ch: det((2 * niw + 1,), seed + i) for i, ch in enumerate(CH)}
    d, m = lfp.get_f_diag(c['dens'], c['magn'], 'dens'), lfp.get_f_diag(c['dens'], c['magn'], 'magn')
    n = niw // 2
    for a, coef in ((d, (0.5, 1.5)), (m, (0.5, -0.5))):
        k = a.shape[0] // 2
        expect(a.shape[0] == a.shape[1] and k >= n, 'size of the diagonal vertex')
        for v in ref.fi(k):
            for p in ref.fi(k):
                if abs(v - p) <= niw:
                    close(a[v + k, p + k], coef[0] * c['dens'][v - p + niw] + coef[1] * c['magn'][v - p + niw], f'entry {v},{p}')


def run(ck):
    T = ck.thorough
    boxes = [(0, 1), (1, 1), (1, 2), (2, 3), (3, 2)] + ([(4, 4), (2, 6), (5, 3), (0, 8)] if T else [(1, 4)])
    sels = lambda niw: [None] + [s for s in ((0,), (-1, 0, 1), (1,), (-2, 0, 2), (0, 1, 2), (2, -1, 1)) if max(map(abs, s)) <= niw]
    seeds = (0, 1) + ((2, 3) if T else ())
    ck.pcases(conversions, [(f'conv:niw={w},niv={v},{c},sel={s},seed={d}', (w, v, c, s, d)) for w, v in boxes for c in CH for s in sels(w) for d in seeds],
              trivial=lambda w, v, *a: v == 1)
    ck.pcases(urange, [(f'urange:niw={w},niv={v},nsh={n},{c},sel={s},seed={d}', (w, v, n, c, s, d)) for w, v in boxes for n in (0, 1, 3) + ((8,) if T else ())
                       for c in CH for s in sels(w) for d in seeds])
    ck.pcases(threeleg, [(f'three:niw={w},niv={v},{c},sel={s},seed={d}', (w, v, c, s, d)) for w, v in boxes for c in CH for s in sels(w) for d in seeds])
    ck.pcases(sde, [(f'sde:niw={w},niv={v},nsh={n},sel={s},seed={d}', (w, v, n, s, d)) for w, v in boxes for n in (0, 1, 4) for s in sels(w) for d in seeds])
    ck.pcases(sde_f, [(f'sde_f:niw={w},niv={v},sel={s},seed={d}', (w, v, s, d)) for w, v in boxes for s in sels(w) for d in seeds])
    ck.pcases(container, [(f'container:niw={w},niv={v},{c}', (w, v, c, 0)) for w, v in boxes for c in ('dens', 'magn', 'updo', 'upup')])
    ck.pcases(fdiag, [(f'fdiag:niw={w}', (w, 0)) for w in range(0, 9)], trivial=lambda w, d: w == 0)
