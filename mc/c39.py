"""C39: results do not depend on what was computed before."""
import copy
import itertools
import os
import pickle
import signal

import numpy as np

from mc import pipe
from mc.common import Fail, Hang, LIMIT, close, det, expect, prod, same

LEVEL = 'exploration'
RULE = ('every ordered pair (thorough: every triple) of the registered calls of the library on one set of shared objects, and every call after '
        'the history of all others; every sequence of state changes of an object up to a depth with every observation in between; ordered '
        'pairs of complete runs in one process; non-trivial: at least two calls')

BETA, U = 3.3, 1.7
NK = (4, 3, 2)
NIW, NIV, SHELL = 2, 3, 2


# ------------------------------------------------------- shared objects -------------------------------------------------------------

def world():
    from dga import brillouin_zone as bz, bubble as bub, local_four_point as lfp, two_point as twop, wannier
    w = {}
    w['grid'] = bz.KGrid(NK, symmetries=bz.two_dimensional_nematic_symmetries())
    w['path'] = bz.KPath((12, 12, 1), 'Gamma-X-M-Gamma')
    w['hr'] = wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(1.0, -0.2, 0.1))
    w['ek'] = w['hr'].get_ek(w['grid']).real
    v = np.pi / BETA * (2 * np.arange(30) + 1)
    w['siw'] = (U * 0.42 + (0.6 - 0.05j) / (1j * v - 0.3 + 0.2 / (1j * v)))
    w['siwk'] = w['siw'][None, None, None, :] * (1 + 0.1 * w['ek'][..., None])
    w['sig'] = twop.SelfEnergy(w['siwk'], BETA, pos=True, niv_core=12)
    w['sigl'] = twop.SelfEnergy(w['siw'], BETA, pos=True)
    w['g'] = twop.GreensFunction(w['sig'], w['ek'], n=0.87, niv_asympt=40)
    w['gl'] = twop.GreensFunction(w['sigl'], w['ek'], mu=0.4, niv_asympt=30)
    w['wn'] = np.arange(-NIW, NIW + 1)
    w['bub'] = bub.BubbleGenerator(w['wn'], w['g'])
    w['bubpos'] = bub.BubbleGenerator(np.arange(NIW + 1), w['gl'], freq_notation='center')
    w['q'] = w['grid'].get_irrq_list()
    nw, nv = 2 * NIW + 1, 2 * NIV
    x0 = 0.5 + 0.2 * det((nw, nv), 3)
    w['x0'] = x0
    for i, ch in enumerate(('dens', 'magn')):
        m = 0.05 * det((nw, nv, nv), 11 + i) + np.array([np.diag(x) for x in x0])
        w['gchi_' + ch] = lfp.LocalFourPoint(ch, m, BETA, U, wn=w['wn'])
        w['gam_' + ch] = lfp.LocalFourPoint(ch, 0.1 * det((nw, nv, nv), 21 + i), BETA, U, is_full_w=True)
        w['lam_' + ch] = lfp.LocalThreePoint(ch, 0.3 * det((nw, nv), 31 + i), BETA, U, wn=w['wn'])
        w['vrg_' + ch] = lfp.LocalThreePoint(ch, 1 + 0.3 * det((nw, nv), 35 + i), BETA, U, is_full_w=True)
        w['chi_' + ch] = 0.4 + 0.1 * det((nw,), 41 + i)
        w['chiq_' + ch] = np.abs(det((len(w['q']), nw), 45 + i)) + 0.3
        w['vrgq_' + ch] = 1 + 0.2 * det((len(w['q']), nw, nv), 47 + i)
    w['aux'] = 0.3 * det((len(w['q']), nw, nv, nv), 51) + 0.1 * np.eye(nv)
    w['x0q'] = 0.6 + 0.2 * det((len(w['q']), nw, nv), 53)
    w['dc'] = 0.1 * det((len(w['q']), nw, nv), 55)
    w['giw'] = w['g'].g_loc
    w['gk'] = w['g'].g_full()
    w['m2'] = det((nv, nv), 61)
    w['m4'] = det((2, nw, 8, 8), 62)
    w['k3'] = np.asarray(det(NK, 63)).real
    w['kirr'] = det((w['grid'].nk_irr, 3), 64)
    w['fbz'] = det(NK + (2,), 65)
    w['freq'] = np.linspace(-6, 6, 61)
    w['swk'] = -0.3j - 0.1 * w['ek'][..., None] + 0.4 / (w['freq'] + 0.5 + 0.7j)
    w['real'] = twop.RealFrequencyGF(w['freq'], w['swk'], w['ek'], mu=0.3)
    w['zpts'] = 1j * v[:6]
    w['gz'] = 0.6 / (w['zpts'] - 0.5) + 0.4 / (w['zpts'] + 1.1)
    w['gmat'] = np.concatenate((np.conj(0.7 / (1j * v - 0.8) + 0.3 / (1j * v + 0.4))[::-1], 0.7 / (1j * v - 0.8) + 0.3 / (1j * v + 0.4)))
    w['chimat'] = 1.3 / (1 + (2 * np.pi / BETA * np.arange(-20, 21)) ** 2) + 0j
    w['gap'] = det(NK + (4,), 71)
    ga = det(NK + (4, 4), 72)
    w['pair'] = ga + np.conj(np.swapaxes(np.roll(ga[::-1, ::-1, ::-1], 1, (0, 1, 2)), -1, -2))
    w['gkpp'] = det(NK + (4,), 73)
    w['fcond'] = det((len(w['q']), 3, 2, 4), 74)
    w['ddict'] = {'g4iw_dens': det((nw, nv, nv), 81), 'g4iw_magn': det((nw, nv, nv), 82), 'beta': BETA, 'u': U}
    w['me'] = dict(nwr=21, wmax=5, wmin=-5, n_fit=6, err=0.05, bw=0.0)
    w['vn'] = np.arange(-4, 4)
    return w


OPS = {}


def op(fam):
    def dec(f):
        OPS[f.__name__] = (fam, f)
        return f
    return dec


def group(fam, **fns):
    """ fns: name -> callable of the shared objects """
    for k, f in fns.items():
        assert k not in OPS, k
        OPS[k] = (fam, f)


def register():
    from dga import (analytic_continuation as ac, brillouin_zone as bz, bubble as bub, eliashberg_equation as eq, four_point as fp,
                     lambda_correction as lc, local_four_point as lfp, matsubara_frequencies as mf, optics, ornstein_zernicke_function as oz,
                     pade_aux as pa, pairing_vertex as pv, plotting, two_point as twop, wannier)
    from ana_cont import continuation as cont
    if OPS:
        return
    OPS['start'] = ('none', lambda w: None)
    # ---- frequency objects
    group('mf', shell=lambda w: mf.append_v_vp_shell(w['m4'], 0.7, 2),
          vmvp=lambda w: mf.w_to_vmvp(w['chimat']), slices=lambda w: mf.wn_slices_gen(w['giw'], 4, w['wn']),
          slices_shell=lambda w: mf.wn_slices_shell(w['giw'], 4, 2, w=w['wn']), cut_iw=lambda w: mf.cut_iv_with_iw_shift(w['gk'], 5, 2, axes=(-1,)),
          full_f=lambda w: mf.fermionic_full_nu_range(w['siwk']), full_b=lambda w: mf.bosonic_full_nu_range(w['chimat'][20:]),
          conc=lambda w: mf.concatenate_core_asmypt(w['gkpp'], w['gap']), cutv=lambda w: mf.cut_v(w['m4'], 2, (-2, -1)),
          icut=lambda w: mf.inv_cut_v(w['m4'], 2, 1, axes=(-2,)), addb=lambda w: mf.add_bosonic(w['chi_dens'], w['chimat'], axis=0),
          cutw=lambda w: mf.cut_w(w['m4'], 1, (1,)), w0=lambda w: mf.mat_at_w0(w['m4'], axis=1), iwn=lambda w: mf.get_mat_at_iwn(w['m4'], -1, axis=1),
          vsum=lambda w: mf.vn_centered_sum(np.tile(w['m4'][0, :1], (5, 1, 1)), w['wn'], BETA, 2), wsum=lambda w: mf.wn_sum(w['chimat'], BETA, 4),
          pp=lambda w: mf.ph2pp(w['gam_dens'].mat), clip=lambda w: mf.clip_pos_mf_vn(w['giw']), vnb=lambda w: mf.vn_beta_form_mat(BETA, w['giw']),
          wnb=lambda w: mf.wn_beta_from_mat(BETA, w['chimat']), cen=lambda w: mf.cen2lin(w['wn'], -NIW))
    # ---- one-particle quantities
    group('two', smom=lambda w: twop.fit_smom(1j * np.pi / BETA * (2 * np.arange(30) + 1), w['siwk']), siwfull=lambda w: w['sig'].get_siw(20),
          siwall=lambda w: w['sig'].get_siw(), siwpi=lambda w: w['sig'].get_siw(8, pi_shift=True), asy=lambda w: w['sig'].get_asympt(7),
          asyfull=lambda w: w['sigl'].get_asympt(7, pos=False), kmean=lambda w: w['sig'].k_mean(), score=lambda w: w['sig'].sigma_core,
          est=lambda w: w['sig'].estimate_niv_core(), nivcore=lambda w: (w['sig'].niv_core, w['sigl'].niv_core, w['sigl'].smom0, w['sigl'].smom1),
          newsig=lambda w: vars(twop.SelfEnergy(w['siwk'], BETA, pos=True)), newsig_full=lambda w: vars(twop.SelfEnergy(w['gmat'], BETA)),
          dgasig=lambda w: vars(twop.create_dga_siwk_with_dmft_as_asympt(mf.fermionic_full_nu_range(w['siwk'][..., :4]), w['sigl'], 3)),
          gfull=lambda w: w['g'].g_full(), gpi=lambda w: w['g'].g_full(pi_shift=True), fs=lambda w: w['g'].fs(), fspi=lambda w: w['g'].fs(pi_shift=True),
          gmean=lambda w: (w['g'].k_mean(), w['g'].k_mean('full'), w['g'].g_loc), gn=lambda w: (w['g'].mu, w['g'].n, w['gl'].mu, w['gl'].n),
          gax=lambda w: (w['g'].v, w['g'].v_core, w['g'].vn, w['g'].size, w['g'].mem, w['g'].niv_full),
          ekin=lambda w: w['g'].e_kin, epot=lambda w: w['g'].e_pot, sfull=lambda w: w['g'].get_sigma_full(9), basy=lambda w: w['g'].build_asympt(9),
          newg=lambda w: gstate(twop.GreensFunction(w['sigl'], w['ek'], n=1.1, niv_asympt=20)),
          newgmu=lambda w: gstate(twop.GreensFunction(w['sig'], w['ek'], mu=0.6, niv_asympt=25)),
          fill=lambda w: twop.get_fill(iv=w['g'].iv_core, hk=w['ek'], siwk=w['sig'].sigma_core, beta=BETA, smom0=w['sig'].smom0, hloc=np.mean(w['ek']), mu=0.4),
          upmu=lambda w: twop.update_mu(mu0=0.1, target_filling=0.9, iv=w['g'].iv_core, hk=w['ek'], siwk=w['sig'].sigma_core, beta=BETA, smom0=w['sig'].smom0),
          upmup=lambda w: twop.update_mu_primitive(mu0=0.3, target_filling=0.9, iv=w['g'].iv_core, hk=w['ek'], siwk=w['sig'].sigma_core, beta=BETA, smom0=w['sig'].smom0),
          gloc=lambda w: twop.get_gloc(w['g'].iv_core, w['ek'], w['sig'].sigma_core, 0.3),
          awk=lambda w: w['real'].awk(), awkpi=lambda w: w['real'].awk(pi_shift=True), aw=lambda w: (w['real'].aw, w['real'].gw, w['real'].n),
          rfs=lambda w: w['real'].fs(), gtb=lambda w: w['real'].get_gwk_tb().gwk(), newreal=lambda w: twop.RealFrequencyGF(w['freq'], w['swk'], w['ek'], n=0.9, deltino=0.01).gwk())
    # ---- bubbles
    def both(f):
        return lambda w: (f(w['bub']), f(w['bubpos']))

    def bq(f):
        return lambda w: (f(w['bub'], w['q']), f(w['bubpos'], w['q']))
    group('bub', bchi0=both(lambda b: b.get_chi0(NIV)), bchi0a=both(lambda b: b.get_chi0(NIV, do_asympt=True)), bchi0b=both(lambda b: b.get_chi0(NIV, freq_notation='plus')),
          bgchi0=both(lambda b: b.get_gchi0(NIV)), bgchi0c=both(lambda b: b.get_gchi0(NIV, freq_notation='center')),
          bcorr=both(lambda b: b.get_asymptotic_correction(4)), bpre=both(lambda b: b.get_asympt_prefactors()), bsum=both(lambda b: b.get_asympt_sum(4)),
          bex=both(lambda b: b.get_exact_asymptotics()), bcorrq=bq(lambda b, q: b.get_asymptotic_correction_q(4, q)),
          bpreq=bq(lambda b, q: b.get_asympt_prefactors_q(q)), bsumq=bq(lambda b, q: b.get_asympt_sum_q(4, q)), bexq=bq(lambda b, q: b.get_exact_asymptotics_q(q)),
          beek=bq(lambda b, q: b.get_ek_ekpq(q)), bchi0q=bq(lambda b, q: b.get_chi0_q_list(NIV, q)), bgchi0q=bq(lambda b, q: b.get_gchi0_q_list(NIV, q)),
          bgchi0qc=bq(lambda b, q: b.get_gchi0_q_list(NIV, q, freq_notation='center')), bmom=both(lambda b: (b.smom0, b.smom1, b.ek_mom1, b.ek_mom2, b.mu, b.wn_lin, b.niw)),
          bfull=lambda w: bub.vec_get_gchi0(w['giw'], BETA, 4, w['wn'], is_full_wn=True), bvec=lambda w: bub.vec_get_chi0_q(w['gk'], BETA, 4, w['wn'], w['q'], is_full_wn=True),
          bvec1=lambda w: bub.vec_get_gchi0_q(w['gk'], BETA, 3, w['wn'], w['q']), bv0=lambda w: bub.vec_get_chi0_sum(w['giw'], BETA, 4, w['wn']))
    # ---- local two-particle quantities
    for ch in ('dens', 'magn'):
        g, ga, la, vr, c = 'gchi_' + ch, 'gam_' + ch, 'lam_' + ch, 'vrg_' + ch, 'chi_' + ch
        fns = dict(
            l_g2=lambda w, g=g: lfp.g2_from_chir(w[g], w['giw']), l_chi=lambda w, ch=ch: lfp.gchir_from_g2(lfp.get_g2_from_dmft_input(w['ddict'], ch), w['giw']),
            l_in=lambda w, ch=ch: lfp.get_g2_from_dmft_input(w['ddict'], ch), l_chig=lambda w, g=g: lfp.gchir_from_g2(w[g], w['giw']),
            l_f=lambda w, g=g: lfp.fob2_from_gchir(w[g], w['x0']), l_fg=lambda w, ga=ga: lfp.gchir_from_fob2(w[ga], w['x0']),
            l_fv=lambda w, ga=ga, vr=vr, c=c: lfp.fob2_from_vrg_and_chir(w[ga], w[vr], w[vr], w[c], w['x0']),
            l_gam=lambda w, g=g: lfp.gamob2_from_gchir(w[g], w['x0']), l_cg=lambda w, ga=ga: lfp.gchir_from_gamob2(w[ga], w['x0']),
            l_ur=lambda w, ga=ga: lfp.get_urange(w[ga], 0.3, 2), l_fur=lambda w, ga=ga: lfp.fob2_from_gamob2_urange(w[ga], w['bub'].get_gchi0(NIV + 2)),
            l_lam=lambda w, g=g: lfp.lam_from_chir(w[g], w['x0']), l_vrg=lambda w, la=la, c=c: lfp.vrg_from_lam(w[la], w[c]),
            l_sh=lambda w, la=la, c=c: lfp.get_chir_shell(w[la], w[c], w['x0'], U), l_ti=lambda w, la=la, c=c: lfp.get_chir_tilde(w[la], w[c], 0.1 * w[c], w['x0'], U),
            l_lt=lambda w, la=la, c=c: lfp.get_lam_tilde(w[la], w[c]),
            l_vur=lambda w, ga=ga: lfp.get_vrg_and_chir_tilde_from_gammar_urange(w[ga], w['bub'], 2),
            l_vua=lambda w, ga=ga: lfp.get_vrg_and_chir_tilde_from_gammar_uasympt(w[ga], w['bub'], 2),
            l_vca=lambda w, g=g: lfp.get_vrg_and_chir_tilde_from_chir_uasympt(w[g], w['bub'], U, 2),
            l_fdc=lambda w, vr=vr, ga=ga, c=c: lfp.get_f_dc_asympt(w[vr], w[ga], w[c], w['x0'], U),
            l_gur=lambda w, g=g: lfp.gamob2_from_gchir_urange(w[g], w['bub'].get_gchi0(NIV + 2)), l_aux=lambda w, g=g: lfp.gchi_aux_core(w[g]),
            l_auxg=lambda w, ga=ga: lfp.gchi_aux_core_from_gammar(w[ga], w['x0']), l_auxu=lambda w, ga=ga: lfp.gchi_aux_core_from_gammar_urange(w[ga], w['bub'].get_gchi0(NIV + 2)),
            l_auxl=lambda w, ga=ga: lfp.local_gchi_aux_from_gammar(w[ga], w['x0']), l_va=lambda w, ga=ga, c=c: lfp.vrg_from_gchi_aux_asympt(w[ga], w['x0'], w[c], w[c] * 1.1),
            l_v=lambda w, ga=ga: lfp.vrg_from_gchi_aux(w[ga], w['x0']), l_sde=lambda w, vr=vr, c=c: lfp.schwinger_dyson_vrg(w[vr], w[c], w['giw']),
            l_sdes=lambda w, vr=vr, c=c: lfp.schwinger_dyson_core_urange(w[vr], w[c], w['giw'], 3), l_sdef=lambda w, ga=ga: lfp.schwinger_dyson_f(w[ga], w['x0'], w['giw']),
            l_con=lambda w, g=g, ga=ga, vr=vr: (w[g].contract_legs(), w[ga].contract_legs(), w[vr].contract_legs()), l_phys=lambda w, c=c, ch=ch: lfp.chi_phys_urange(w[c], w[c] * 0.9, w[c] * 1.2, U, ch),
            l_ax=lambda w, g=g, ga=ga: (w[g].wn, w[g].vn, w[ga].wn, w[ga].wn_lin, w[ga].niv, w[ga].u_r, w[g].size),
            l_ctor=lambda w, ga=ga, vr=vr: (lfp.construct_lfp_from_lnp(w[vr], w[ga].mat), lfp.construct_ltp_from_lnp(w[ga], w[vr].mat)))
        group('lfp', **{f'{k}_{ch}': f for k, f in fns.items()})
    group('lfp', l_full=lambda w: lfp.schwinger_dyson_full(w['vrg_dens'], w['vrg_magn'], w['chi_dens'], w['chi_magn'], w['giw'], 0.9, 3),
          l_diag=lambda w: lfp.get_f_diag(w['chi_dens'], w['chi_magn'], 'magn'), l_ggv=lambda w: lfp.get_ggv(w['giw'], 4), l_x0=lambda w: lfp.get_gchi0_full(w['x0']))
    # ---- momentum-dependent two-particle quantities
    for ch in ('dens', 'magn'):
        ga, cq, vq = 'gam_' + ch, 'chiq_' + ch, 'vrgq_' + ch
        fns = dict(
            q_vrg=lambda w, cq=cq, vq=vq, ch=ch: fp.schwinger_dyson_vrg_q(w[vq], w[cq], w['gk'], BETA, U, ch, w['q'], np.ones(len(w['q'])), w['wn'], 5),
            q_sh=lambda w, cq=cq: fp.schwinger_dyson_q_shell(w[cq], w['gk'], BETA, U, 3, 2, w['wn'], w['q'], 5),
            q_ch=lambda w, cq=cq, vq=vq, ch=ch: fp.schwinger_dyson_channel_q(w[vq], w[cq], ch, w['gk'], BETA, U, w['q'], np.ones(len(w['q'])), w['wn'], 5, 2),
            q_k=lambda w, cq=cq, vq=vq, ch=ch: fp.get_kernel(w[vq], w[cq], U, ch), q_kdc=lambda w, ga=ga: fp.get_kernel_dc(w[ga], w['x0q']),
            q_g=lambda w, ga=ga: fp.get_gchir_from_gamma_loc_q(w[ga], w['x0q']), q_aux=lambda w, ga=ga: fp.get_gchir_aux_from_gammar_q(w[ga], w['x0q']),
            q_ph=lambda w, cq=cq, ch=ch: fp.chi_phys_from_chi_aux_q(w[cq], w[cq] * 1.2, w[cq] * 0.9, U, ch), q_lam=lambda w, ch=ch: fp.lam_from_chir_q(w['aux'], w['x0q'], ch),
            q_va=lambda w, cq=cq, ch=ch: fp.vrg_from_gchi_aux_asympt(w['aux'], w['x0q'], w[cq], w[cq] * 1.1, U, ch), q_v=lambda w: fp.vrg_from_gchi_aux(w['aux'], w['x0q']),
            q_lt=lambda w, vq=vq, cq=cq, ch=ch: fp.get_lam_tilde(w[vq], w[cq] * 0.1, U, ch), q_ct=lambda w, vq=vq, cq=cq, ch=ch: fp.chir_tilde(w[cq], w[vq], 0.1 * w[cq], w['x0q'], BETA, U, ch),
            q_vt=lambda w, vq=vq, cq=cq, ch=ch: fp.vrg_q_tilde(w[vq], w[cq], U, ch))
        group('fp', **{f'{k}_{ch}': f for k, f in fns.items()})
    group('fp', q_full=lambda w: fp.schwinger_dyson_full_q(w['vrgq_dens'], w['vrgq_magn'], w['chiq_dens'], w['chiq_magn'], w['dc'], w['gk'], BETA, U, w['q'], w['wn'], 5, 2),
          q_ker=lambda w: fp.schwinger_dyson_kernel_q(w['dc'], w['gk'], BETA, w['q'], w['wn'], 5),
          q_lad=lambda w: fp.get_vrg_and_chir_lad_from_gammar_uasympt_q(w['gam_dens'], w['gam_magn'], lfp.fob2_from_gamob2_urange(w['gam_magn'], w['bub'].get_gchi0(NIV + 2)),
                                                                        w['vrg_magn'], w['chi_magn'], w['bub'], U, w['q'], 2),
          q_comp=lambda w: fp.ladder_vertex_from_chi_aux_components(w['aux'], w['vrgq_dens'], w['x0q'], BETA, U),
          q_pair=lambda w: pv.ladder_vertex_from_chi_aux(w['aux'], w['vrgq_dens'], w['chiq_dens'], w['x0q'], BETA, U),
          q_pp=lambda w: pv.get_pp_slice_4pt(w['m2'], pv.get_omega_condition(2) == 1, 2), q_re=lambda w: pv.reshape_chi(w['fbz'][..., :1] + np.arange(7), 2),
          q_spch=lambda w: lc.lambda_correction(w['chiq_dens'], w['chiq_magn'], BETA, w['chi_dens'].real + 1, w['chi_magn'].real + 1, 'spch'),
          q_sp=lambda w: lc.lambda_correction(w['chiq_dens'], w['chiq_magn'], BETA, w['chi_dens'].real + 1, w['chi_magn'].real + 1, 'sp'),
          q_no=lambda w: lc.lambda_correction(w['chiq_dens'], w['chiq_magn'], BETA, w['chi_dens'], w['chi_magn'], 'none'),
          q_use=lambda w: lc.use_lambda(w['chiq_dens'], 0.2), q_start=lambda w: lc.get_lambda_start(w['chiq_dens']))
    # ---- Brillouin zone and bands
    kg = lambda f: (lambda w: f(w['grid'], w))
    group('bz', k_axes=kg(lambda k, w: (k.kx, k.ky, k.kz, k.kx_shift, k.ky_shift, k.kz_shift)), k_grid=kg(lambda k, w: k.grid), k_lists=kg(lambda k, w: (k.get_q_list(), k.get_irrq_list())),
          k_ind=kg(lambda k, w: (k.ind_lin, k.irrk_ind_lin, k.irrk_count, k.irrk_inv, k.fbz2irrk)), k_mesh=kg(lambda k, w: (k.kmesh, k.kmesh_list, k.kmesh_ind, k.irrk_mesh_ind)),
          k_i2f=kg(lambda k, w: k.map_irrk2fbz(w['kirr'])), k_f2i=kg(lambda k, w: k.map_fbz2irrk(w['fbz'])), k_m2l=kg(lambda k, w: k.map_fbz_mesh2list(w['fbz'])),
          k_l2m=kg(lambda k, w: k.map_fbz_list2mesh(w['fbz'].reshape(-1, 2))), k_mean=kg(lambda k, w: (k.k_mean(w['kirr']), k.k_mean(w['fbz'], 'fbz-mesh'))),
          k_sym=kg(lambda k, w: k.symmetrize_irrk(w['fbz'])), k_pi=kg(lambda k, w: k.shift_mat_by_pi(w['fbz'])), k_q=kg(lambda k, w: k.shift_mat_by_q(w['fbz'], (np.pi, 0, 0))),
          k_shift=kg(lambda k, w: k.shift_mat_by_ind(w['fbz'], (1, 2, 1))), k_find=kg(lambda k, w: k.find_q_ind((np.pi / 2, 0, np.pi))), k_slice=kg(lambda k, w: k.get_k_slice(w['k3'], 2, 0)),
          k_add=kg(lambda k, w: k.add_q_to_kgrid((np.pi / 2, 0, 0))), b_pi=lambda w: bz.shift_mat_by_pi(w['fbz']), b_zero=lambda w: bz.find_zeros(w['k3'][:, :, 0]),
          b_syms=lambda w: bz.apply_symmetries(np.array(w['k3']), bz.two_dimensional_nematic_symmetries()), b_ind=lambda w: bz.shift_mat_by_ind(w['fbz'], (1, -1, 0)),
          b_lists=lambda w: (bz.two_dimensional_square_symmetries(), bz.two_dimensional_nematic_symmetries(), bz.quasi_one_dimensional_square_symmetries()),
          b_new=lambda w: kstate(bz.KGrid((4, 4, 1), symmetries=bz.two_dimensional_square_symmetries())), b_new2=lambda w: kstate(bz.KGrid((4, 4, 1))),
          p_pts=lambda w: (w['path'].kpts, w['path'].k_val, w['path'].k_axis, w['path'].x_ticks), p_lab=lambda w: (w['path'].labels, w['path'].ckps),
          p_map=lambda w: w['path'].map_to_kpath(det((12, 12, 1, 2), 5)), p_bands=lambda w: w['path'].get_bands(det((12, 12, 1, 2, 2), 6)), p_masks=lambda w: bz.get_bz_masks(4),
          h_ek=lambda w: w['hr'].get_ek(w['grid']), h_lv=lambda w: w['hr'].get_light_vertex(w['grid'], 1), h_lv0=lambda w: w['hr'].get_light_vertex(w['grid']),
          h_new=lambda w: [w_hr(x) for x in (wannier.wannier_one_band_2d_t_tp_tpp(1.0, 0.3, 0.2), wannier.wannier_one_band_2d_nematic(1, .5, .2, .1, .3))],
          h_em=lambda w: wannier.WannierHr(*wannier.wannier_emery_model(1.0, -1.0, 0.5, 0.3, 0.1)).get_ek(w['grid'], one_band=False))
    # ---- further post-processing
    group('post', o_bub=lambda w: optics.vec_get_chijj_bubble(w['g'], w['hr'], w['grid'], w['wn'], 6), o_vert=lambda w: optics.vec_get_chijj_vert(w['fcond'], w['g'], w['hr'], w['grid'], np.arange(-1, 2), np.arange(2), w['q']),
          o_real=lambda w: optics.vec_get_chijj_bubble_realf(w['real'], w['hr'], w['grid'], BETA, 2.0), o_sig=lambda w: optics.vec_get_sigma_bub_realf(w['real'], w['hr'], w['grid'], BETA, 2.0, 1, 1),
          o_sl=lambda w: optics.get_vmw_v_slice(w['m2'], np.arange(2), 1), z_oz=lambda w: oz.oz_spin_w0(w['grid'], 0.5, 2.0),
          z_fit=lambda w: oz.fit_oz_spin(w['grid'], np.asarray(oz.oz_spin_w0(w['grid'], 0.5, 1.0))), a_ext=lambda w: ac.extract_coeff_on_ind(w['siwk'].reshape(-1, 30), np.arange(3), np.pi / BETA * (2 * np.arange(30) + 1)),
          a_poly=lambda w: (ac.poly_extrap_0(w['zpts'].imag, w['gz'].imag, 2, 4), ac.poly_der_extrap_0(w['zpts'].imag, w['gz'].imag, 2, 4)),
          a_zg=lambda w: ac.get_gamma_bandshift_z(w['zpts'].imag, w['gz'], 2, 4), a_kkt=lambda w: ac.kkt(np.exp(-w['freq'] ** 2), w['freq'], 'fermionic'), a_mesh=lambda w: [ac.get_w_mesh(m, -5, 5, 21, 0.1) for m in ('lorentzian', 'hyperbolic', 'linear', 'tan')],
          a_max=lambda w: me(ac, 'freq_fermionic', w).analytic_continuation([w['gmat']]), a_maxb=lambda w: me(ac, 'freq_bosonic', w).analytic_continuation([w['chimat']]),
          a_set=lambda w: [meset(ac.MaxEnt(BETA, k)) for k in ('freq_fermionic', 'freq_bosonic')], a_blur=lambda w: me(ac, 'freq_fermionic', w, bw=0.3).analytic_continuation([w['gmat']]),
          c_pre=lambda w: cont.AnalyticContinuationProblem(im_axis=w['zpts'].imag, re_axis=w['freq'], im_data=w['gz'], kernel_mode='freq_fermionic', beta=BETA).solve(
              method='maxent_svd', model=np.ones(61) / 12, stdev=np.ones(6) * 0.05, optimizer='newton', alpha_determination='chi2kink', preblur=True, blur_width=0.2, verbose=False)[0].A_opt,
          c_gf=lambda w: cont.GreensFunction(np.exp(-w['freq'] ** 2), w['freq'], kind='fermionic').kkt(), p_th=lambda w: pa.padeThiele(w['zpts'], w['gz'], w['freq'] + 0.1j), p_mat=lambda w: pa.padeMatrix(w['zpts'], w['gz'], 4),
          p_sol=lambda w: psol(pa, w), e_d=lambda w: (eq.d_wave(w['grid'].grid), eq.p_wave_x(w['grid'].grid), eq.p_wave_y(w['grid'].grid)), e_gs=lambda w: eq.gram_schmidt(w['gap'], [w['gkpp']]),
          e_gse=lambda w: eq.gram_schmidt_eliash(w['gap'], [w['gkpp'], w['gap'] * 0.5 + w['gkpp'] * 1j], w['gkpp']), e_rem=lambda w: eq.remove_prev_eigenvals(w['gap'], [w['gkpp']], [0.3]),
          e_start=lambda w: (eq.get_gap_start(NK + (4,), 'd-wave', 'even', w['grid'].grid), eq.get_gap_start(NK + (4,), 'p-wave-x', 'odd', w['grid'].grid)),
          e_sym=lambda w: [eq.symmetrize_gamma(w['pair'], c) for c in ('sing', 'trip')], e_pow=lambda w: epow(eq, w, True), e_pow0=lambda w: epow(eq, w, False),
          t_zero=lambda w: plotting.get_zero_contour(w['k3'][:, :, 0]))
    with_plots = dict(
        f_ind=lambda w: plotting.plot_along_ind(w['siwk'][..., :20], [(0, 0), (1, 2), (3, 1)], do_save=True, pdir='./'), f_k=lambda w: plotting.plot_kx_ky(w['k3'][:, :, 0], w['grid'].kx, w['grid'].ky, do_save=True),
        f_four=lambda w: lfp.plot_fourpoint_nu_nup(w['m2'], do_save=True), f_lfp=lambda w: w['gam_dens'].plot(iwn=0, name='x'), f_gap=lambda w: plotting.plot_gap_function_kx_ky(w['gap'][:, :, 0, :], w['grid'].kx, w['grid'].ky, do_save=True),
        f_chi=lambda w: plotting.chi_checks([w['chi_dens'], w['chi_dens'] * 2], [w['chi_magn'], w['chi_magn'] * 2], ['a', 'b'], w['g'], './', name='x'),
        f_sig=lambda w: plotting.sigma_loc_checks([w['giw'], w['giw'] * 2], ['a', 'b'], BETA, './', name='x'), f_loc=lambda w: plotting.local_diff_checks([[w['chimat'], w['chimat'] * 2]], [['a', 'b']], './', name='x'),
        f_fs=lambda w: plotting.plot_cont_fs(output_path='./', name='x', mat=w['real'].gwk(), v_real=w['freq'], k_grid=w['grid'], w_plot=0), f_path=lambda w: w['path'].plot_kpath(det((12, 12, 1), 5).real, name='x'))

    def plot(f):
        def g(w):
            with pipe.quiet_plots():
                f(w)
        return g
    group('plot', **{k: plot(f) for k, f in with_plots.items()})


def w_hr(h):
    return [np.asarray(x) for x in h]


def me(ac, kernel, w, **kw):
    s = dict(w['me'])
    s.update(kw)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return ac.MaxEnt(BETA, kernel, me_config=s)


def meset(m):
    return [m.w] + [getattr(m, k) for k in ('mesh_type', 'wmin', 'wmax', 'err', 'cut', 'method', 'optimizer', 'alpha_det_method', 'nwr', 'bw', 'n_fit')]


def psol(pa, w):
    r = pa.PadeSolver(w['zpts'].imag, w['freq'] + 0.2j, w['gz']).solve()
    return r.g_ret, r.A_opt, r.check


def epow(eq, w, shift):
    np.random.seed(4)
    p = eq.EliashberPowerIteration(gamma=w['pair'], gk=w['gkpp'], gap0=w['gap'], norm=7.0, eps=1e-6, max_count=40, shift_mat=shift, n_eig=2)
    return p.lam, p.gap


def gstate(g):
    return (g.mu, g.n, g.core, g.full, g.g_loc, g.niv_asympt, g.niv_core, g.beta, g.e_kin, g.e_pot, g.v, g.vn, g.size, g.g_full(), g.g_full(True), g.k_mean(), g.k_mean('full'), g.fs())


def kstate(k):
    return (k.kx, k.ky, k.kz, k.nk_irr, k.nk_tot, k.irrk_ind, k.irrk_count, k.irrk_inv, k.fbz2irrk, k.irrk_mesh_ind)


# -------------------------------------------------------- comparisons ---------------------------------------------------------------

def plain(x, depth=0):
    """ results as nested lists of arrays and scalars: only what a user sees (no private attributes) """
    if depth > 6:
        return None
    if isinstance(x, np.ndarray):
        return x.copy() if x.dtype != object else [plain(y, depth + 1) for y in x.ravel()]
    if isinstance(x, (np.generic, int, float, complex, str, bool, bytes, type(None))):
        return x
    if isinstance(x, dict):
        return {str(k): plain(v, depth + 1) for k, v in sorted(x.items(), key=lambda i: str(i[0]))}
    if isinstance(x, (list, tuple, set, range)):
        return [plain(y, depth + 1) for y in x]
    if hasattr(x, 'mat') and hasattr(x, 'channel'):
        return {'mat': np.array(x.mat), 'channel': x.channel, 'beta': x.beta, 'u': x.u, 'wn': np.array(x.wn), 'niv': x.niv, 'class': type(x).__name__}
    return None


def compare(a, b, what, tol=1e-9):
    if isinstance(b, np.ndarray):
        expect(isinstance(a, np.ndarray), f'{what}: {type(a)}')
        if b.dtype.kind in 'fc':
            ok = np.isfinite(b)
            same(np.isfinite(a), ok, what + ' (finite)')
            close(np.where(ok, a, 0), np.where(ok, b, 0), what, rtol=tol)
        else:
            same(a, b, what)
    elif isinstance(b, dict):
        expect(isinstance(a, dict) and a.keys() == b.keys(), f'{what}: different keys')
        for k in b:
            compare(a[k], b[k], f'{what}[{k}]', tol)
    elif isinstance(b, list):
        expect(isinstance(a, list) and len(a) == len(b), f'{what}: different lengths')
        for i, (x, y) in enumerate(zip(a, b)):
            compare(x, y, f'{what}[{i}]', tol)
    elif isinstance(b, (float, complex, np.floating, np.complexfloating)):
        expect(abs(a - b) <= tol * max(1, abs(b)) or (a != a and b != b), f'{what}: {a} instead of {b}')
    else:
        expect(a == b, f'{what}: {a!r} instead of {b!r}')


def data_of(w):
    """ the arrays the user handed over or reads off the objects """
    out = {}
    for k, x in w.items():
        if isinstance(x, (np.ndarray, dict)):
            out[k] = plain(x)
        elif hasattr(x, 'mat') and hasattr(x, 'channel'):
            out[k] = plain(x)
        else:
            out[k] = {n: plain(v) for n, v in vars(x).items() if not n.startswith('_') and isinstance(v, (np.ndarray, float, int, str)) and not isinstance(v, bool)}
    return out


def intact(before, after, what):
    for k, x in before.items():
        if isinstance(x, dict):
            for n, v in x.items():
                expect(n in after[k], f'{what} removed {k}.{n}')
                exactly(after[k][n], v, f'{what} modified {k}.{n}')
        else:
            exactly(after[k], x, f'{what} modified {k}')


def exactly(a, b, what):
    if isinstance(b, np.ndarray):
        expect(isinstance(a, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes(), what)
    elif isinstance(b, (list, dict)):
        compare(a, b, what, 0.0)
    else:
        expect(type(a) == type(b) and (a == b or a != a), what)


def isolated(fn):
    """ run in a process of its own, so that nothing computed before in this one is seen """
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, LIMIT, 2.0)
            try:
                res = (True, fn())
            except Fail as e:
                res = (False, str(e))
            except Exception as e:      # pylint: disable=broad-except
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                res = (False, f'{type(e).__name__}: {e} at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}')
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Hang()
    ok, res = pickle.loads(data)
    expect(ok, res)
    return res


REF = {}


def call(name, w):
    return OPS[name][1](w)


def step(name, w, hist):
    """ one call: its result is the reference, everything handed over stays as it was """
    before = data_of(w)
    res = call(name, w)
    p = plain(res)
    compare(p, REF[name], f'{name} after {hist}' if hist else name)
    intact(before, data_of(w), f'{name} (after {hist})' if hist else name)
    return res, p


def pairs_case(a):
    def go():
        w0 = world()
        for b in OPS:
            w = copy.deepcopy(w0)
            ra, pa = step(a, w, [])
            step(b, w, [a])
            exactly(plain(ra), pa, f'result of {a} changed by {b}')
        return None
    isolated(go)


def chain_case(a, k):
    """ one long history on the same objects: a, then all others in an order """
    def go():
        w = world()
        names = list(OPS)
        names = names[k:] + names[:k]
        if k % 2:
            names.reverse()
        step(a, w, [])
        kept = []
        for i, b in enumerate(names):
            kept.append((b,) + step(b, w, [a] + ['...'] * (i > 3) + names[max(0, i - 3):i]))
        for b, res, p in kept:
            exactly(plain(res), p, f'result of {b} changed by a later call of {names}')
        return None
    isolated(go)


def triples_case(fam, a):
    def go():
        w0 = world()
        names = [n for n in OPS if OPS[n][0] == fam]
        for b, c in prod(names, names):
            w = copy.deepcopy(w0)
            ra, pa = step(a, w, [])
            rb, pb = step(b, w, [a])
            step(c, w, [a, b])
            exactly(plain(ra), pa, f'result of {a} changed by {b}, {c}')
            exactly(plain(rb), pb, f'result of {b} (after {a}) changed by {c}')
        return None
    isolated(go)


# ------------------------------------------------ objects that change their state ---------------------------------------------------

def np_cutv(m, n):
    c = m.shape[-1] // 2
    return m[:, c - n:c + n, c - n:c + n]


def np_shell(m, val, n):
    k = m.shape[-1]
    out = np.full(m.shape[:1] + (k + 2 * n,) * 2, val, complex)
    out[:, n:n + k, n:n + k] = m
    return out


def np_cutw(m, n):
    c = m.shape[0] // 2
    return m[c - n:c + n + 1]


MUT = {
    'cutv1': (lambda o: o.cut_iv(1), lambda m: np_cutv(m, 1)), 'cutv2': (lambda o: o.cut_iv(2), lambda m: np_cutv(m, 2)),
    'cutw1': (lambda o: o.cut_iw(1), lambda m: np_cutw(m, 1)), 'cutw0': (lambda o: o.cut_iw(0), lambda m: np_cutw(m, 0)),
    'shell1': (lambda o: o.append_shell(0.3, 1), lambda m: np_shell(m, 0.3, 1)), 'shell2': (lambda o: o.append_shell(-0.2, 2), lambda m: np_shell(m, -0.2, 2)),
    'sym': (lambda o: o.symmetrize_v_vp(), lambda m: 0.5 * (m + np.swapaxes(m, 1, 2)))}


def obs_lfp(o, giw):
    """ everything that is derived from a vertex """
    from dga import local_four_point as lfp
    x0 = 0.7 + 0.1 * det(o.mat.shape[:2], 5)
    chi = 0.2 + 0.1 * det(o.mat.shape[:1], 6)
    vr = lfp.vrg_from_gchi_aux(o, x0)
    return plain([o, o.wn, o.wn_lin, o.vn, o.niv, o.size, o.contract_legs(), lfp.fob2_from_gchir(o, x0), lfp.gchir_from_gamob2(o, x0), lfp.get_urange(o, 0.1, 1), lfp.lam_from_chir(o, x0),
                  vr, lfp.gchi_aux_core_from_gammar(o, x0), lfp.schwinger_dyson_f(o, x0, giw), lfp.schwinger_dyson_vrg(vr, chi, giw), lfp.gchir_from_g2(o, giw), vr.contract_legs()])


def vertex_case(ch, seq, seen):
    """ a sequence of changes, observed after the steps in seen """
    from dga import local_four_point as lfp
    giw = det((30,), 9)
    m0 = 0.2 * det((2 * NIW + 1, 6, 6), 7) + np.eye(6)
    given = m0.copy()
    o = lfp.LocalFourPoint(ch, given, BETA, U, is_full_w=True)
    twin = lfp.construct_lfp_from_lnp(o, given)
    ref = m0
    obs0 = obs_lfp(o, giw)
    for i, s in enumerate(seq):
        MUT[s][0](o)
        ref = MUT[s][1](ref)
        if i in seen or i == len(seq) - 1:
            fresh = lfp.LocalFourPoint(ch, ref.copy(), BETA, U, is_full_w=True)
            compare(obs_lfp(o, giw), obs_lfp(fresh, giw), f'{ch} after {seq[:i + 1]}')
    same(given, m0, f'array handed over, after {seq}')
    compare(obs_lfp(twin, giw), obs0, f'object sharing its data, after {seq}')


def vertex_sequences(depth, niv=3, niw=NIW):
    """ sequences whose steps are all possible """
    out = []

    def grow(seq, nv, nw):
        if seq:
            out.append(tuple(seq))
        if len(seq) == depth:
            return
        for k, (dv, dw) in {'cutv1': (1, None), 'cutv2': (2, None), 'cutw1': (None, 1), 'cutw0': (None, 0), 'shell1': ('+', 1), 'shell2': ('+', 2), 'sym': (None, None)}.items():
            if dv == '+':
                n2, w2 = nv + dw, nw
            else:
                n2, w2 = (nv if dv is None else dv), (nw if dw is None else dw)
                if n2 > nv or w2 > nw:
                    continue
            grow(seq + [k], n2, w2)
    grow([], niv, niw)
    return out


def obs_g(g, q):
    from dga import bubble as bub
    bg = bub.BubbleGenerator(np.arange(-1, 2), g)
    return plain([gstate(g), g.fs(True), g.mem, g.itemsize, g.niv_full, g.build_asympt(5), bg.get_chi0(3), bg.get_gchi0_q_list(3, q)])


def greens_case(seq, seen, target):
    """ a Green's function whose asymptotic range changes, and a bubble generator that was made before """
    from dga import brillouin_zone as bz, bubble as bub, two_point as twop, wannier
    grid = bz.KGrid((3, 2, 1))
    ek = wannier.WannierHr(*w_hr(wannier.wannier_one_band_2d_t_tp_tpp(1.0, -0.2, 0.1))).get_ek(grid).real
    v = np.pi / BETA * (2 * np.arange(24) + 1)
    siw = 0.5 + 0.4 / (1j * v - 0.3)
    sig = twop.SelfEnergy(siw, BETA, pos=True, niv_core=10)
    kw = {target[0]: target[1]}
    q = grid.get_q_list()
    g = twop.GreensFunction(sig, ek, niv_asympt=6, **kw)
    bg = bub.BubbleGenerator(np.arange(-1, 2), g)
    for i, n in enumerate(seq):
        g.set_g_asympt(n)
        if i in seen or i == len(seq) - 1:
            f = twop.GreensFunction(twop.SelfEnergy(siw, BETA, pos=True, niv_core=10), ek.copy(), niv_asympt=n, **kw)
            fb = bub.BubbleGenerator(np.arange(-1, 2), f)
            compare(obs_g(g, q), obs_g(f, q), f'after {seq[:i + 1]}')
            for nm in ('get_chi0', 'get_gchi0', 'get_asymptotic_correction'):
                compare(plain(getattr(bg, nm)(3)), plain(getattr(fb, nm)(3)), f'{nm} of a bubble made before {seq[:i + 1]}')
            for nm in ('get_chi0_q_list', 'get_gchi0_q_list', 'get_asymptotic_correction_q'):
                compare(plain(getattr(bg, nm)(3, q)), plain(getattr(fb, nm)(3, q)), f'{nm} of a bubble made before {seq[:i + 1]}')


# ------------------------------------------------------- complete runs --------------------------------------------------------------

RUNS = {'full': ('full', {}), 'coarse': ('coarseq', dict(beta=5.0, u=1.2, seed=3)), 'plain': ('nosym', dict(beta=3.0, n=0.95, seed=5)),
        'optics': ('coarseopt', dict(u=1.1, seed=7)), 'pair': ('pairing', dict(beta=4.5, seed=9))}


def program(k):
    from mc import c03
    name, mod = RUNS[k]
    cfg = pipe.conf(**c03.CFG[name][0])
    b = cfg['box_sizes']
    return pipe.execute(cfg, pipe.model(b['niv_core'] + 1, b['niw_core'] + 1, 60, **mod), 1)[0]


def run_case(seq):
    """ the last run of a process writes what it writes alone """
    from mc import c03
    alone = isolated(lambda: program(seq[-1]))
    got = isolated(lambda: [program(k) for k in seq][-1])
    c03.compare(got, alone, f'run {seq[-1]} after {seq[:-1]}')


def refer(ck):
    """ the result of every call as the first one of a process """
    world()
    for name in OPS:
        msg = None
        try:
            REF[name] = isolated(lambda name=name: plain(call(name, world())))
            compare(isolated(lambda name=name: plain(call(name, world()))), REF[name], f'second evaluation of {name}')
        except Fail as e:
            msg = str(e)
            REF.pop(name, None)
        ck.record(f'alone:{name}', msg, trivial=True)
    for name in list(OPS):
        if name not in REF:
            del OPS[name]


def run(ck):
    th = ck.thorough
    ck.assumptions.append('results are compared up to the accuracy of the arithmetic (1e-9), arrays handed over bit by bit')
    register()
    refer(ck)
    names = list(OPS)
    ck.count('calls', len(names))
    ck.pcases(pairs_case, [(f'pairs:{a},*', (a,)) for a in names], chunk=1)
    ck.count('pairs', len(names) ** 2)
    ck.pcases(chain_case, [(f'chain:{a},{k}', (a, k)) for i, a in enumerate(names) for k in ((0, 1, 50, 101) if th else (i % 2,))], chunk=4)
    if th:
        for fam in ('mf', 'two', 'bub', 'lfp', 'fp', 'bz'):
            mem = [n for n in names if OPS[n][0] == fam]
            ck.pcases(triples_case, [(f'triples:{fam},{a}', (fam, a)) for a in mem], chunk=1)
            ck.count('triples', len(mem) ** 3)
    seqs = vertex_sequences(4 if th else 3)
    ck.count('state sequences', len(seqs))
    items = [(f'vertex:{ch},{">".join(s)},{"all" if seen else "end"}', (ch, s, seen)) for ch in ('dens', 'magn') for s in seqs for seen in ((), tuple(range(len(s))))
             if seen == () or len(s) > 1]
    ck.pcases(vertex_case, items)
    sizes = (1, 5, 9)
    items = [(f'greens:{s},{len(seen)},{t[0]}', (s, seen, t)) for d in range(1, 5 if th else 4) for s in prod(*[sizes] * d) for seen in ((), tuple(range(d))) for t in (('mu', 0.3), ('n', 0.9))]
    ck.pcases(greens_case, items)
    keys = list(RUNS)
    rs = [(a, b) for a in keys for b in keys if th or (keys.index(a) - keys.index(b)) % len(keys) in (1, 0)]
    if th:
        rs += [(a, b, a) for a in keys for b in keys if a != b]
    ck.pcases(run_case, [(f'runs:{">".join(r)}', (r,)) for r in rs], chunk=1)
