"""C04: every quantity a complete run stores is the ladder-DGA result of its input and configuration."""
import tempfile

import numpy as np

from mc import pipe, ref
from mc.c05 import expected_opt, expected_pv
from mc.c24 import dense
from mc import common
from mc.common import expect

LEVEL = 'exploration'
RULE = ('complete runs of the main program for all combinations of the stated configurations (bands with and without inversion symmetry, lattice '
        'symmetries, k- and q-meshes, boxes cut or taken from the input, shells, lambda corrections, symmetrization, model parameters, optional '
        'parts); the state after every stage (vertex, susceptibilities, three-leg vertex, self-energy, chemical potential, Green function, energies, '
        'pairing vertex, gap equation, current response) is compared with an independently written step-by-step model of the ladder equations '
        'on the full zone; non-trivial: more than one bosonic frequency')

STAT = None
HS = {(1, 0, 0): -1, (-1, 0, 0): -1, (0, 1, 0): -1, (0, -1, 0): -1, (1, 1, 0): .2, (-1, -1, 0): .2, (1, -1, 0): .2, (-1, 1, 0): .2}
HX = {(1, 0, 0): -1, (-1, 0, 0): -1, (0, 1, 0): -.6, (0, -1, 0): -.6, (1, 1, 0): .2, (-1, -1, 0): .2, (1, -1, 0): .2, (-1, 1, 0): .2, (0, 0, 0): .3}
HI = dict(HX)
HI.update({(1, 1, 0): .3, (-1, -1, 0): .3, (0, 0, 1): -.25, (0, 0, -1): -.25})
HC = dict(HI)
HC.update({(1, 0, 0): -1 + .3j, (-1, 0, 0): -1 - .3j, (0, 1, 0): -.6 - .2j, (0, -1, 0): -.6 + .2j, (2, 1, 0): .1j, (-2, -1, 0): -.1j})
BANDS = {'t': pipe.HR, 'file': HS, 'q1d': HX, 'inv': HI, 'cplx': HC}
BANDS = {k: {r: complex(t) for r, t in h.items()} if isinstance(h, dict) else h for k, h in BANDS.items()}


def lam_find(beta, chi, target):
    """ correction that fixes the sum rule, by bisection above the divergence """
    n = chi.shape[-1] // 2
    lo = -np.min(1 / chi[..., n].real)
    if lo < -np.min((1 / chi).real) + 1e-3:
        return None          # not a susceptibility: the corrected one is not monotonic above its static divergence

    def f(x):
        return (np.sum(1 / (1 / chi + x)) / beta / np.prod(chi.shape[:-1])).real - target
    hi = lo + 1.0
    if target <= 1e-6:
        return None
    while f(hi) > 0:
        hi += 2 * (hi - lo)
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if f(mid) > 0:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


class Model:
    """ the calculation, stage by stage, on the full zone """

    def __init__(self, cfg, data, hr, stored):
        """ stored: the corrected susceptibilities of the run. The correction is one number per channel; it is determined to the accuracy
            of the iteration, so that the stages behind it use the stored one """
        box, lat = cfg['box_sizes'], cfg['lattice']
        self.nk, self.nq = tuple(lat['nk']), tuple(lat.get('nq', lat['nk']))
        beta, u, n = data['beta'], data['u'], data['n']
        self.beta, self.u = beta, u
        g2 = {ch: data[f'g4iw_{ch}'] for ch in ('dens', 'magn')}
        niw = box['niw_core'] if box['niw_core'] != -1 else g2['dens'].shape[0] // 2
        niv = box['niv_core'] if box['niv_core'] != -1 else g2['dens'].shape[1] // 2
        nsh = box['niv_shell']
        self.niw, self.niv, self.nsh = niw, niv, nsh
        nas = niv + nsh + 2 * niw
        opt = cfg.get('optics', {})
        self.niw_cond = opt.get('niw_cond', niw // 2)
        self.niw_vert = opt.get('niw_vert', niw)
        self.niv_bub = opt.get('niv_bubble', nas - 2 * self.niw_cond)
        self.niw_bub = opt.get('niw_bubble', self.niw_cond)
        self.niv_vert = niv - self.niw_cond
        self.nas = max(nas, self.niv_bub + self.niw_bub)
        wn = np.arange(-niw, niw + 1)
        self.wn = wn
        ek = pipe.band(self.nk, hr)
        for ch in g2:
            w0 = g2[ch].shape[0] // 2
            g2[ch] = ref.core(g2[ch][w0 - niw:w0 + niw + 1], niv, (-1, -2))
            if cfg['dmft_input'].get('do_sym_v_vp', True):
                g2[ch] = 0.5 * (g2[ch] + np.swapaxes(g2[ch], 1, 2))
        self.g2 = g2
        # impurity
        ns = len(data['siw']) // 2
        sig = ref.Sigma(data['siw'][ns:], beta)
        g = ref.Green(sig, ek, mu=data['mu_dmft'], niv_asympt=self.nas)
        self.g_dmft = g
        gl = g.loc
        nf = niv + nsh
        x0 = ref.gchi0_loc(gl, beta, nf, wn)
        self.gamma, self.chi_loc, vl = {}, {}, {}
        for ch in g2:
            x = ref.gchi_from_g2(g2[ch], gl, beta, ch, wn)
            self.gamma[ch] = ref.gamma_urange(x, x0, beta, ref.ur(u, ch))
            _, vl[ch], self.chi_loc[ch] = ref.ladder(self.gamma[ch], x0, beta, u, ch)
        self.siw_sde = u * n / 2 + sum(ref.sde_local(vl[ch], self.chi_loc[ch], gl, beta, u, ch, nsh, wn) for ch in g2)
        # lattice: momentum transfers of the q-mesh are momenta of the k-mesh
        r = [a // b for a, b in zip(self.nk, self.nq)]
        self.qs = [tuple(q[i] * r[i] for i in range(3)) for q in ref.qlist(self.nq)]
        nqt = len(self.qs)
        xq = ref.gchi0_q(g.full, beta, nf, wn, self.qs)
        f_dc = ref.f_urange(self.gamma['magn'], x0, beta, -u)
        kdc = ref.kernel_dc(f_dc, xq, -u, niv)
        self.aux, self.vrg, chi = {}, {}, {}
        for ch in g2:
            self.aux[ch], self.vrg[ch], chi[ch] = ref.ladder(self.gamma[ch], xq, beta, u, ch)
        self.xqc = ref.core(xq, niv)
        self.chi_lad = {c: x.reshape(self.nq + (len(wn),)) for c, x in chi.items()}
        # lambda correction
        self.lam = {'dens': 0.0, 'magn': 0.0}
        tot = {c: np.sum(x).real / beta for c, x in self.chi_loc.items()}
        kind = cfg['dga']['lambda_corr']
        if kind == 'spch':
            for c in tot:
                self.lam[c] = lam_find(beta, self.chi_lad[c], tot[c])
        elif kind == 'sp':
            self.lam['magn'] = lam_find(beta, self.chi_lad['magn'], tot['dens'] + tot['magn'] - np.sum(self.chi_lad['dens']).real / beta / nqt)
        self.used = {}
        for c, x in self.chi_lad.items():
            expect(stored[c].shape == x.shape, f'susceptibility {c}: shape {stored[c].shape}, expected {x.shape}')
            d = 1 / stored[c] - 1 / x
            i = np.argmax(np.abs(x))
            self.used[c] = np.ravel(d)[i].real
        self.chi = {c: 1 / (1 / x + self.used[c]) for c, x in self.chi_lad.items()}
        fac = ref.tail_factors(g.mu, sig.m0, sig.m1, ek, (0, 0, 0))
        corr = ref.tail_exact(beta, 0, fac) - ref.tail_sum(beta, nf, 0, 'minus', fac)
        self.uniform = [(self.chi[c][0, 0, 0, niw] + corr).real for c in ('dens', 'magn')]
        # self-energy
        flat = {c: x.reshape(nqt, len(wn)) for c, x in self.chi.items()}
        kern = ref.sde_kernel(self.vrg['dens'], self.vrg['magn'], flat['dens'], flat['magn'], kdc, u)
        s = ref.sde_q(kern, g.full, beta, wn, self.qs, nqt)
        s = s + ref.core(data['siw'], niv) - ref.core(self.siw_sde, niv) + u * n / 2
        pos = np.concatenate((s[..., niv:], np.broadcast_to(sig.get(nf)[0, 0, 0, nf + niv:], self.nk + (nsh,))), axis=-1)
        self.sigma = ref.Sigma(pos, beta, smom0=sig.m0, smom1=sig.m1, niv_core=nf)
        # chemical potential: any solution of the filling condition; read off from one entry of the stored Green function
        st = stored['g']
        expect(st.shape == self.nk + (2 * (nf + self.nas),), f'Green function: shape {st.shape}')
        c = st.shape[-1] // 2
        mu = (1 / st[0, 0, 0, c] + ek[0, 0, 0] + self.sigma.get(1)[0, 0, 0, 1] - 1j * ref.nu(beta, 0)).real
        self.g = ref.Green(self.sigma, ek, mu=mu, niv_asympt=self.nas)
        self.siwk = self.sigma.get(nf)
        # vertices
        self.f = {}
        for ch in g2:
            eye = np.eye(2 * niv)
            f1 = beta ** 2 / self.xqc[..., :, None] * (eye - self.aux[ch] / self.xqc[..., None, :])
            f2 = ref.ur(u, ch) * self.vrg[ch][..., :, None] * self.vrg[ch][..., None, :]
            self.f[ch] = f1, f2

    def full_vertex(self, ch, a=None, chi=None):
        f1, f2 = self.f[ch] if a is None else a
        return f1 + (1 - ref.ur(self.u, ch) * chi) * f2

    def pairing(self):
        """ singlet and triplet vertex F(k-k', v-v'; v, -v') """
        npp = min(self.niw // 2, self.niv // 2)
        out = {}
        for ch in self.f:
            c = self.chi[ch].reshape(len(self.qs), -1)
            cpp = np.array([[c[:, v - p + self.niw] for p in range(-npp, npp)] for v in range(-npp, npp)]).transpose(2, 0, 1)
            out[ch] = self.full_vertex(ch, [expected_pv(f, self.niw, self.niv, npp) for f in self.f[ch]], cpp)
        sh = self.nq + (2 * npp, 2 * npp)
        return (1.5 * out['magn'] - 0.5 * out['dens']).reshape(sh), (0.5 * out['magn'] + 0.5 * out['dens']).reshape(sh)

    def conductivity_vertex(self):
        out = 0
        for ch, fac in (('dens', -.5), ('magn', -1.5)):
            a = [expected_opt(f, self.niw, self.niv, self.niw_vert, self.niw_cond, self.niv_vert) for f in self.f[ch]]
            c = self.chi[ch].reshape(len(self.qs), -1)[:, self.niw - self.niw_vert:self.niw + self.niw_vert + 1]
            out = out + fac * self.full_vertex(ch, a, c[..., None, None])
        return out

    def bubble(self, hr, da, db):
        va, vb = pipe.velocity(self.nk, hr, da), pipe.velocity(self.nk, hr, db)
        out = []
        for w in range(self.niw_bub + 1):
            gg = ref.fwin(self.g.full, -self.niv_bub, self.niv_bub) * ref.fwin(self.g.full, -self.niv_bub - w, self.niv_bub - w)
            out.append(-2 / self.beta * np.mean((va * vb)[..., None] * gg, axis=(0, 1, 2)).sum())
        return np.array(out)

    def vertex_part(self, hr, da, db, f):
        va, vb = pipe.velocity(self.nk, hr, da), pipe.velocity(self.nk, hr, db)
        n, g = self.niv_vert, self.g.full
        out = np.zeros(self.niw_cond + 1, complex)
        for iq, q in enumerate(self.qs):
            gq, vq = ref.kplus(g, q), ref.kplus(vb, q)
            for w in range(self.niw_cond + 1):
                a = (va * vq)[..., None] * ref.fwin(g, -n, n) * ref.fwin(g, -n - w, n - w)
                for wp in range(-self.niw_vert, self.niw_vert + 1):
                    b = ref.fwin(gq, -n - wp, n - wp) * ref.fwin(gq, -n - wp - w, n - wp - w)
                    out[w] += np.sum(np.mean(a * b, axis=(0, 1, 2)) * f[iq, wp + self.niw_vert, w])
        return -2 / self.beta ** 2 / len(self.qs) * out


def close(*a, **k):
    common.close(*a, **k)
    STAT.write('q')
    STAT.flush()


def note(ch):
    STAT.write(ch[0])
    STAT.flush()


def even(pos):
    """ w >= 0 -> full range, as a response function is continued """
    return np.concatenate((np.conj(pos[:0:-1]), pos))


def case(kw, mod, band, real_flags=()):
    hr = BANDS[band]
    kw = dict(kw)
    cfg = pipe.conf(hr=hr, **kw)
    b = cfg['box_sizes']
    data = pipe.model(max(b['niv_core'], 4) + mod.get('extra', 1), max(b['niw_core'], 2) + mod.get('extra', 1), 60, hr=hr,
                      **{k: v for k, v in mod.items() if k != 'extra'})
    out, _ = pipe.execute(cfg, {k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in data.items()}, 1)
    m = Model(cfg, data, hr, {**{c: out[f'chi_{c}_lam.npy'] for c in ('dens', 'magn')}, 'g': out['giwk_dga.npy']})
    inp = out['dmft_input.npy']
    for ch in ('dens', 'magn'):
        close(inp[f'g4iw_{ch}'], m.g2[ch], f'stored impurity data {ch}')
        if f'gamma_{ch}.npy' in out:
            close(out[f'gamma_{ch}.npy'], m.gamma[ch], f'irreducible vertex {ch}', rtol=1e-8)
            close(out[f'chi_{ch}_loc.npy'], m.chi_loc[ch], f'impurity susceptibility {ch}', rtol=1e-8)
    if 'siw_sde_full.npy' in out:
        close(out['siw_sde_full.npy'], m.siw_sde, 'impurity self-energy from the equation of motion', rtol=1e-8)
    close(np.ravel(out['lambda.txt']), [m.used['dens'], m.used['magn']], 'lambda', rtol=1e-7, atol=2e-6)
    for ch in ('dens', 'magn'):
        close(out[f'chi_{ch}_lam.npy'], m.chi[ch], f'susceptibility {ch}', rtol=1e-7)
        if m.lam[ch] is not None:
            close(m.used[ch], m.lam[ch], f'lambda {ch}', rtol=1e-3, atol=1e-4)
            a, b = (np.sum(1 / (1 / m.chi_lad[ch] + x[ch])).real / m.beta / len(m.qs) for x in (m.used, m.lam))
            close(a, b, f'sum rule {ch}', rtol=0, atol=2e-7)
            note(ch)
    close(np.ravel(out['UniformStaticSusceptibility.txt']), m.uniform, 'uniform static susceptibility', rtol=1e-6, atol=2e-6)
    close(out['siwk_dga.npy'], m.siwk, 'self-energy', rtol=1e-8)
    close(np.ravel(out['mu.txt']), [m.g.mu, data['mu_dmft']], 'chemical potential', rtol=1e-7, atol=2e-6)
    close(out['giwk_dga.npy'], m.g.full, 'Green function', rtol=1e-7)
    close(m.g.n, data['n'], 'filling', rtol=0, atol=1e-4)
    m.g.n = data['n']
    close(np.ravel(out['energies.txt']), [m.g.ekin(), m.g_dmft.ekin(), m.g.epot(), m.g_dmft.epot()], 'energies', rtol=1e-6, atol=2e-6)
    if 'vrg_q_dens.npy' in out:
        from dga import config as conf
        from mc.bench import P
        c2 = {k: dict(v) for k, v in cfg.items()}
        c2['lattice'].update(type='t_tp_tpp', hr_input=[1, 0, 0])
        irr = [tuple(q) for q in conf.DgaConfig(c2, comm=P()).lattice.q_grid.get_irrq_list()]
        ix = [ref.qlist(m.nq).index(q) for q in irr]
        for ch in ('dens', 'magn'):
            close(out[f'vrg_q_{ch}.npy'], m.vrg[ch][ix], f'three-leg vertex {ch}', rtol=1e-8)
    if 'F_dens.npy' in out:
        for ch in ('dens', 'magn'):
            want = m.full_vertex(ch, None, m.chi[ch].reshape(len(m.qs), -1)[..., None, None])
            close(out[f'F_{ch}.npy'], want.reshape(m.nq + want.shape[1:]), f'full vertex {ch}', rtol=1e-7)
    pair, opt = cfg.get('pairing', {}), cfg.get('optics', {})
    if pair.get('do_pairing_vertex'):
        fs, ft = m.pairing()
        for nm, f in (('sing', fs), ('trip', ft)):
            close(out[f'Eliashberg/F_{nm}_pp.npy'], f, f'pairing vertex {nm}', rtol=1e-7)
    if pair.get('do_eliash'):
        e = out['Eliashberg/eliashberg.npy']
        npp = fs.shape[-1] // 2
        txt = np.atleast_2d(out['Eliashberg/eigenvalues.txt'])
        for i, (nm, f, s) in enumerate((('sing', fs, 1), ('trip', ft, -1))):
            gam = -f
            gam = 0.5 * (gam + s * gam[..., ::-1])
            mat = dense(gam, ref.core(m.g.full, npp), np.prod(m.nq) * m.beta)
            ev = np.sort(np.linalg.eigvals(mat).real)
            big = np.abs(ev).max()
            lam, gap = e[f'lambda_{nm}'], e[f'delta_{nm}']
            close(lam[0].real, ev[-1], f'leading eigenvalue {nm}', rtol=0, atol=1e-4 * big)
            close(txt[i], lam.real, f'stored eigenvalues {nm}', rtol=0, atol=1e-8)
            x = np.ravel(gap[0])
            expect(np.linalg.norm(mat @ x - lam[0] * x) < 1e-2 * big * np.linalg.norm(x), f'gap function {nm} does not solve the gap equation')
    if opt.get('do_vertex') or opt.get('do_bubble'):
        da, db = opt.get('der_a', 0), opt.get('der_b', 0)
        if opt.get('do_bubble'):
            close(out['Optics/chijj_bubble.npy'], even(m.bubble(hr, da, db)), 'current bubble', rtol=1e-7)
        if opt.get('do_vertex'):
            f = m.conductivity_vertex()
            close(out['Optics/F_cond.npy'], f.reshape(m.nq + f.shape[1:]), 'vertex of the conductivity', rtol=1e-7)
            close(out['Optics/chijj_vert.npy'], even(m.vertex_part(hr, da, db, f)), 'vertex part of the current response', rtol=1e-6)


def run(ck):
    t = ck.thorough
    import dga.dga_main  # noqa: F401
    lat = [('t', 'sq', (4, 4, 1), None), ('t', 'none', (4, 4, 1), None), ('t', 'sq', (4, 4, 1), (2, 2, 1)), ('t', 'sq', (6, 6, 1), (3, 3, 1)),
           ('file', 'sq', (4, 4, 1), None), ('q1d', 'q1d', (4, 6, 1), None), ('q1d', 'q1d', (6, 4, 1), (3, 2, 1)), ('inv', 'none', (4, 4, 2), None),
           ('inv', 'none', (4, 4, 2), (4, 2, 1)), ('cplx', 'none', (4, 4, 1), None), ('cplx', 'none', (6, 4, 1), (2, 4, 1)), ('inv', 'inv', (4, 4, 1), None)]
    lat += [('cplx', 'none', (4, 6, 3), (4, 6, 1)), ('file', 'sq', (8, 8, 1), (4, 4, 1)), ('inv', 'inv', (6, 6, 1), (6, 6, 1)), ('q1d', 'none', (4, 5, 2), None)] if t else []
    boxes = [(2, 4, 0), (2, 4, 12), (-1, -1, 10), (1, 3, 10), (3, 5, 20)] + ([(5, 6, 0), (4, 8, 30), (0, 2, 5)] if t else [])
    full = dict(output={'save_vrg': True, 'save_fq': True})
    items = []
    for i, (band, sym, nk, nq) in enumerate(lat):
        for j, (niw, niv, nsh) in enumerate(boxes):
            for k, lam in enumerate(('spch', 'sp', 'none')):
                if not t and (i + j + k) % 3:
                    continue
                kw = dict(nk=nk, nq=nq, sym=sym, niw=niw, niv=niv, nsh=nsh, lam=lam, **full)
                mod = dict(asym=1e-3 if (i + j) % 2 else 0.0, seed=i % 3, extra=j % 2)
                items.append((f'run:{band},{sym},nk={nk},nq={nq or nk},box={niw},{niv},{nsh},{lam}', (kw, mod, band)))
    for i, par in enumerate((dict(u=3.0, scale=0.3), dict(u=0.6, beta=8.0, scale=0.2, niv=8), dict(n=1.0, mu=0.8), dict(n=0.3, mu=-1.5), dict(beta=1.5), dict(seed=5, scale=0.2), dict(beta=0.5),
                           dict(beta=0.1, u=4.0, scale=0.1), dict(beta=16.0, u=0.3, scale=0.05))):
        kw = dict(niw=2, niv=par.pop('niv', 4), nsh=10, lam=('spch', 'sp')[i % 2], **full)
        items.append((f'model:{par}', (kw, par, 't')))
        kw = dict(kw, dmft_input={'do_sym_v_vp': False})
        items.append((f'model:{par},unsymmetrized', (kw, dict(par, asym=1e-3), 't')))
    kw = dict(niw=2, niv=4, nsh=12, lam='spch')
    items.append(('quiet:', (dict(kw, output={'verbosity': 0}), {}, 't')))
    pair = {'do_pairing_vertex': True, 'do_eliash': True, 'eps': 1e-12}
    for band, sym, nk in (('t', 'sq', (4, 4, 1)), ('t', 'none', (4, 4, 1)), ('q1d', 'q1d', (6, 4, 1)), ('file', 'sq', (6, 6, 1))):
        for niw, niv, nsh in ((2, 4, 2), (4, 4, 0), (5, 6, 3)):
            for ks in ('random', 'd-wave', 'p-wave-x') if t or (band, niw) == ('t', 4) else ('random',):
                kw = dict(nk=nk, sym=sym, niw=niw, niv=niv, nsh=nsh, pairing=dict(pair, k_sym=ks))
                if ks != 'random':
                    kw['pairing']['do_eliash'] = False
                items.append((f'pairing:{band},{sym},{nk},{niw},{niv},{nsh},{ks}', (kw, {}, band)))
    items.append(('pairing:coarse q', (dict(nq=(2, 2, 1), niw=4, niv=4, nsh=1, pairing={'do_pairing_vertex': True}), {}, 't')))
    opts = [{}, {'der_a': 1, 'der_b': 1}, {'der_a': 0, 'der_b': 1}, {'niw_cond': 1}, {'niw_vert': 1}, {'niw_bubble': 3, 'niv_bubble': 9},
            {'niv_bubble': 60, 'niw_cond': 2}]
    for i, (band, sym, nk, nq) in enumerate(lat):
        for j, o in enumerate(opts):
            if not t and (i + j) % 4:
                continue
            kw = dict(nk=nk, nq=nq, sym=sym, niw=4, niv=5, nsh=2, optics=dict(o, do_bubble=True, do_vertex=True))
            items.append((f'optics:{band},{sym},nk={nk},nq={nq or nk},{o}', (kw, {}, band)))
    global STAT
    with tempfile.TemporaryFile('a+') as STAT:
        ck.pcases(case, items, chunk=1)
        STAT.seek(0)
        s = STAT.read()
    ck.count('quantities_compared_with_the_model', s.count('q'))
    ck.count('sum_rules', len(s) - s.count('q'))
    ck.assumptions += ['meshes with at least four points in the plane (contour plots), q-meshes that divide the k-mesh',
                       'lambda correction iterates to 1e-7 in the sum rule: susceptibilities and everything behind are compared to 1e-5']
