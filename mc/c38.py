"""C38: figures show the calculated data at the momenta and frequencies on their axes."""
import types

import numpy as np

from mc import bench, c03, pipe, simmpi
from mc import ref as ref_
from mc.common import close, det, expect, prod, scratch

LEVEL = 'exploration'
RULE = ('every kind of figure x mesh shapes (rectangular, odd, several kz) x data without any symmetry, so that every pixel is identifiable; '
        'every pixel and every point of every line is read back from the figure at the time it is saved; non-trivial: more than one momentum or frequency')


def rcparams():
    import matplotlib
    matplotlib.use('agg')


class Axes:
    """ what one panel of a figure shows """

    def __init__(self, ax):
        from matplotlib.collections import QuadMesh
        self.title, self.xlabel, self.ylabel = ax.get_title(), ax.get_xlabel(), ax.get_ylabel()
        self.lines = []
        for l in ax.get_lines():
            x, y = l.get_xdata(orig=True), l.get_ydata(orig=True)
            expect(np.asarray(x).dtype.kind in 'fiuc' and np.asarray(y).dtype.kind in 'fiuc', f'a line of text is shown in panel {self.title}: {x}, {y}')
            self.lines.append((np.asarray(x), np.asarray(y), l.get_label()))
        self.scale = ax.get_xscale(), ax.get_yscale()
        self.ticks = np.array(ax.get_xticks()), [t.get_text() for t in ax.get_xticklabels()]
        self.maps = []
        for c in ax.collections:
            if isinstance(c, QuadMesh):
                xy = np.asarray(c.get_coordinates())
                z = np.ma.filled(c.get_array(), np.nan).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
                self.maps.append((xy[0, :, 0], xy[:, 0, 1], z))
        for im in ax.get_images():
            z = np.ma.filled(im.get_array(), np.nan)
            if z.ndim == 2:
                x0, x1, y0, y1 = im.get_extent()
                if im.origin == 'upper':
                    z = z[::-1]
                    if y0 > y1:
                        y0, y1 = y1, y0
                self.maps.append((np.linspace(x0, x1, z.shape[1] + 1), np.linspace(y0, y1, z.shape[0] + 1), z))

    def at(self, x, y):
        """ value of the map at the position x, y """
        expect(len(self.maps) == 1, f'{len(self.maps)} maps in one panel')
        ex, ey, z = self.maps[0]
        expect(np.all(np.diff(ex) > 0) and np.all(np.diff(ey) > 0), 'edges of the pixels')
        out = []
        for e, v in ((ey, y), (ex, x)):
            tol = 1e-9 * max(1, abs(e[-1] - e[0]))
            expect(e[0] - tol <= v <= e[-1] + tol, f'{v} outside of the map [{e[0]},{e[-1]}]')
            # position inside of a pixel, the ends of the map belong to the first and last one
            i = int(np.clip(np.searchsorted(e, v + tol, side='right') - 1, 0, len(e) - 2))
            out.append(i)
        return z[tuple(out)]


class Figures:
    """ every saved figure by file name """

    def __init__(self):
        self.figs = {}

    def __enter__(self):
        rcparams()
        import matplotlib.figure as mfig
        import matplotlib.pyplot as plt
        plt.close('all')
        self.old, self.cls = mfig.Figure.savefig, mfig.Figure

        def save(fig, fname, *a, **k):
            import os
            name = os.path.basename(str(fname))
            sub = os.path.basename(os.path.dirname(str(fname)))
            name = f'{sub}/{name}' if sub in ('Optics', 'Eliashberg') else name
            self.figs.setdefault(name, []).append([Axes(a) for a in fig.axes])
        mfig.Figure.savefig = save
        # the layout does not change what is shown
        self.layout = mfig.Figure.tight_layout
        mfig.Figure.tight_layout = lambda *a, **k: None
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        self.cls.savefig = self.old
        self.cls.tight_layout = self.layout
        plt.close('all')

    def one(self, name):
        expect(name in self.figs, f'no figure {name}, only {sorted(self.figs)}')
        expect(len(self.figs[name]) == 1, f'figure {name} saved {len(self.figs[name])} times')
        return self.figs[name][0]


def kmap(panel, ref, what, shifted=False):
    """ panel shows ref[kx, ky]; ref is indexed by the unshifted mesh """
    nx, ny = ref.shape
    for i in range(nx):
        for j in range(ny):
            kx, ky = 2 * np.pi * i / nx, 2 * np.pi * j / ny
            if shifted:
                kx, ky = [k - 2 * np.pi if k > np.pi - 1e-9 else k for k in (kx, ky)]
            v = panel.at(kx, ky)
            expect(abs(v - ref[i, j]) <= 1e-9 * (1 + abs(ref[i, j])), f'{what}: {v} instead of {ref[i, j]} shown at momentum ({kx:.3f},{ky:.3f})')


def line(panel, i, x, y, what):
    expect(len(panel.lines) > i, f'{what}: line missing')
    close(panel.lines[i][0], x, what + ': abscissa')
    close(panel.lines[i][1], y, what + ': ordinate')


def grid(nk, sym=()):
    from dga import brillouin_zone as bz
    return bz.KGrid(tuple(nk), list(sym))


# ------------------------------------------------- single figures -------------------------------------------------

def kxky_case(nk, shifted, scatter):
    from dga import plotting
    g = grid(nk)
    m = det(nk[:2], 1)
    with Figures() as f:
        kx, ky = (g.kx_shift, g.ky_shift) if shifted else (g.kx, g.ky)
        d = g.shift_mat_by_pi(m[:, :, None], axes=(0, 1))[:, :, 0] if shifted else m
        plotting.plot_kx_ky(d, kx, ky, pdir='/nowhere', name='fig', scatter=np.array([[0.1, 0.2], [1.0, 0.5]]) if scatter else None)
    p = f.one('fig.png')
    kmap(p[0], m.real, 'real part', shifted)
    kmap(p[1], m.imag, 'imaginary part', shifted)


def gap_case(nk):
    from dga import plotting
    g = grid(nk)
    m = det(nk[:2] + (2,), 2).real
    with Figures() as f:
        plotting.plot_gap_function_kx_ky(g.shift_mat_by_pi(m[:, :, None], axes=(0, 1))[:, :, 0], g.kx_shift, g.ky_shift, pdir='/nowhere', name='fig')
    p = f.one('GapFunction_fig.png')
    # the two frequencies are those around zero, in ascending order
    for i, n in enumerate((-1, 0)):
        sel = [a for a in p[:2] if a.title == f'$\\nu_{{n={n}}}$']
        expect(len(sel) == 1, f'{len(sel)} panels for the frequency {n}')
        kmap(sel[0], m[..., i], f'frequency {n}', True)


def fourpoint_case(niw, niv, iwn, cut):
    from dga import local_four_point as lfp
    m = det((2 * niw + 1, 2 * niv, 2 * niv), 3)
    o = lfp.LocalFourPoint('dens', m, 2.0, 1.0, wn=np.arange(-niw, niw + 1), is_full_w=True)
    with Figures() as f:
        o.plot(iwn, pdir='/nowhere', name='fig', niv=cut)
    p = f.one(f'fig_wn{iwn}_niv{cut}.png')
    c = niv if cut == -1 else cut
    for q, part in ((p[0], np.real), (p[1], np.imag)):
        expect('nu' in q.ylabel and 'p' in q.xlabel, 'labels')
        for a in range(-c, c):
            for b in range(-c, c):
                ref = part(m[niw + iwn, niv + a, niv + b])
                expect(q.at(b, a) == ref, f'entry ({a},{b}) of frequency {iwn}')


def extrap_case(nk):
    from dga import plotting
    g = grid(nk)
    d = [det(nk, 5 + i).real for i in range(3)]
    with Figures() as f:
        plotting.plot_siwk_extrap(siwk_re_fs=d[0], siwk_im_fs=d[1], siwk_z=d[2], output_path='/nowhere/', name='fig', k_grid=g)
    p = f.one('fig.png')
    for q, m in zip(p, d):
        kmap(q, m[:, :, 0], q.title, True)


def cont_case(nk, kind, nw):
    """ continued functions at the three standard energies """
    from dga import analytic_continuation as ac
    g = grid(nk)
    w = np.array([-0.9, -0.35, -0.1, 0.0, 0.12, 0.4, 1.1])[:nw]
    m = det(nk + (nw,), 8)
    m = m if kind == 'fermionic' else m.real
    with scratch() as d, Figures() as f:
        getattr(ac, f'save_and_plot_cont_{kind}')(m, w, g, 'fig', d)
        close(np.load(d + 'fig_cont_fbz.npy'), m, 'stored function')
        close(np.load(d + 'w.npy'), w, 'stored mesh')
    v0 = int(np.argmin(np.abs(w)))
    for e in (0, 0.1, -0.1):
        i = int(np.argmin(np.abs(w - e)))
        p = f.one(f'fig_at_w{e}.png')
        sh = kind == 'fermionic'
        kmap(p[0], -m[:, :, 0, i].imag / np.pi, f'spectral function at {e}', sh)
        kmap(p[1], m[:, :, 0, i].real, f'real part at {e}', sh)
        kmap(p[2], (1 / m)[:, :, 0, v0].real, 'inverse', sh)


PATHS = ('Gamma-X-M2-Gamma', 'Gamma-Y-M2-Gamma', 'Gamma-X-M-Gamma', 'Gamma-X-M-Y-Gamma')


def path_case(nk, path, kind):
    from dga import brillouin_zone as bz, high_level_plotting as hlp
    p = bz.KPath(tuple(nk), path)
    w = np.array([-0.9, -0.35, -0.1, 0.05, 0.22, 0.6])
    m = 0.6 + 0.3 * det(tuple(nk) + (len(w),), 9).real
    with Figures() as f:
        if kind == 'chi':
            w = w - w[0]
            hlp.plot_chi_along_kpath(m, w, p, pdir='/nowhere/', name='fig')
        else:
            o = types.SimpleNamespace(w=w, awk=lambda: m, aw=m.mean((0, 1, 2)))
            hlp.plot_real_frequency_dispersion(o, p, pdir='/nowhere/', name='fig')
    q = f.one('fig.png')
    pts = p.kpts
    x = np.linspace(0, 1, len(pts))
    close(p.k_axis, x, 'axis')
    ref = np.array([m[tuple(k)] for k in pts])
    expect(len(ref) > 3, 'points of the path')
    shown = np.array([[q[0].at(a, b) for b in w] for a in x])
    close(shown, ref * w if kind == 'chi' else ref, 'values along the path')
    if kind == 'chi':
        line(q[0], 0, x, w[np.argmax(ref * w, axis=1)], 'position of the maxima')
    else:
        line(q[1], 0, m.mean((0, 1, 2)), w, 'local spectral function')


def lines_case(beta, sizes):
    """ one-dimensional figures: abscissa is the frequency index """
    from dga import plotting
    chis = [det((2 * n + 1,), 20 + n) + 3.0 for n in sizes]
    magn = [det((2 * n + 1,), 30 + n) + 3.0 for n in sizes]
    with Figures() as f:
        plotting.chi_checks(chis, magn, [f'l{i}' for i in range(len(sizes))], types.SimpleNamespace(beta=beta, e_kin=-0.7), '/nowhere', name='fig')
    p = f.one('chi_dens_magn_fig.png')
    for i, n in enumerate(sizes):
        x = np.arange(-n, n + 1)
        for k, data in ((0, chis), (1, magn), (2, chis), (3, magn)):
            line(p[k], i, x, data[i].real, f'panel {k}')
            expect(p[k].lines[i][2] == f'l{i}', 'label')
    siws = [det((2 * n,), 40 + n) - 1.0j for n in sizes if n]
    with Figures() as f:
        plotting.sigma_loc_checks(siws, [f'l{i}' for i in range(len(siws))], beta, '/nowhere', name='fig')
    p = f.one('sde_fig_check.png')
    for i, s in enumerate(siws):
        n = len(s) // 2
        for k, d in enumerate((s.real, s.imag, s.real, np.abs(s.imag))):
            line(p[k], i, np.arange(-n, n), d, f'panel {k}')
            expect(p[k].lines[i][2] == f'l{i}', 'label')


def optics_case(nb, nv, nr):
    from dga import optics
    b, v = det((2 * nb + 1,), 50), det((2 * nv + 1,), 51)
    with Figures() as f:
        optics.plot_opt_cond_matsubara(b, v, do_save=True, pdir='/nowhere/')
    p = f.one('optical_conductivity_matsubara.png')[0]
    full = np.array(b if nb >= nv else v).copy()
    lo, off = (v, nb - nv) if nb >= nv else (b, nv - nb)
    full[off:len(full) - off] += lo
    for i, (lab, d) in enumerate((('bubble', b), ('vertex', v), ('full', full))):
        n = len(d) // 2
        line(p, i, np.arange(-n, n + 1), d.real, lab)
        expect(p.lines[i][2] == lab, 'label')
    w, s0, s1 = np.linspace(0, 3, nr), det((nr,), 52), det((nr,), 53)
    with Figures() as f:
        optics.plot_opt_cond_realf(w, s0, s1, do_save=True, pdir='/nowhere/')
    p = f.one('optical_conductivity_realf.png')
    line(p[0], 0, w, s0.real, 'bubble')
    line(p[0], 1, w, s1.real, 'full')
    line(p[1], 0, w, (s1 - s0).real, 'vertex')
    from dga import high_level_plotting as hlp
    with Figures() as f:
        hlp.plot_opt_cond(s0, w, pdir='/nowhere/', name='fig')
    line(f.one('fig.png')[0], 0, w, s0.real, 'conductivity')


def oz_case(nk):
    from dga import plotting
    g = grid(nk)
    m = det(nk, 60)
    with Figures() as f:
        plotting.plot_oz_fit(chi_w0=m, oz_coeff=[1.3, 0.8], qgrid=g, pdir='/nowhere/', name='fig')
    p = f.one('fig.png')
    k = [2 * np.pi * np.arange(n) / n for n in nk]
    oz = 1.3 / (0.8 ** -2 + (k[0][:, None, None] - np.pi) ** 2 + (k[1][None, :, None] - np.pi) ** 2 + k[2][None, None, :] ** 2)
    for i, d in enumerate((m.real, oz)):
        line(p[0], i, k[0], d[:, nk[1] // 2, 0], 'along kx')
        line(p[1], i, k[1], d[nk[0] // 2, :, 0], 'along ky')
    if nk[0] == nk[1] and nk[2] == 1:
        close(p[2].lines[0][1], np.diagonal(m[..., 0]).real, 'along the diagonal')
        close(p[2].lines[1][1], np.diagonal(oz[..., 0]), 'fit along the diagonal')


def along_case(n, niv, lo, hi, step, ikz):
    from dga import plotting
    m = det((3, 4, 2, 2 * niv), 70)
    ind = np.array([[0, 0], [1, 2], [2, 3], [0, 1]])[:n]
    with Figures() as f:
        plotting.plot_along_ind(m, ind, step_size=step, niv_plot_min=lo, niv_plot=hi, name='Sigma', pdir='/nowhere', ikz=ikz)
    p = f.one('Sigma_along_Fermi_surface.png')
    h = niv if hi == -1 else hi
    v = np.array([x for x in range(-niv, niv) if lo <= x <= h])
    for i, k in enumerate(ind[::step]):
        d = m[k[0], k[1], ikz, v + niv]
        line(p[0], i, v, d.real, 'real part')
        line(p[1], i, v, d.imag, 'imaginary part')


def local_case(nw):
    from dga import plotting
    w = np.linspace(-2, 3, nw)
    g = det((nw,), 80) - 2j
    with Figures() as f:
        plotting.plot_aw_loc(v_real=w, gloc=g, output_path='/nowhere/', name='fig')
        plotting.plot_bw_fit(bw_opt=0.3, bw=w + 3, chi2=np.abs(g), fits=[np.abs(g) + 1, np.abs(g) + 2], output_path='/nowhere/', name='bw')
    line(f.one('fig.png')[0], 0, w, -g.imag / np.pi, 'local spectral function')
    p = f.one('bw.png')[0]
    for i in range(3):
        line(p, i, w + 3, np.abs(g) + i, f'curve {i}')


# --------------------------------------------- figures made by a run ----------------------------------------------

def driver_case(nk, sym, niw, niv, rank):
    """ momentum maps written by the main programme, for generic functions on the full mesh """
    from dga import dga_io, two_point as twop
    from dga import brillouin_zone as bz
    with scratch() as d, Figures() as f:
        cfg = bench.make_cfg(nk, sym, niw, niv, out=d, comm=bench.P(rank, 2), poly_fitting={'n_fit': 3, 'o_fit': 2})
        cfg.poly_fit_dir = d
        cfg.verbosity = 1
        dens, magn = det(tuple(nk) + (2 * niw + 1,), 90), det(tuple(nk) + (2 * niw + 1,), 91)
        nv = cfg.box.niv_full
        s = det(tuple(nk) + (2 * nv,), 92)
        s[..., :nv] = s[..., nv:][..., ::-1].conj()
        s = s.real * 0.1 + 1j * (-np.abs(s.imag) * np.sign(np.arange(-nv, nv) + 0.5))
        sig = twop.SelfEnergy(s, cfg.sys.beta)
        ek = cfg.lattice.hr.get_ek(cfg.lattice.k_grid)
        g = twop.GreensFunction(sig, ek, mu=0.2, niv_asympt=cfg.box.niv_asympt)
        loc = twop.SelfEnergy(s[:1, :1, :1], cfg.sys.beta)
        dga_io.chiq_checks(cfg, dens.mean((0, 1, 2)), magn.mean((0, 1, 2)), dens, magn, types.SimpleNamespace(beta=2.0, e_kin=-1.0))
        dga_io.default_siwk_checks(cfg, sig, s[0, 0, 0], loc)
        zero, bz.find_zeros = bz.find_zeros, lambda m: np.array([[0, 1], [1, 0], [0, 0], [1, 1]])
        try:
            dga_io.default_giwk_checks(cfg, g, sig)
        finally:
            bz.find_zeros = zero
        dga_io.dga_poly_fit(cfg, sig, g)
        dga_io.dmft_poly_fit(g, cfg)
        if rank:
            expect(not f.figs, f'figures of another process: {sorted(f.figs)}')
            return
        fit = {n: np.load(d + n + '.npy', allow_pickle=True).item() for n in ('Siwk_poly_cont_', 'Giwk_dga_poly_cont_', 'Giwk_dmft_poly_cont_')}
    for n, m in (('dens', dens), ('magn', magn)):
        p = f.one(f'Chi_ladder_{n}_kz0.png')
        kmap(p[0], m[:, :, 0, niw].real, f'susceptibility {n}')
        kmap(p[1], m[:, :, 0, niw].imag, f'susceptibility {n}')
    p = f.one('chi_dens_magn_lad_q_tilde.png')
    for k, m in ((0, dens), (1, magn)):
        for i in (0, 1):
            line(p[k], i, np.arange(-niw, niw + 1), m.mean((0, 1, 2)).real, 'local susceptibility')
    p = f.one('Siwk_dga_kz0.png')
    kmap(p[0], s[:, :, 0, nv].real, 'self-energy', True)
    kmap(p[1], s[:, :, 0, nv].imag, 'self-energy', True)
    for n in ('dga_loc', 'dga_loc_core'):
        p = f.one(f'sde_{n}_check.png')
        ref = [s[0, 0, 0], s.mean((0, 1, 2)), s.mean((0, 1, 2)), s[0, 0, 0]]
        for i, r in enumerate(ref):
            line(p[1], i, np.arange(-nv, nv), r.imag, f'local self-energy {i}')
    v = np.pi / cfg.sys.beta * (2 * np.arange(-nv, nv) + 1)
    gk = 1 / (1j * v + 0.2 - ek[..., None] - s)
    p = f.one('Giwk_dga_kz0.png')
    kmap(p[0], gk[:, :, 0, nv].real, 'Green function', True)
    kmap(p[1], gk[:, :, 0, nv].imag, 'Green function', True)
    p = f.one('Sigma_{dga}_along_Fermi_surface.png')
    for i, k in enumerate(((0, 1), (1, 0))):
        x = np.array([n for n in range(-nv, nv) if 0 <= n <= 20])
        line(p[0], i, x, s[k[0], k[1], 0, x + nv].real, 'self-energy along the Fermi surface')
        line(p[1], i, x, s[k[0], k[1], 0, x + nv].imag, 'self-energy along the Fermi surface')
    # extrapolations: quadratic fit through the first three frequencies, class representatives decide
    kg = cfg.lattice.k_grid
    flat = np.asarray(kg.fbz2irrk).reshape(nk)
    for n, m in (('Siwk_poly_cont_', s), ('Giwk_dga_poly_cont_', gk), ('Giwk_dmft_poly_cont_', gk)):
        y = m.reshape(-1, 2 * nv)[flat.ravel()][:, nv:nv + 3]
        a = np.linalg.inv(np.vander(v[nv:nv + 3], 3, increasing=True))[0]
        re, im = (y.real @ a).reshape(nk), -(y.imag @ a).reshape(nk)
        close(np.reshape(fit[n]['re_fs'], nk), re, f'{n}: stored real part', rtol=1e-6, atol=1e-8)
        close(np.reshape(fit[n]['im_fs'], nk), im, f'{n}: stored imaginary part', rtol=1e-6, atol=1e-8)
        p = f.one(n + '.png')
        kmap2(p[0], re[:, :, 0], n)
        kmap2(p[1], im[:, :, 0], n)


def kmap2(panel, ref, what):
    """ as kmap for fitted values """
    nx, ny = ref.shape
    for i in range(nx):
        for j in range(ny):
            k = [2 * np.pi * a / b for a, b in ((i, nx), (j, ny))]
            k = [q - 2 * np.pi if q > np.pi - 1e-9 else q for q in k]
            expect(abs(panel.at(*k) - ref[i, j]) < 1e-6 * (1 + abs(ref).max()), f'{what}: shown at momentum {k}')


def fmap(panels, ref, what):
    """ map over both fermionic frequencies """
    n = len(ref) // 2
    for q, part in zip(panels, (np.real, np.imag)):
        expect('nu' in q.ylabel and 'p' in q.xlabel, 'labels')
        for a in range(-n, n):
            for b in range(-n, n):
                v, r = q.at(b, a), part(ref[n + a, n + b])
                expect(abs(v - r) <= 1e-9 * (1 + abs(r)), f'{what}: {v} instead of {r} shown at the frequencies ({a},{b})')


def program_case(kw, n):
    """ every figure of the complete main programme against the stored arrays """
    cfg = pipe.conf(**kw)
    niw, niv, nsh = (cfg['box_sizes'][x] for x in ('niw_core', 'niv_core', 'niv_shell'))
    beta, u = 4.0, 1.6
    data = pipe.model(niv + 1, niw + 1, 60, beta=beta, u=u)
    nk = tuple(cfg['lattice']['nk'])
    nq = tuple(cfg['lattice'].get('nq', nk))
    with scratch() as d:
        d += 'in/'
        pipe.prepare(d, cfg, data)
        with pipe.environment(d), Figures() as f:
            w = simmpi.World(n, rr=n > 1)
            pipe.WORLD.comms = simmpi.SimComm.create(w, n)
            try:
                w.run([pipe.program(d) for _ in range(n)])
            finally:
                pipe.WORLD.comms = None
        out = pipe.collect(d)[0]
    ek = pipe.band(nk, pipe.HR)[..., None]
    known = set()

    def fig(name):
        known.add(name)
        return f.one(name)

    def kpair(name, ref, shifted=False):
        p = fig(name)
        kmap(p[0], ref.real, name, shifted)
        kmap(p[1], ref.imag, name, shifted)

    def wline(p, i, y, what):
        h = len(y) // 2
        line(p, i, np.arange(-h, len(y) - h), y, what)
    # local vertices
    g4 = {c: data[f'g4iw_{c}'] for c in ('dens', 'magn')}
    o = len(g4['dens']) // 2
    top = min(10, niw)
    for ch, ws in (('dens', (0,)), ('magn', (0, top, -top))):
        for i in ws:
            fmap(fig(f'G2_{ch}_wn{i}_niv-1.png'), cut(g4[ch][o + i], niv), f'two-particle Green function {ch} at {i}')
    fmap(fig('Gchi_magn_wn0_niv-1.png'), beta * cut(g4['magn'][o], niv), 'generalised susceptibility')
    p = fig('Gchi_dens_wn0_niv-1.png')
    x = p[0].maps[0][2] + 1j * p[1].maps[0][2]
    r = beta * cut(g4['dens'][o], niv) - x
    sv = np.linalg.svd(r, compute_uv=False)
    expect(sv[1] < 1e-8 * sv[0], 'the density channel differs by more than the product of two Green functions')
    hs = len(data['siw']) // 2
    gl = (1 / (1j * ref_.nu(beta, np.arange(-hs, hs)) + data['mu_dmft'] - ek - data['siw'])).mean((0, 1, 2))
    close(r, 2 * beta * np.outer(cutv(gl, niv), cutv(gl, niv)), 'disconnected part', rtol=1e-6)
    c = min(niv, 2 * int(beta))
    for ch, ws in (('dens', (0, top)), ('magn', (0, top, -top))):
        for i in ws:
            fmap(fig(f'Gamma_{ch}_wn{i}_niv{c}.png'), cut(out[f'gamma_{ch}.npy'][niw + i], c), f'irreducible vertex {ch} at {i}')
    p = fig('F_dc_wn0_niv-1.png')
    fdc = ref_F(out['gamma_magn.npy'][niw], p, niv)
    # local quantities
    p = fig('chi_dens_magn_loc.png')
    for i, ch in enumerate(('dens', 'magn')):
        wline(p[i], 0, out[f'chi_{ch}_loc.npy'].real, f'local susceptibility {ch}')
        wline(p[i + 2], 0, out[f'chi_{ch}_loc.npy'].real, f'local susceptibility {ch}')
    p = fig('sde__check.png')
    h = len(data['siw']) // 2
    for i, y in enumerate((out['siw_sde_full.npy'], data['siw'])):
        wline(p[0], i, y.real, 'local self-energy')
        wline(p[1], i, y.imag, 'local self-energy')
    # susceptibilities
    for ch in ('dens', 'magn'):
        kpair(f'Chi_lam_{ch}_kz0.png', out[f'chi_{ch}_lam.npy'][:, :, 0, niw])
        known.add(f'Chi_ladder_{ch}_kz0.png')
    expect('chi_dens_magn_lad_q_tilde.png' in f.figs, 'figure of the local susceptibilities')
    known.add('chi_dens_magn_lad_q_tilde.png')
    p = f.figs['chi_dens_magn_lad_q_tilde.png'][-1]
    for i, ch in enumerate(('dens', 'magn')):
        wline(p[i], 0, out[f'chi_{ch}_loc.npy'].real, f'local susceptibility {ch}')
        wline(p[i], 1, out[f'chi_{ch}_lam.npy'].mean((0, 1, 2)).real, f'ladder susceptibility {ch}')
    chi = out['chi_magn_lam.npy'][..., niw].real
    p = fig('oz_fit.png')
    line(p[0], 0, 2 * np.pi * np.arange(nq[0]) / nq[0], chi[:, nq[1] // 2, 0], 'susceptibility along qx')
    line(p[1], 0, 2 * np.pi * np.arange(nq[1]) / nq[1], chi[nq[0] // 2, :, 0], 'susceptibility along qy')
    # self-energy, Green function
    s, gk = out['siwk_dga.npy'], out['giwk_dga.npy']
    nf = s.shape[-1] // 2
    expect(nf == niv + nsh, 'stored frequencies')
    kpair('Siwk_dga_kz0.png', s[:, :, 0, nf], True)
    kpair('Giwk_dga_kz0.png', gk[:, :, 0, gk.shape[-1] // 2], True)
    for name in ('dga_loc', 'dga_loc_core'):
        p = fig(f'sde_{name}_check.png')
        wline(p[0], 1, s.mean((0, 1, 2)).real, 'local part of the self-energy')
        wline(p[1], 1, s.mean((0, 1, 2)).imag, 'local part of the self-energy')
        wline(p[1], 3, data['siw'][h - nf:h + nf].imag, 'input')
    if 'Sigma_{dga}_along_Fermi_surface.png' in f.figs:
        p = fig('Sigma_{dga}_along_Fermi_surface.png')
        x = np.array([a for a in range(-nf, nf) if 0 <= a <= 20])
        quarter = s[:nk[0] // 2, :nk[1] // 2, 0].reshape(-1, 2 * nf)[:, nf + x]
        for i in range(len(p[0].lines)):
            expect(np.all(p[0].lines[i][0] == x), 'frequencies along the Fermi surface')
            y = p[0].lines[i][1] + 1j * p[1].lines[i][1]
            expect(np.abs(quarter - y).max(axis=1).min() < 1e-9, 'line along the Fermi surface is no self-energy of the first quadrant')
    for name in ('Siwk_poly_cont_', 'Giwk_dga_poly_cont_', 'Giwk_dmft_poly_cont_'):
        if f'PolyFits/{name}.npy' in out:
            p = fig(name + '.png')
            for q, m in zip(p, ('re_fs', 'im_fs', 'Z')):
                kmap2(q, np.reshape(out[f'PolyFits/{name}.npy'][m], nk)[:, :, 0], name)
    # vertices
    for ch in ('dens', 'magn'):
        if f'F_{ch}.npy' in out:
            a = out[f'F_{ch}.npy']
            kpair(f'F_{ch}_niw0.png', a[:, :, 0, niw, niv, niv])
    if 'Optics/F_cond.npy' in out:
        a = out['Optics/F_cond.npy']
        kpair('Optics/F_cond_niw0.png', a[:, :, 0, a.shape[3] // 2, 0, a.shape[-1] // 2])
        known.update(f'Optics/F_{ch}_niw0.png' for ch in ('dens', 'magn'))
        p = {ch: fig(f'Optics/F_{ch}_niw0.png') for ch in ('dens', 'magn')}
        for i, part in enumerate((np.real, np.imag)):
            zd, zm = p['dens'][i].maps[0][2], p['magn'][i].maps[0][2]
            close(-0.5 * zd - 1.5 * zm, part(a[:, :, 0, a.shape[3] // 2, 0, a.shape[-1] // 2]).T, 'vertices of the conductivity', rtol=1e-9)
    for ch in ('sing', 'trip'):
        if f'Eliashberg/F_{ch}_pp.npy' in out:
            a = out[f'Eliashberg/F_{ch}_pp.npy']
            npp = a.shape[-1] // 2
            kpair(f'Eliashberg/F_{ch}_pp.png', a[:, :, 0, npp, npp])
            fmap(fig(f'Eliashberg/F_{ch}_pp_loc.png'), a.mean((0, 1, 2)), f'local pairing vertex {ch}')
        if 'Eliashberg/eliashberg.npy' in out:
            known.add(f'Eliashberg/Gamma_{ch}_pp_loc.png')
            for i, gap in enumerate(out['Eliashberg/eliashberg.npy'][f'delta_{ch}']):
                p = fig(f'Eliashberg/GapFunction_{ch}_{i}.png')
                npp = gap.shape[-1] // 2
                for k in (-1, 0):
                    kmap(one_title(p, k), gap[:, :, 0, npp + k].real, f'gap function {ch} {i} at the frequency {k}', True)
    if 'Optics/chijj_bubble.npy' in out and 'Optics/chijj_vert.npy' in out:
        b, v = out['Optics/chijj_bubble.npy'], out['Optics/chijj_vert.npy']
        p = fig('Optics/optical_conductivity_matsubara.png')[0]
        for i, y in enumerate((b, v)):
            wline(p, i, y.real, 'conductivity')
        m = min(len(b), len(v)) // 2
        close(p.lines[2][1][len(p.lines[2][1]) // 2 - m:][:2 * m + 1], (b[len(b) // 2 - m:][:2 * m + 1] + v[len(v) // 2 - m:][:2 * m + 1]).real, 'full conductivity')


def one_title(p, n):
    sel = [a for a in p[:2] if a.title == f'$\\nu_{{n={n}}}$']
    expect(len(sel) == 1, f'{len(sel)} panels for the frequency {n}')
    return sel[0]


def cutv(g, n):
    h = len(g) // 2
    return g[h - n:h + n]


def cut(m, n):
    h = len(m) // 2
    return m[h - n:h + n, h - n:h + n]


def ref_F(gamma, panels, niv):
    """ the full vertex inside of the figure: real parts are symmetric in both frequencies """
    for q in panels[:2]:
        ex, _, z = q.maps[0]
        n = len(z) // 2
        expect(n >= niv and z.shape == (2 * n, 2 * n), 'frequencies of the vertex')
        close(z, z.T, 'symmetry of the vertex', rtol=1e-6, atol=1e-9)
    return z


def run(ck):
    th = ck.thorough
    even = ((4, 4, 1), (4, 6, 1), (6, 4, 2), (2, 8, 1)) + (((8, 4, 4), (10, 6, 1)) if th else ())
    allnk = even + ((3, 5, 1), (4, 3, 2), (5, 4, 1), (7, 2, 1))
    for nk, sc in prod(allnk, (False, True)):
        ck.case(f'kxky:{nk},{sc}', kxky_case, nk, False, sc)
    for nk, sc in prod(even, (False, True)):
        ck.case(f'kxky:shifted,{nk},{sc}', kxky_case, nk, True, sc)
    for nk in even:
        ck.case(f'gap:{nk}', gap_case, nk)
        ck.case(f'extrapolation:{nk}', extrap_case, nk)
    ck.pcases(fourpoint_case, [(f'vertex:{niw},{niv},{iwn},{cut}', (niw, niv, iwn, cut)) for niw, niv in prod((0, 1, 2), (1, 2, 4))
                               for iwn, cut in prod(range(-niw, niw + 1), [-1] + list(range(1, niv + 1)))])
    ck.pcases(cont_case, [(f'continued:{nk},{k},{n}', (nk, k, n)) for nk, k, n in prod(even, ('fermionic',), (4, 5, 7))] +
              [(f'continued:{nk},{k},{n}', (nk, k, n)) for nk, k, n in prod(allnk, ('bosonic',), (4, 5, 7))])
    ck.pcases(path_case, [(f'path:{nk},{p},{k}', (nk, p, k)) for nk, p, k in prod(((4, 4, 1), (8, 8, 1), (4, 6, 1), (8, 4, 2)), PATHS, ('chi', 'spectrum'))])
    for b, s in prod((1.0, 5.0), ((0,), (1, 3), (4, 2, 2), (3, 0, 5, 1))):
        ck.case(f'lines:{b},{s}', lines_case, b, s, trivial=(s == (0,)))
    for a, b, r in prod((0, 1, 3), (0, 1, 3), (2, 5)):
        ck.case(f'conductivity:{a},{b},{r}', optics_case, a, b, r)
    for nk in allnk:
        ck.case(f'correlation:{nk}', oz_case, nk)
    ck.pcases(along_case, [(f'along:{n},{niv},{lo},{hi},{st},{z}', (n, niv, lo, hi, st, z))
                           for n, niv, lo, hi, st, z in prod((1, 2, 4), (2, 5), (0, -2, 1), (-1, 1, 3), (1, 2), (0, 1))])
    for n in (2, 5, 9):
        ck.case(f'local:{n}', local_case, n)
    ck.pcases(driver_case, [(f'run:{nk},{s},{a},{b},rank={r}', (nk, s, a, b, r)) for nk, s, (a, b), r in
                            prod(((4, 4, 1), (4, 6, 1), (6, 4, 2)), ('none', 'sq', 'q1d', 'inv'), ((1, 4), (2, 6)), (0, 1)) if s != 'sq' or nk[0] == nk[1]])
    kws = [('full', dict(niw=4, niv=6, nsh=5, **c03.FULL)), ('rectangle', dict(nk=(4, 6, 1), sym='q1d', niw=4, niv=6, nsh=5, **c03.FULL)),
           ('nosym', dict(nk=(6, 4, 1), sym='none', niw=2, niv=4, nsh=3)), ('coarse', dict(nk=(6, 6, 1), nq=(2, 2, 1), niw=3, niv=5, nsh=2, lam='sp')),
           ('layers', dict(nk=(4, 4, 2), sym='none', niw=1, niv=4, nsh=2, output={'save_fq': True}, poly_fitting={'n_fit': 3, 'o_fit': 2}))]
    ck.pcases(program_case, [(f'programme:{name},{n}', (kw, n)) for (name, kw), n in prod(kws, (1, 2))])
