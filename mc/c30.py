"""C30: the current-current response is the stated sum of velocity vertices, Green functions and ladder vertex."""
import numpy as np

from mc import bench
from mc.c05 import expand, write, expected_opt
from mc.common import close, det, expect, raises, scratch, same, tagged

LEVEL = 'exploration'
RULE = ('bands x meshes x current directions x frequency ranges x selections of transferred momenta with generic Green functions and vertices '
        'against brute-force sums; real axis against the spectral representation; non-trivial: more than one momentum')


def kpts(nk):
    return [(i, j, l) for i in range(nk[0]) for j in range(nk[1]) for l in range(nk[2])]


def gobj(nk, niv, beta, seed, hr, nsig):
    """ real Green function object with momentum- and frequency-dependent self-energy """
    from dga import two_point as twop
    from dga import brillouin_zone as bz
    from dga import wannier
    g = bz.KGrid(nk, symmetries=[])
    h = wannier.WannierHr(*hr)
    v = np.arange(-nsig, nsig) + 0.5
    s = 0.3 * det(tuple(nk) + (2 * nsig,), seed)
    s = s + np.conj(s[..., ::-1]) - 0.4j * np.sign(v)
    sig = twop.SelfEnergy(s, beta, smom0=0.1, smom1=0.8, niv_core=nsig)
    return g, h, twop.GreensFunction(sig, h.get_ek(g), mu=0.15, niv_asympt=niv)


def bands():
    from dga import wannier
    out = {'t': wannier.wannier_one_band_2d_t_tp_tpp(1.0, -0.2, 0.1)}
    # generic band without inversion symmetry: complex hoppings with their conjugates
    r = np.array([[0, 0, 0], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [1, 1, 0], [-1, -1, 0], [1, 0, 1], [-1, 0, -1]])
    a = np.array([0.2, 1 + .3j, 1 - .3j, .7 - .2j, .7 + .2j, .25 + .4j, .25 - .4j, .1 + .2j, .1 - .2j])
    out['gen'] = (a[:, None, None].astype(complex), r[:, None, None, :].astype(float), np.ones((len(r), 1)), np.ones((len(r), 1, 1, 2)))
    return out


def velocity(hr, nk, der):
    out = np.zeros(nk)
    for k in kpts(nk):
        for a, r in zip(hr[0][:, 0, 0], hr[1][:, 0, 0]):
            out[k] += (1j * r[der] * a * np.exp(2j * np.pi * sum(r[c] * k[c] / nk[c] for c in range(3)))).real
    return out


def bubble(band, nk, da, db, niw, nsum, note, seed, sel):
    from dga import optics
    beta = 3.1
    hr = bands()[band]
    grid, h, g = gobj(nk, nsum + 2 * niw + 3, beta, seed, hr, nsum + 2 * niw + 3)
    wn = np.arange(-niw, niw + 1) if sel is None else np.array(sel)
    got = optics.vec_get_chijj_bubble(g, h, grid, wn, nsum, der_a=da, der_b=db, freq_notation=note)
    gk = np.asarray(g.g_full())
    c = gk.shape[-1] // 2
    va, vb = velocity(hr, nk, da), velocity(hr, nk, db)
    want = np.zeros(len(wn), complex)
    for i, w in enumerate(wn):
        # frequencies (v+s1, v+s2) of the notation
        s1, s2 = {'minus': (0, -w), 'plus': (0, w), 'center': (w // 2, -(w // 2 + w % 2))}[note]
        for k in kpts(nk):
            for v in range(-nsum, nsum):
                want[i] += va[k] * vb[k] * gk[k + (c + v + s1,)] * gk[k + (c + v + s2,)]
    close(got, -2 / beta * want / np.prod(nk), 'current bubble')


def vertex(band, nk, da, db, nwv, nwc, nv, qsel, seed):
    from dga import optics
    beta = 2.3
    hr = bands()[band]
    npad = nv + nwv + nwc
    grid, h, g = gobj(nk, npad + 2, beta, seed, hr, npad + 2)
    qs = np.array(kpts(nk))[qsel]
    f = det((len(qs), 2 * nwv + 1, nwc + 1, 2 * nv), seed)
    keep = f.copy()
    wv, wc = np.arange(-nwv, nwv + 1), np.arange(nwc + 1)
    got = optics.vec_get_chijj_vert(f, g, h, grid, wn_vert=wv, wn_cond=wc, q_list=qs, der_a=da, der_b=db)
    same(f, keep, 'vertex stays unmodified')
    gk = np.asarray(g.g_full())
    c = gk.shape[-1] // 2
    va, vb = velocity(hr, nk, da), velocity(hr, nk, db)
    want = np.zeros(nwc + 1, complex)
    for w in wc:
        for iq, q in enumerate(qs):
            for k in kpts(nk):
                p = tuple((k[i] + q[i]) % nk[i] for i in range(3))
                for v in range(-nv, nv):
                    x = va[k] * vb[p] * gk[k + (c + v - w,)] * gk[k + (c + v,)]
                    for j, wp in enumerate(wv):
                        want[w] += x * gk[p + (c + v - wp,)] * gk[p + (c + v - wp - w,)] * f[iq, j, w, v + nv]
    n = np.prod(nk)
    close(got, -2 / (beta ** 2 * n) * want / n, 'vertex contribution')
    expect(raises(lambda: optics.vec_get_chijj_vert(f, g, h, grid, wn_vert=wv[:-1], wn_cond=wc, q_list=qs), AssertionError), 'bosonic sizes not compared')
    expect(raises(lambda: optics.vec_get_chijj_vert(f, g, h, grid, wn_vert=wv, wn_cond=wc[:-1], q_list=qs), AssertionError), 'bosonic sizes not compared')


def fcond(nk, sym, niw, niv, size, opt, seed):
    from dga import optics
    with scratch() as d:
        u, beta = 1.2 + 0.3 * seed, 2.9
        cfg = bench.make_cfg(nk, sym, niw, niv, out=d, u=u, beta=beta, optics=opt)
        cfg.optics.set_frequency_ranges(cfg)
        o = cfg.optics
        g = cfg.lattice.q_grid
        nq = g.nk_irr
        data, x0 = bench.ladder_data(nq, niw, niv, seed)
        write(('opt',), cfg, size, range(size), data, x0, ('dens', 'magn'))
        chi = {ch: expand(det((nq, 2 * niw + 1), seed + i), g) for i, ch in enumerate(('dens', 'magn'))}
        optics.build_vertex_for_optical_conductivity(cfg, bench.P(0, size), chi['magn'], chi['dens'])
        want = 0
        for ch, s, fac in (('dens', 1, -0.5), ('magn', -1, -1.5)):
            f1, f2 = (expand(expected_opt(f, niw, niv, o.niw_vert, o.niw_cond, o.niv_vert), g) for f in bench.components(*data[ch], x0, beta, u, ch))
            cw = chi[ch][..., niw - o.niw_vert:niw + o.niw_vert + 1]
            want = want + fac * (f1 + (1 - s * u * cw)[..., None, None] * f2)
        close(o.load_data('F_cond'), want, 'vertex of the conductivity')


def vslice(niv, new, wn):
    from dga import optics
    m = tagged((2 * niv, 2 * niv))
    got = optics.get_vmw_v_slice(m, np.array(wn), new)
    want = np.array([[m[v + niv, v - w + niv] for v in range(-new, new)] for w in wn])
    same(got, want, 'F(v,v-w)')


def realf(nk, nw, wmax, wb, da, beta, seed):
    """ against the explicit integral on the same mesh """
    from dga import optics, wannier
    from dga import brillouin_zone as bz
    hr = bands()['gen']
    grid = bz.KGrid(nk, symmetries=[])
    h = wannier.WannierHr(*hr)
    w = np.linspace(-wmax, wmax, nw)
    ek = np.asarray(h.get_ek(grid)).real

    class G:
        pass
    g = G()
    g.w = w
    gwk = 1 / (w + 0.1 - ek[..., None] + 1j * (0.3 + 0.1 * w ** 2 / (1 + w ** 2)))
    g.gwk = lambda: gwk
    g.awk = lambda: -gwk.imag / np.pi
    chi, wbub = optics.vec_get_chijj_bubble_realf(g, h, grid, beta, wb, der_a=da, der_b=0)
    zero = np.argmin(np.abs(w))
    ib = np.argmin(np.abs(w - wb))
    expect(len(chi) == len(wbub) == ib - zero - 1, 'frequencies of the bubble')
    close(wbub, w[zero + 1:ib], 'frequency mesh', rtol=0, atol=0)
    va, vb = velocity(hr, nk, da), velocity(hr, nk, 0)
    half = nw - ib                      # points between the largest bubble frequency and the end of the mesh
    lo, hi = zero - half + nw % 2, zero + half
    dw = w[1] - w[0]
    for i in range(1, len(chi) + 1):
        tot = 0
        for k in kpts(nk):
            y = np.array([1 / (np.exp(beta * w[v]) + 1) * (-gwk[k + (v,)].imag / np.pi) * (gwk[k + (v + i,)] + np.conj(gwk[k + (v - i,)])) for v in range(lo, hi)])
            tot += va[k] * vb[k] * np.sum(0.5 * (y[1:] + y[:-1])) * dw
        close(chi[i - 1], -2 * tot / np.prod(nk), f'real-frequency bubble {i}', rtol=1e-8)


def drude(beta, gamma, nw):
    """ exact optical conductivity of one level with Lorentzian spectral function: positive, even, interpolates to omega -> 0 """
    from dga import optics
    w = np.linspace(0.01, 4, nw)
    s = gamma / (w ** 2 + gamma ** 2)
    chi = 1j * w * s + 0.3
    got, wn = optics.get_sigma_from_chijj_realf(chi, w)
    expect(wn[0] == 0 and np.array_equal(wn[1:], w), 'frequencies')
    close(got[1:], s, 'conductivity', rtol=1e-8)
    close(got[0], 1 / gamma, 'static conductivity', rtol=1e-2)


def run(ck):
    t = ck.thorough
    meshes = [(2, 2, 1), (3, 2, 1), (4, 3, 1), (3, 3, 2)] + ([(5, 4, 1), (4, 4, 2)] if t else [])
    items = []
    for band in ('t', 'gen'):
        for nk in meshes:
            for da, db in ((0, 0), (0, 1), (1, 1), (1, 0)) + (((0, 2), (2, 2)) if nk[2] > 1 else ()):
                for niw, ns in ((1, 2), (2, 3), (4, 2)):
                    for note in ('minus', 'plus', 'center'):
                        for sel in (None, range(niw + 1), (niw, 0)):
                            if sel is not None and (note != 'minus' or (da, db) != (0, 1)):
                                continue
                            items.append((f'bubble:{band},{nk},{da}{db},w{niw},v{ns},{note},{sel}', (band, nk, da, db, niw, ns, note, niw + ns, sel)))
    ck.pcases(bubble, items)
    items = []
    for band in ('t', 'gen'):
        for nk in meshes[:3] if not t else meshes[:5]:
            n = int(np.prod(nk))
            for da, db in ((0, 0), (0, 1), (1, 0)):
                for nwv, nwc, nv in ((1, 1, 1), (1, 2, 2), (2, 1, 3), (2, 0, 2), (0, 2, 2)):
                    for qsel in (list(range(n)), list(range(n // 2)), list(range(n // 2, n)), [n - 1], [1, 3]):
                        if len(qsel) < n and (da, db) != (0, 1):
                            continue
                        items.append((f'vertex:{band},{nk},{da}{db},{nwv},{nwc},{nv},{qsel[0]}-{qsel[-1]}#{len(qsel)}', (band, nk, da, db, nwv, nwc, nv, qsel, nwv + 3 * nwc)))
    ck.pcases(vertex, items)
    items = []
    for nk, sym in (((2, 2, 1), 'sq'), ((4, 4, 1), 'sq'), ((3, 2, 1), 'none'), ((3, 3, 1), 'inv')):
        for niw, niv in ((2, 2), (2, 4), (4, 3)):
            for opt in ({}, {'niw_vert': 1}, {'niw_cond': 1}, {'niw_vert': niw - 1, 'niw_cond': niv - 1}):
                for size in (1, 2):
                    items.append((f'fcond:{"x".join(map(str, nk))},{sym},{niw},{niv},{opt},n{size}', (nk, sym, niw, niv, size, opt, size)))
    ck.pcases(fcond, items)
    ck.pcases(vslice, [(f'slice:{niv},{new},{lo}-{hi}', (niv, new, list(range(lo, hi + 1)))) for niv in range(1, 8) for new in range(1, niv + 1)
                       for lo in range(-(niv - new), niv - new + 1) for hi in range(lo, niv - new + 1)])
    ck.pcases(realf, [(f'realf:{nk},{nw},{wb},{da},{beta}', (nk, nw, 8.0, wb, da, beta, 0)) for nk in ((2, 2, 1), (3, 2, 1)) for nw in (101, 201, 151)
                      for wb in (1.0, 2.5, 4.0) for da in (0, 1) for beta in (2.0, 10.0)])
    ck.pcases(drude, [(f'sigma:{g},{n}', (1.0, g, n)) for g in (0.3, 0.5, 1.0) for n in (400, 801)])
    ck.assumptions += ['real-frequency meshes are uniform, symmetric and contain zero']
