"""C14: the bubble is -beta * mean_k G(k) G(k+q) at the frequencies the notation names."""
import numpy as np

from mc import ref
from mc.common import close, det, expect, raises, same

LEVEL = 'exploration'
RULE = ('all meshes, all q-points of the mesh, frequency boxes, frequency notations and both ways of building negative bosonic '
        'frequencies in the stated ranges; generic complex Green\'s functions (conjugation symmetric where the interface requires it)')
NOT = ('plus', 'minus', 'center')


def green(nk, niv, sym, seed=0):
    if sym:
        return ref.herm_f(det(nk + (niv,), seed))
    return det(nk + (2 * niv,), seed)


def local(niw, niv, extra, notation, full):
    from dga import bubble as bub
    beta = 3.7
    g = green((), niv + niw + extra, full, niw)
    wn = np.arange(-niw, niw + 1)
    x = ref.gchi0_loc(g, beta, niv, wn, notation)
    close(bub.vec_get_gchi0(g, beta, niv, wn, notation, is_full_wn=full), x, 'local generalized bubble')
    chi = x.sum(axis=-1) / beta ** 2
    if not full:
        for i, w in enumerate(wn):
            close(bub.get_gchi0(g, beta, niv, int(w), notation), x[i], 'single frequency')
            close(bub.get_chi0_sum(g, beta, niv, int(w), notation), chi[i], 'summed bubble')
        close(bub.vec_get_chi0_sum(g, beta, niv, wn, notation), chi, 'summed bubble')
        if notation == 'minus':
            close(bub.vec_get_gchi0(g, beta, niv, wn), x, 'default notation')
            close(bub.vec_get_chi0_sum(g, beta, niv, wn), chi, 'default notation')
        sub = wn[::2]
        close(bub.vec_get_gchi0(g, beta, niv, sub, notation), x[::2], 'selected frequencies')
    else:
        close(bub.vec_get_gchi0(g, beta, niv, wn, notation, True), x, 'negative frequencies rebuilt')
        close(bub.vec_get_chi0_sum(g, beta, niv, wn, notation, True), chi, 'negative frequencies rebuilt')


def lattice(nk, niw, niv, extra, notation, full):
    from dga import bubble as bub
    beta = 2.9
    g = green(nk, niv + niw + extra, full, 3)
    wn = np.arange(-niw, niw + 1)
    qs = ref.qlist(nk)
    x = ref.gchi0_q(g, beta, niv, wn, qs, notation)
    chi = x.sum(axis=-1) / beta ** 2
    keep = g.copy()
    for ql in ([list(q) for q in qs], np.array(qs)):
        close(bub.vec_get_gchi0_q(g, beta, niv, wn, ql, notation, full), x, 'generalized bubble')
        close(bub.vec_get_chi0_q(g, beta, niv, wn, ql, notation, full), chi, 'summed bubble')
    same(g, keep, 'input')
    # any selection and order of q-points
    sel = list(range(len(qs)))[::-2]
    close(bub.vec_get_gchi0_q(g, beta, niv, wn, np.array(qs)[sel], notation, full), x[sel], 'selected q-points')
    if not full:
        for iq in sel[:4]:
            for i, w in enumerate(wn):
                close(bub.get_gchi0_q(g, beta, niv, int(w), qs[iq], notation), x[iq, i], 'single entry')
                close(bub.get_chi0_q(g, beta, niv, int(w), qs[iq], notation), chi[iq, i], 'single entry')
        if notation == 'minus':
            close(bub.vec_get_gchi0_q(g, beta, niv, wn, np.array(qs)), x, 'default notation')
            close(bub.vec_get_chi0_q(g, beta, niv, wn, np.array(qs)), chi, 'default notation')
    if notation == 'minus' and not full:
        # the mean over all q is the local bubble
        gl = g.mean(axis=(0, 1, 2))
        close(x.mean(axis=0), ref.gchi0_loc(gl, beta, niv, wn, notation), 'reference: mean over q')
        close(bub.vec_get_gchi0_q(g, beta, niv, wn, np.array(qs)).mean(axis=0), bub.vec_get_gchi0(gl, beta, niv, wn), 'mean over q')


class G:
    """ Green's function object as the generator sees it """
    def __init__(self, nk, niv, seed=0, beta=4.2):
        from dga import two_point as twop
        self.beta = beta
        ek = det(nk, seed).real
        pos = -1j * np.abs(det(nk + (niv,), seed + 1)) * 0.3 + 0.1
        sig = twop.SelfEnergy(pos, beta, pos=True, smom0=0.3, smom1=-0.2, niv_core=niv)
        self.obj = twop.GreensFunction(sig, ek, mu=0.21, niv_asympt=3)
        self.full = self.obj.g_full()
        self.loc = self.full.mean(axis=(0, 1, 2))


def generator(nk, niw, niv, notation, full):
    from dga import bubble as bub
    o = G(nk, niv + niw)
    beta = o.beta
    wn = np.arange(-niw, niw + 1)
    gen = bub.BubbleGenerator(wn=wn, giwk_obj=o.obj, freq_notation=notation, is_full_wn=full)
    qs = np.array(ref.qlist(nk))
    xl, xq = ref.gchi0_loc(o.loc, beta, niv, wn, notation), ref.gchi0_q(o.full, beta, niv, wn, qs, notation)
    close(gen.get_gchi0(niv), xl, 'local generalized bubble')
    close(gen.get_chi0(niv), xl.sum(axis=-1) / beta ** 2, 'local bubble')
    close(gen.contract_legs(gen.get_gchi0(niv)), xl.sum(axis=-1) / beta ** 2, 'contracted bubble')
    close(gen.get_gchi0_q_list(niv, qs), xq, 'generalized bubble')
    close(gen.get_chi0_q_list(niv, qs), xq.sum(axis=-1) / beta ** 2, 'bubble')
    d = gen.get_gchi0_vvp_full(xl)
    close(d, np.array([np.diag(a) for a in xl]), 'diagonal matrix')
    for other in NOT:
        if full and other != notation:
            continue
        xo = ref.gchi0_loc(o.loc, beta, niv, wn, other)
        close(gen.get_gchi0(niv, freq_notation=other), xo, f'notation {other}')
        close(gen.get_chi0(niv, freq_notation=other), xo.sum(axis=-1) / beta ** 2, f'notation {other}')
        xo = ref.gchi0_q(o.full, beta, niv, wn, qs, other)
        close(gen.get_gchi0_q_list(niv, qs, freq_notation=other), xo, f'notation {other}')
        close(gen.get_chi0_q_list(niv, qs, freq_notation=other), xo.sum(axis=-1) / beta ** 2, f'notation {other}')
    if full:
        expect(list(gen.wn_pos) == list(range(niw + 1)), 'non-negative frequencies')
        if niw:
            expect(raises(lambda: bub.BubbleGenerator(wn=wn[1:], giwk_obj=o.obj, is_full_wn=True)), 'asymmetric range accepted')
    expect(raises(lambda: bub.BubbleGenerator(wn=wn, giwk_obj=o.obj, freq_notation='none'), ValueError), 'unknown notation accepted')
    expect(raises(lambda: bub.BubbleGenerator(wn=wn, giwk_obj=o.obj, chi0_method='none'), ValueError), 'unknown method accepted')


def run(ck):
    T = ck.thorough
    N = 4 if not T else 6
    items = []
    for niw in range(0, N + 1):
        for niv in range(1, N + 1):
            for extra in (0, 2):
                for n in NOT:
                    for full in (False, True):
                        items.append((f'local:niw={niw},niv={niv},extra={extra},{n},full={full}', (niw, niv, extra, n, full)))
    ck.pcases(local, items)
    meshes = [(1, 1, 1), (2, 1, 1), (1, 3, 1), (2, 2, 1), (3, 2, 1), (2, 3, 2), (4, 4, 1), (1, 1, 4)] + ([(5, 4, 1), (3, 3, 3), (4, 2, 3)] if T else [])
    items = []
    for nk in meshes:
        for niw in range(0, 4 if not T else 5):
            for niv in (1, 2, 3):
                for extra in (0, 1):
                    for n in NOT:
                        for full in (False, True):
                            items.append((f'lattice:nk={nk},niw={niw},niv={niv},extra={extra},{n},full={full}', (nk, niw, niv, extra, n, full)))
    ck.pcases(lattice, items, trivial=lambda nk, *a: nk == (1, 1, 1))
    items = [(f'generator:nk={nk},niw={w},niv={v},{n},full={f}', (nk, w, v, n, f)) for nk in meshes[1:] for w in (0, 1, 2, 3) for v in (1, 2, 4)
             for n in NOT for f in (False, True)]
    ck.pcases(generator, items)
    ck.assumptions.append('negative bosonic frequencies are rebuilt from the non-negative ones only for conjugation-symmetric Green\'s functions')
