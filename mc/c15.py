"""C15: tail corrections of the bubble: infinite frequency sum minus finite sum of the high-frequency expansion."""
import numpy as np

from mc import ref
from mc.common import close, det, expect

LEVEL = 'exploration'
RULE = ('all meshes, all q-points, frequency notations, bosonic ranges and box sizes in the stated ranges against the explicit '
        'expansion; free electrons against the exact Lindhard sum; non-trivial: more than one k-point')
NOT = ('plus', 'minus', 'center')


def setup(nk, niv, seed=0, mean=0.0, beta=4.2, mu=0.21, m0=0.35, m1=-0.4, mom=True):
    from dga import two_point as twop
    ek = det(nk, seed).real
    ek = ek - ek.mean() + mean
    pos = -1j * np.abs(det(nk + (niv,), seed + 1)) * 0.3 + 0.1
    sig = twop.SelfEnergy(pos, beta, pos=True, smom0=m0, smom1=m1, niv_core=niv)
    return ek, twop.GreensFunction(sig, ek, mu=mu, niv_asympt=2)


def formula(nk, wn, niv, notation, seed, full=False, mean=0.0):
    from dga import bubble as bub
    beta, mu, m0, m1 = 4.2 - 0.7 * seed, 0.21 - 0.5 * seed, 0.35, -0.4
    wn = np.array(wn)
    top = int(np.max(np.abs(wn)))
    ek, obj = setup(nk, niv + top + 3, seed, mean, beta, mu, m0, m1)
    gen = bub.BubbleGenerator(wn=wn, giwk_obj=obj, freq_notation=notation, is_full_wn=full)
    fl = ref.tail_factors(mu, m0, m1, ek)
    close(np.array(gen.get_asympt_prefactors()), np.array(fl), 'expansion coefficients')
    ex = np.array([ref.tail_exact(beta, w, fl) for w in wn])
    su = np.array([ref.tail_sum(beta, niv, w, notation, fl) for w in wn])
    close(gen.get_exact_asymptotics(), ex, 'infinite sum')
    close(gen.get_asympt_sum(niv), su, 'finite sum')
    close(gen.get_asymptotic_correction(niv), ex - su, 'correction')
    x = ref.gchi0_loc(obj.g_full().mean(axis=(0, 1, 2)), beta, niv, wn, notation).sum(axis=-1) / beta ** 2
    close(gen.get_chi0(niv, do_asympt=True), x + ex - su, 'bubble including the tail')
    close(gen.get_chi0(niv, do_asympt=False), x, 'bubble without the tail')
    close(gen.get_chi0(niv), x, 'bubble without the tail')
    qs = np.array(ref.qlist(nk))
    exq, suq = [], []
    for q in qs:
        f = ref.tail_factors(mu, m0, m1, ek, q)
        exq.append([ref.tail_exact(beta, w, f) for w in wn])
        suq.append([ref.tail_sum(beta, niv, w, notation, f) for w in wn])
    exq, suq = np.array(exq), np.array(suq)
    close(gen.get_ek_ekpq(qs), np.array([np.mean(ek * ref.kplus(ek, q)) for q in qs]), 'mean e(k) e(k+q)')
    close(gen.get_exact_asymptotics_q(qs), exq, 'infinite sum (q)')
    close(gen.get_asympt_sum_q(niv, qs), suq, 'finite sum (q)')
    close(gen.get_asymptotic_correction_q(niv, qs), exq - suq, 'correction (q)')
    sel = qs[::-2]
    close(gen.get_asymptotic_correction_q(niv, sel), (exq - suq)[::-2], 'selected q-points')
    for n in NOT:
        if n == notation:
            continue
        close(gen.get_asymptotic_correction(niv, freq_notation=n), ex - np.array([ref.tail_sum(beta, niv, w, n, fl) for w in wn]), f'notation {n}')
        close(gen.get_asymptotic_correction_q(niv, qs, freq_notation=n),
              exq - np.array([[ref.tail_sum(beta, niv, w, n, ref.tail_factors(mu, m0, m1, ek, q)) for w in wn] for q in qs]), f'notation {n}')
        if not full:
            x2 = ref.gchi0_loc(obj.g_full().mean(axis=(0, 1, 2)), beta, niv, wn, n).sum(axis=-1) / beta ** 2
            close(gen.get_chi0(niv, freq_notation=n, do_asympt=True), x2 + ex - np.array([ref.tail_sum(beta, niv, w, n, fl) for w in wn]), f'notation {n}')
    # shell between the core and the infinite sum
    if niv > 1:
        ncore = niv - 1
        for n in (None, notation, 'plus'):
            nn = notation if n is None else n
            if full and nn != notation:
                continue
            xc = ref.gchi0_q(obj.g_full(), beta, ncore, wn, qs, nn).sum(axis=-1) / beta ** 2
            xf = ref.gchi0_q(obj.g_full(), beta, niv, wn, qs, nn).sum(axis=-1) / beta ** 2
            sq = np.array([[ref.tail_sum(beta, niv, w, nn, ref.tail_factors(mu, m0, m1, ek, q)) for w in wn] for q in qs])
            kw = {} if n is None else {'freq_notation': n}
            close(gen.get_chi0q_shell(xc, ncore, niv - ncore, qs, **kw), xf - xc + exq - sq, 'shell bubble')


def lindhard(ek, mu, beta, q, w):
    e1, e2 = ek - mu, ref.kplus(ek, q) - mu
    f = lambda x: 1 / (1 + np.exp(beta * x))
    if w != 0:
        return -np.mean((f(e1) - f(e2)) / (-1j * ref.om(beta, w) + e1 - e2))
    d = e1 - e2
    deg = np.abs(d) < 1e-9
    return -np.mean(np.where(deg, -beta * f(e1) * (1 - f(e1)), (f(e1) - f(e2)) / np.where(deg, 1, d)))


def physical(nk, beta, mu, seed, mean=0.0):
    """ free electrons: finite sum plus correction converges to the exact response, much faster than the bare sum """
    from dga import bubble as bub
    from dga import two_point as twop
    ek = det(nk, seed).real * 1.5
    ek = ek - ek.mean() + mean
    wn = np.arange(-2, 3)
    qs = np.array(ref.qlist(nk))
    exact = np.array([[lindhard(ek, mu, beta, q, w) for w in wn] for q in qs])
    e1 = ek - mu
    errs = []
    for niv in (40, 80):
        sig = twop.SelfEnergy(np.zeros((1, 1, 1, niv + 4), complex), beta, pos=True, smom0=0., smom1=0., niv_core=niv + 4)
        gen = bub.BubbleGenerator(wn=wn, giwk_obj=twop.GreensFunction(sig, ek, mu=mu, niv_asympt=1), is_full_wn=True)
        bare = gen.get_chi0_q_list(niv, qs)
        corr = bare + gen.get_asymptotic_correction_q(niv, qs)
        errs.append((np.max(np.abs(bare - exact)), np.max(np.abs(corr - exact))))
        close(gen.get_chi0q_shell(gen.get_chi0_q_list(niv - 10, qs), niv - 10, 10, qs), corr - gen.get_chi0_q_list(niv - 10, qs), 'shell')
        # local response: every k with every k'
        loc = np.mean(exact, axis=0)
        lc = gen.get_chi0(niv, do_asympt=True)
        expect(np.max(np.abs(lc - loc)) < 40 * (np.max(np.abs(e1)) + 1) ** 3 * (beta / (2 * np.pi * niv)) ** 3, f'local tail correction misses the exact response: {np.max(np.abs(lc - loc)):.2e}')
    expect(errs[1][1] < 0.05 * errs[1][0], f'corrected sum is not better than the bare one: {errs}')
    expect(errs[1][1] < 0.4 * errs[0][1] + 1e-12, f'corrected sum does not converge to the exact response: {errs}')


def run(ck):
    T = ck.thorough
    meshes = [(1, 1, 1), (2, 1, 1), (1, 3, 2), (3, 2, 1), (2, 2, 2), (4, 4, 1)] + ([(5, 3, 2), (4, 3, 3)] if T else [])
    ranges = [(0,), (-1, 0, 1), (-3, -2, -1, 0, 1, 2, 3), (0, 1, 2), (-2, 0, 3), (2,), (5, 1)]
    items = [(f'formula:nk={nk},wn={w},niv={v},{n},seed={s},mean={m}', (nk, w, v, n, s, False, m)) for nk in meshes for w in ranges
             for v in (1, 2, 5) + ((9, 30) if T else ()) for n in NOT for s in (0, 1) for m in (0.0, 0.8)]
    items += [(f'formula_full:nk={nk},niw={w},niv={v},{n}', (nk, tuple(range(-w, w + 1)), v, n, 0, True)) for nk in meshes for w in (0, 1, 3)
              for v in (2, 5) for n in NOT]
    ck.pcases(formula, items, trivial=lambda nk, *a: nk == (1, 1, 1))
    ck.pcases(physical, [(f'lindhard:nk={nk},beta={b},mu={m},mean={x}', (nk, b, m, s, x)) for x in (0.0, 0.9) for s, nk in enumerate([(2, 1, 1), (3, 2, 1), (2, 2, 2), (4, 4, 1)])
                         for b in (2., 6.) + ((11.,) if T else ()) for m in (0., 0.7, -1.1)])
