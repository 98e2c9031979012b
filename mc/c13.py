"""C13: changes of the frequency convention read exactly the entry the target convention names."""
import numpy as np

from mc.common import close, expect, raises, same, tagged

LEVEL = 'exploration'
RULE = 'all box sizes in the stated range; every entry of every transformed array is compared with the entry named by its labels; non-trivial: the transformed box is not empty'


def lab(m, w, v, vp):
    niw, niv = m.shape[-3] // 2, m.shape[-1] // 2
    if not (-niw <= w <= niw and -niv <= v < niv and -niv <= vp < niv):
        raise KeyError((w, v, vp))
    return m[..., w + niw, v + niv, vp + niv]


def pp(niw, niv, lead):
    """ ph -> pp: (w, v, v') of pp names (v+v'+1-w, v, v') of ph """
    from dga import matsubara_frequencies as mf
    m = tagged(tuple(lead) + (2 * niw + 1, 2 * niv, 2 * niv))
    n = min(niw // 3, niv // 3)
    wpp = (2 * niw + 1) // 6
    r = mf.ph2pp(m)
    expect(r.shape == (2 * wpp + 1,) + tuple(lead) + (2 * n, 2 * n), f'shape {r.shape}')
    for w in range(-wpp, wpp + 1):
        one = mf.ph2pp_iwn(m, w)
        same(one, r[w + wpp], 'single frequency')
        for v in range(-n, n):
            for p in range(-n, n):
                same(one[..., v + n, p + n], lab(m, v + p + 1 - w, v, p), f'entry w={w}, v={v}, vp={p}')


def wc(niw, niv, lead):
    """ ph -> crossed pp: (w, v, v') names minus (v-v', v, w-v'-1) of ph """
    from dga import matsubara_frequencies as mf
    m = tagged(tuple(lead) + (2 * niw + 1, 2 * niv, 2 * niv))
    d = tagged(tuple(lead) + (2 * niw + 1, 2 * niv, 2 * niv), base=7)
    n = min(niw // 2, niv // 2)
    wpp = (2 * niw + 1) // 4
    if wpp + n > niv:
        return
    r = mf.ph2pp_wc(m)
    expect(r.shape == (2 * wpp + 1,) + tuple(lead) + (2 * n, 2 * n), f'shape {r.shape}')
    r1, r2 = mf.ph2pp_wc_md(d, m)
    for w in range(-wpp, wpp + 1):
        one = mf.ph2pp_iwn_wc(m, w)
        same(one, r[w + wpp], 'single frequency')
        for v in range(-n, n):
            for p in range(-n, n):
                em, ed = lab(m, v - p, v, w - p - 1), lab(d, v - p, v, w - p - 1)
                same(one[..., v + n, p + n], -em, f'entry w={w}, v={v}, vp={p}')
                close(r1[w + wpp, ..., v + n, p + n], -0.5 * ed - 1.5 * em, 'density channel')
                close(r2[w + wpp, ..., v + n, p + n], -0.5 * ed + 0.5 * em, 'magnetic channel')


def vmvp(niw, trail):
    """ w -> v-v' """
    from dga import matsubara_frequencies as mf
    m = tagged((2 * niw + 1,) + tuple(trail))
    r = mf.w_to_vmvp(m)
    n = niw // 2
    expect(r.shape == (2 * n, 2 * n) + tuple(trail), f'shape {r.shape}')
    for v in range(-n, n):
        for p in range(-n, n):
            same(r[v + n, p + n], m[v - p + niw], f'entry v={v}, vp={p}')


def shell(niv, nsh, lead):
    from dga import matsubara_frequencies as mf
    for m, val in ((tagged(tuple(lead) + (2 * niv, 2 * niv)), 3.5), (tagged(tuple(lead) + (2 * niv, 2 * niv)).real, -2.)):
        r = mf.append_v_vp_shell(m, val, nsh)
        n = niv + nsh
        want = np.full(tuple(lead) + (2 * n, 2 * n), val, m.dtype)
        for v in range(-niv, niv):
            for p in range(-niv, niv):
                want[..., v + n, p + n] = m[..., v + niv, p + niv]
        same(r, want, 'shell around v, vp')


def shell_default(niv, lead):
    from dga import matsubara_frequencies as mf
    m = tagged(tuple(lead) + (2 * niv, 2 * niv))
    same(mf.append_v_vp_shell(m, 2.5), m, 'no shell by default')


def single_default(niw, niv, lead):
    """ without a pairing frequency the single-frequency transformations address the zero frequency """
    from dga import matsubara_frequencies as mf
    m = tagged(tuple(lead) + (2 * niw + 1, 2 * niv, 2 * niv))
    same(mf.ph2pp_iwn(m), mf.ph2pp_iwn(m, 0), 'zero pairing frequency')
    same(mf.ph2pp_iwn_wc(m), mf.ph2pp_iwn_wc(m, 0), 'zero pairing frequency')


def refuses():
    from dga import matsubara_frequencies as mf
    for fn in (mf.ph2pp, mf.ph2pp_wc, mf.ph2pp_iwn, mf.ph2pp_iwn_wc):
        expect(raises(lambda f=fn: f(np.zeros((4, 4)))), 'two-dimensional input accepted')


def run(ck):
    N = 9 if not ck.thorough else 15
    leads = [(), (2,), (2, 3)]
    box = [(w, v) for w in range(0, N + 1) for v in range(1, N + 1)]
    ck.pcases(pp, [(f'ph_to_pp:niw={w},niv={v},leading={l}', (w, v, l)) for w, v in box for l in leads], trivial=lambda w, v, l: min(w // 3, v // 3) == 0)
    ck.pcases(wc, [(f'ph_to_crossed_pp:niw={w},niv={v},leading={l}', (w, v, l)) for w, v in box for l in leads],
              trivial=lambda w, v, l: min(w // 2, v // 2) == 0 or (2 * w + 1) // 4 + min(w // 2, v // 2) > v)
    ck.pcases(vmvp, [(f'w_to_v-vp:niw={w},trailing={t}', (w, t)) for w in range(0, 3 * N) for t in ((), (2,), (2, 3))], trivial=lambda w, t: w < 2)
    ck.pcases(shell, [(f'shell:niv={v},shell={s},leading={l}', (v, s, l)) for v in range(1, N) for s in range(0, 5) for l in leads], trivial=lambda v, s, l: s == 0)
    ck.pcases(shell_default, [(f'shell_default:niv={v},leading={l}', (v, l)) for v in range(1, N) for l in leads])
    ck.pcases(single_default, [(f'zero_frequency:niw={w},niv={v},leading={l}', (w, v, l)) for w in range(2, N) for v in range(2, N) for l in leads])
    ck.case('refuses:2d', refuses)
