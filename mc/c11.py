"""C11: Matsubara grids, cuts and frequency bookkeeping address exactly the frequencies they name."""
import itertools

import numpy as np

from mc.common import close, expect, same, tagged

LEVEL = 'exploration'
RULE = ('all box sizes, cuts, shifts and axes in the stated ranges; arrays carry unique tags and are looked up by frequency '
        'label (independent index table); non-trivial: at least one frequency is kept')


class Lab:
    """ array addressed by integer frequency labels along some axes """
    def __init__(self, mat, kinds):
        self.mat = mat
        self.kinds = kinds      # per axis: 'v', 'w', 'W' (w>=0), 'V' (v>=0), None

    def idx(self, ax, lab):
        n = self.mat.shape[ax]
        k = self.kinds[ax]
        i = lab + n // 2 if k in ('v', 'w') else lab
        if not 0 <= i < n:
            raise KeyError((ax, lab))
        return i

    def get(self, ax, labels):
        return np.take(self.mat, [self.idx(ax, x) for x in labels], axis=ax)


def grids(n, shift):
    from dga import matsubara_frequencies as mf
    v = [*range(-n + shift, n + shift)]
    w = [*range(-n + shift, n + shift + 1)]
    same(mf.vn(n, shift), np.array(v, int), 'fermionic indices')
    same(mf.vn(n, shift, True), np.arange(shift, n + shift), 'positive fermionic indices')
    same(mf.wn(n, shift), np.array(w, int), 'bosonic indices')
    same(mf.wn(n, shift, True), np.arange(shift, n + shift + 1), 'non-negative bosonic indices')
    if shift == 0:
        same(mf.vn(n), np.array(v, int), 'fermionic indices')
        same(mf.wn(n), np.array(w, int), 'bosonic indices')
        same(mf.vn(n, pos=True), np.arange(n), 'positive fermionic indices')
        same(mf.wn(n, pos=True), np.arange(n + 1), 'non-negative bosonic indices')
    same(mf.vn(n, shift=shift), np.array(v, int), 'fermionic indices')
    same(mf.wn(n, shift=shift), np.array(w, int), 'bosonic indices')
    for beta in (0.5, 1.0, 12.5, np.float64(40.)):
        close(mf.vn(beta, n, shift), np.array([(2 * i + 1) * np.pi / beta for i in v]), 'fermionic frequencies')
        close(mf.wn(beta, n, shift), np.array([2 * i * np.pi / beta for i in w]), 'bosonic frequencies')
        close(mf.vn(beta, n, shift=shift, pos=True), np.array([(2 * i + 1) * np.pi / beta for i in range(shift, n + shift)]), 'fermionic frequencies')
        close(mf.wn(beta, n, shift=shift, pos=True), np.array([2 * i * np.pi / beta for i in range(shift, n + shift + 1)]), 'bosonic frequencies')
        for ax in (0, 1, -1):
            shp = [3, 3]
            shp[ax] = 2 * n
            close(mf.vn(beta, np.zeros(shp), axis=ax, shift=shift), np.array([(2 * i + 1) * np.pi / beta for i in v]), 'frequencies of an array')
            same(mf.vn(np.zeros(shp), axis=ax, shift=shift), np.array(v, int), 'indices of an array')
            shp[ax] = 2 * n + 1
            close(mf.wn(beta, np.zeros(shp), axis=ax, shift=shift), np.array([2 * i * np.pi / beta for i in w]), 'frequencies of an array')
            same(mf.wn(np.zeros(shp), axis=ax, shift=shift), np.array(w, int), 'indices of an array')
            expect(mf.niw_from_mat(np.zeros(shp), axis=ax) == n, 'number of bosonic frequencies')
            shp[ax] = n
            close(mf.vn(beta, np.zeros(shp), axis=ax, shift=shift, pos=True), np.array([(2 * i + 1) * np.pi / beta for i in range(shift, n + shift)]), 'frequencies of an array')
            same(mf.vn(np.zeros(shp), axis=ax, shift=shift, pos=True), np.arange(shift, n + shift), 'indices of an array')
            expect(mf.niv_from_mat(np.zeros(shp), axis=ax, pos=True) == n, 'number of frequencies')
            shp[ax] = n + 1
            close(mf.wn(beta, np.zeros(shp), axis=ax, shift=shift, pos=True), np.array([2 * i * np.pi / beta for i in range(shift, n + shift + 1)]), 'frequencies of an array')
            same(mf.wn(np.zeros(shp), axis=ax, shift=shift, pos=True), np.arange(shift, n + shift + 1), 'indices of an array')
            expect(mf.niw_from_mat(np.zeros(shp), axis=ax, pos=True) == n, 'number of bosonic frequencies')
        shp = [2, 2 * n]
        same(mf.vn(np.zeros(shp)), mf.vn(n), 'default axis of fermionic arrays is the last')
        same(mf.wn(np.zeros((2 * n + 1, 2))), mf.wn(n), 'default axis of bosonic arrays is the first')
    same(mf.wn_cen2lin(np.array(w), n), np.array([i + n for i in w]), 'position of a bosonic frequency')
    same(mf.cen2lin(np.array(v), -n), np.array([i + n for i in v]), 'position of a fermionic frequency')


def cuts(n, cut):
    """ cuts of one axis, of every axis subset, of arrays with up to three axes """
    from dga import matsubara_frequencies as mf
    a = tagged((2 * n,))
    L = Lab(a, ['v'])
    same(mf.cut_v_1d(a, cut), L.get(0, range(-cut, cut)), 'cut_v_1d')
    same(mf.cut_v_1d(a, -1), a, 'no cut')
    same(mf.clip_pos_mf_vn(a), L.get(0, range(n)), 'positive frequencies')
    for lo in range(0, n - cut + 1):
        same(mf.cut_v_1d_pos(a, cut, lo), L.get(0, range(lo, lo + cut)), 'positive frequencies from niv_min')
    same(mf.cut_v_1d_pos(a, -1), L.get(0, range(n)), 'positive frequencies')
    b = tagged((2 * n + 1,))
    LB = Lab(b, ['w'])
    same(mf.cut_v_1d_wn(b, cut), LB.get(0, range(-cut, cut + 1)), 'bosonic cut')
    for shell in range(0, n - cut + 1):
        want = np.concatenate((L.get(0, range(-cut - shell, -cut)), L.get(0, range(cut, cut + shell))))
        same(mf.inv_cut_v_1d(a, cut, shell), want, 'shell')
        same(mf.inv_cut_v(a, cut, shell), want, 'shell')
    same(mf.inv_cut_v(a, cut, -1), np.concatenate((L.get(0, range(-n, -cut)), L.get(0, range(cut, n)))), 'everything outside of the core')
    for nd in (2, 3):
        for r in (1, 2, 3):
            for axes in itertools.permutations(range(nd), r):
                shp = [2 * n if i in axes else 3 for i in range(nd)]
                m = tagged(shp)
                want = m
                for ax in axes:
                    want = Lab(want, ['v'] * nd).get(ax, range(-cut, cut))
                same(mf.cut_v(m, cut, axes=axes), want, f'cut along {axes}')
                same(mf.cut_v(m, cut, axes=tuple(x - nd for x in axes)), want, f'cut along {axes}')
                if r == 1:
                    same(mf.cut_v(m, cut, axes=axes[0]), want, 'cut along one axis')
                want = m
                for ax in axes:
                    lw = Lab(want, ['v'] * nd)
                    want = np.concatenate((lw.get(ax, range(-n, -cut)), lw.get(ax, range(cut, n))), axis=ax)
                if cut < n:
                    same(mf.inv_cut_v(m, cut, n - cut, axes=axes), want, f'shell along {axes}')
                shp = [2 * n + 1 if i in axes else 3 for i in range(nd)]
                m = tagged(shp)
                want = m
                for ax in axes:
                    want = Lab(want, ['w'] * nd).get(ax, range(-cut, cut + 1))
                same(mf.cut_w(m, cut, axes=axes), want, f'bosonic cut along {axes}')
                same(mf.cut_w(m, cut, axes=tuple(x - nd for x in axes)), want, f'bosonic cut along {axes}')


def shifted(n, cut):
    """ frequency windows shifted by a bosonic frequency """
    from dga import matsubara_frequencies as mf
    w_ok = [w for w in range(-(n - cut), n - cut + 1)]
    m = tagged((2, 2 * n))
    L = Lab(m, [None, 'v'])
    same(mf.wn_slices_gen(m, cut, np.array(w_ok)), np.array([L.get(1, range(-cut - w, cut - w)) for w in w_ok]), 'windows v-w')
    for w in w_ok:
        same(mf.wn_slices_gen(m[0], cut, [w])[0], L.get(1, range(-cut - w, cut - w))[0], 'window v-w')
        same(mf.cut_iv_with_iw_shift_1d(m[0], cut, w), L.get(1, range(-cut - w, cut - w))[0], 'shifted cut')
        same(mf.cut_iv_with_iw_shift(m, cut, w), L.get(1, range(-cut - w, cut - w)), 'shifted cut')
        q = tagged((2 * n, 3, 2 * n))
        lq = Lab(Lab(q, ['v', None, 'v']).get(0, range(-cut - w, cut - w)), ['v', None, 'v'])
        same(mf.cut_iv_with_iw_shift(q, cut, w, axes=(0, 2)), lq.get(2, range(-cut - w, cut - w)), 'shifted cut along two axes')
    for w in range(-n, n + 1):
        c = n - abs(w)
        same(mf.cut_iv_with_iw_shift_1d(m[0], iwn=w), L.get(1, range(-c - w, c - w))[0], 'largest shifted cut')
        same(mf.cut_iv_with_iw_shift(m, iwn=w), L.get(1, range(-c - w, c - w)), 'largest shifted cut')
    for core in range(0, cut + 1):
        shell = cut - core
        ref = np.array([np.concatenate((L.get(1, range(-core - shell - w, -core - w)), L.get(1, range(core - w, core + shell - w))), axis=-1) for w in w_ok])
        same(mf.wn_slices_shell(m, shell, core, np.array(w_ok)), ref, 'shell windows')


def sums(niw, niv, nsum):
    from dga import matsubara_frequencies as mf
    beta = 7.5
    m = tagged((2, 2 * niw + 1, 2 * niv, 2 * niv))
    L = {(v, p): m[..., v + niv, p + niv] for v in range(-niv, niv) for p in range(-niv, niv)}
    wn = list(range(-niw, niw + 1))
    close(mf.vn_centered_sum(m, np.array(wn), beta), np.sum(m, axis=(-1, -2)) / beta ** 2, 'sum over v, vp')
    ok = all(-nsum + w // 2 >= -niv and nsum + w // 2 <= niv for w in wn)
    if ok:
        want = np.zeros(m.shape[:-2], complex)
        for i, w in enumerate(wn):
            s = w // 2
            for v in range(-nsum + s, nsum + s):
                for p in range(-nsum + s, nsum + s):
                    want[..., i] += L[v, p][..., i] / beta ** 2
        close(mf.vn_centered_sum(m, np.array(wn), beta, nsum), want, 'centered sum over v, vp')
        for i, w in enumerate(wn):
            close(mf.vn_centered_sum_wn(m[:, i], beta, w, nsum), want[:, i], 'centered sum over v, vp')
    b = tagged((2 * niw + 1, 3))
    close(mf.wn_sum(b, beta), b.sum(axis=0) / beta, 'bosonic sum')
    if nsum <= niw:
        close(mf.wn_sum(b, beta, nsum), sum(b[w + niw] for w in range(-nsum, nsum + 1)) / beta, 'bosonic sum')
    for ax in (0, 1, -1):
        c = np.moveaxis(b, 0, ax)
        same(mf.mat_at_w0(c, axis=ax), b[niw], 'zero frequency')
        for w in wn:
            same(mf.get_mat_at_iwn(c, w, axis=ax), b[w + niw], 'bosonic frequency')
        p = np.moveaxis(b[niw:], 0, ax)
        same(mf.mat_at_w0(p, pos=True, axis=ax), b[niw], 'zero frequency')
        for w in range(0, niw + 1):
            same(mf.get_mat_at_iwn(p, w, pos=True, axis=ax), b[w + niw], 'bosonic frequency')


def defaults(n, other):
    """ omitted arguments mean: whole box, no shift, no shell, first axis for cuts and bosonic objects, last axis for fermionic ones """
    from dga import matsubara_frequencies as mf
    a = tagged((2 * n,))
    L = Lab(a, ['v'])
    same(mf.cut_v_1d(a), a[:0], 'cut_v_1d keeps no frequency by default')
    same(mf.cut_v_1d_pos(a), a[:0], 'cut_v_1d_pos keeps no frequency by default')
    same(mf.cut_v_1d_pos(a, 1), L.get(0, [0]), 'first positive frequency')
    same(mf.inv_cut_v_1d(a), a, 'everything is outside of an empty core')
    for core in range(0, n + 1):
        same(mf.inv_cut_v_1d(a, core), np.concatenate((L.get(0, range(-n, -core)), L.get(0, range(core, n)))), 'everything outside of the core')
    m = tagged((2 * n, other))
    L = Lab(m, ['v', None])
    for cut in range(1, n + 1):
        same(mf.cut_v(m, cut), L.get(0, range(-cut, cut)), 'default cut is along the first axis')
        for core in range(0, n - cut + 1):
            want = np.concatenate((L.get(0, range(-core - cut, -core)), L.get(0, range(core, core + cut))))
            same(mf.inv_cut_v(m, core, cut), want, 'default shell is along the first axis')
        want = np.concatenate((L.get(0, range(-cut, 0)), L.get(0, range(0, cut))))
        same(mf.inv_cut_v(m, niv_shell=cut), want, 'shell around an empty core')
    b = tagged((2 * n + 1, other))
    same(mf.cut_v_1d_wn(b[:, 0]), b[n:n + 1, 0], 'bosonic cut to the zero frequency')
    if other:
        same(mf.cut_w(b), b[n:n + 1], 'bosonic cut to the zero frequency')
    for cut in range(0, n + 1):
        if other:
            same(mf.cut_w(b, cut), b[n - cut:n + cut + 1], 'default bosonic cut is along the first axis')
    same(mf.mat_at_w0(b), b[n], 'zero frequency of the first axis')
    same(mf.mat_at_w0(b[n:], pos=True), b[n], 'zero frequency of the first axis')
    for w in range(-n, n + 1):
        same(mf.get_mat_at_iwn(b, w), b[n + w], 'frequency of the first axis')
    mt = tagged((other, 2 * n))
    expect(mf.niv_from_mat(mt) == n, 'fermionic frequencies of the last axis')
    expect(mf.niv_from_mat(mt, pos=True) == 2 * n, 'fermionic frequencies of the last axis')
    expect(mf.niw_from_mat(tagged((other, 2 * n + 1))) == n, 'bosonic frequencies of the last axis')
    expect(mf.niw_from_mat(tagged((other, n + 1)), pos=True) == n, 'bosonic frequencies of the last axis')
    v, w = np.arange(-n, n), np.arange(-n, n + 1)
    same(mf.vn(mt), v, 'indices of the last axis')
    same(mf.wn(b), w, 'indices of the first axis')
    for beta in (1.0, 12.5):
        close(mf.vn(beta, n), (2 * v + 1) * np.pi / beta, 'fermionic frequencies')
        close(mf.wn(beta, n), 2 * w * np.pi / beta, 'bosonic frequencies')
        close(mf.vn(beta, mt), (2 * v + 1) * np.pi / beta, 'fermionic frequencies of the last axis')
        close(mf.wn(beta, b), 2 * w * np.pi / beta, 'bosonic frequencies of the first axis')
        f = tagged((other, 2 * n, 2 * n))
        close(mf.vn_centered_sum_wn(f, beta), f.sum(axis=(-1, -2)) / beta ** 2, 'sum over both frequencies')
        for ns in range(0, n + 1):
            close(mf.vn_centered_sum_wn(f, beta, niv_sum=ns), f[:, n - ns:n + ns, n - ns:n + ns].sum(axis=(-1, -2)) / beta ** 2, 'centred sum')
    sh = tagged((other, 2 * n))
    for cut in range(0, n + 1):
        same(mf.cut_iv_with_iw_shift_1d(sh[0], cut), sh[0, n - cut:n + cut], 'unshifted cut')
        same(mf.cut_iv_with_iw_shift(sh, cut), sh[:, n - cut:n + cut], 'unshifted cut along the last axis')
        for x in range(-(n - cut), n - cut + 1):
            same(mf.cut_iv_with_iw_shift(sh, cut, x), sh[:, n - cut - x:n + cut - x], 'shifted cut along the last axis')
    same(mf.cut_iv_with_iw_shift_1d(sh[0]), sh[0], 'no cut')
    same(mf.cut_iv_with_iw_shift(sh), sh, 'no cut')
    for ns in range(1, n + 1):
        ws = np.arange(-(n - ns), n - ns + 1)
        want = np.array([np.concatenate((sh[:, n - ns - x:n - x], sh[:, n - x:n + ns - x]), axis=-1) for x in ws])
        same(mf.wn_slices_shell(sh, ns, w=ws), want, 'shell around an empty core')


def nonsquare(niv, nivp, niw, lead):
    """ last axes of different sizes: every box is addressed by its own size """
    from dga import matsubara_frequencies as mf
    beta = 3.5
    m = tagged(tuple(lead) + (2 * niw + 1, 2 * niv, 2 * nivp))
    close(mf.vn_centered_sum(m, np.arange(-niw, niw + 1), beta), m.sum(axis=(-1, -2)) / beta ** 2, 'sum over both frequencies')
    same(mf.cut_v(mf.cut_v(m, niv, axes=(-2,)), min(niv, nivp), axes=(-1,)), m[..., nivp - min(niv, nivp):nivp + min(niv, nivp)], 'cut of the last axis')


def freq_shift(w):
    from dga import matsubara_frequencies as mf
    from mc.common import raises
    expect(tuple(mf.get_freq_shift(w, 'plus')) == (0, w), 'plus')
    expect(tuple(mf.get_freq_shift(w, 'minus')) == (0, -w), 'minus')
    a, b = mf.get_freq_shift(w, 'center')
    expect(a - b == w and abs(a + b) <= 1, f'center: {a}, {b}')
    expect(a == int(np.floor(w / 2)), f'center: {a}, {b}')
    expect(raises(lambda: mf.get_freq_shift(w, 'other'), NotImplementedError), 'unknown notation accepted')


def run(ck):
    N = 7 if not ck.thorough else 12
    ck.pcases(grids, [(f'grids:n={n},shift={s}', (n, s)) for n in range(0, N + 3) for s in range(-N, N + 1)])
    ck.pcases(cuts, [(f'cuts:n={n},cut={c}', (n, c)) for n in range(1, N + 1) for c in range(1, n + 1)])
    ck.pcases(shifted, [(f'shifted:n={n},cut={c}', (n, c)) for n in range(1, N + 3) for c in range(1, n + 1)])
    ck.pcases(sums, [(f'sums:niw={w},niv={v},nsum={s}', (w, v, s)) for w in range(0, N) for v in range(1, N + 1) for s in range(0, v + 1)])
    ck.pcases(defaults, [(f'defaults:n={n},other={o}', (n, o)) for n in range(1, N + 1) for o in (1, 2, 3, 5, 8)])
    ck.pcases(nonsquare, [(f'nonsquare:niv={v},nivp={p},niw={w},leading={l}', (v, p, w, l)) for v in range(1, N) for p in range(1, N) for w in range(0, 3) for l in ((), (2,), (3, 2))])
    ck.pcases(freq_shift, [(f'notation:w={w}', (w,)) for w in range(-50, 51)])
