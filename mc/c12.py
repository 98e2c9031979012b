"""C12: objects on half of the frequencies are completed exactly; bosonic addition aligns frequencies."""
import itertools

import numpy as np

from mc.common import close, det, expect, same, tagged

LEVEL = 'exploration'
RULE = 'all axis positions, numbers of axes and box sizes in the stated ranges on generic and on uniquely tagged arrays; non-trivial: at least one negative frequency is rebuilt'


def fermionic(n, shape, ax):
    from dga import matsubara_frequencies as mf
    shp = list(shape)
    shp[ax] = n
    for m in (tagged(shp), det(shp)):
        keep = m.copy()
        f = mf.fermionic_full_nu_range(m, axis=ax)
        shp2 = list(shp)
        shp2[ax] = 2 * n
        expect(f.shape == tuple(shp2), f'shape {f.shape}')
        for v in range(n):
            same(np.take(f, n + v, axis=ax), np.take(m, v, axis=ax), 'positive frequency')
            same(np.take(f, n - 1 - v, axis=ax), np.conj(np.take(m, v, axis=ax)), 'negative frequency -(v) = conj(v)')
        same(m, keep, 'input')
        if ax in (len(shape) - 1, -1):
            same(mf.fermionic_full_nu_range(m), f, 'default axis')
            same(mf.clip_pos_mf_vn(f), m, 'round trip')
        c = mf.cut_v(f, n, axes=(ax % len(shape),))
        same(c, f, 'round trip')


def bosonic(n, shape, ax):
    from dga import matsubara_frequencies as mf
    shp = list(shape)
    shp[ax] = n + 1
    for m in (tagged(shp), det(shp)):
        f = mf.bosonic_full_nu_range(m, axis=ax)
        shp2 = list(shp)
        shp2[ax] = 2 * n + 1
        expect(f.shape == tuple(shp2), f'shape {f.shape}')
        for w in range(n + 1):
            same(np.take(f, n + w, axis=ax), np.take(m, w, axis=ax), 'non-negative frequency')
            if w:
                same(np.take(f, n - w, axis=ax), np.conj(np.take(m, w, axis=ax)), 'negative frequency = conj')
        if ax in (len(shape) - 1, -1):
            same(mf.bosonic_full_nu_range(m), f, 'default axis')


def bosonic_axes(n, niv, ax, others):
    """ fermionic axes are reversed together with the bosonic one """
    from dga import matsubara_frequencies as mf
    nd = 4
    shp = [2] * nd
    for o in others:
        shp[o] = 2 * niv
    shp[ax] = n + 1
    m = tagged(shp)
    f = mf.bosonic_full_nu_range(m, axis=ax, freq_axes=tuple([ax] + list(others)))
    shp2 = list(shp)
    shp2[ax] = 2 * n + 1
    expect(f.shape == tuple(shp2), f'shape {f.shape}')
    for idx in np.ndindex(*shp2):
        w = idx[ax] - n
        src = list(idx)
        if w < 0:
            src[ax] = -w
            for o in others:
                src[o] = 2 * niv - 1 - idx[o]
            want = np.conj(m[tuple(src)])
        else:
            src[ax] = w
            want = m[tuple(src)]
        if f[idx] != want:
            expect(False, f'at w={w}, index {idx}: {f[idx]} != {want}')


def add(n1, n2, ax, nd):
    from dga import matsubara_frequencies as mf
    shp = [2, 3, 2][:nd]
    s1, s2 = list(shp), list(shp)
    s1[ax], s2[ax] = 2 * n1 + 1, 2 * n2 + 1
    a, b = tagged(s1), tagged(s2, base=1000)
    ka, kb = a.copy(), b.copy()
    r = mf.add_bosonic(a, b, axis=ax)
    n = max(n1, n2)
    s1[ax] = 2 * n + 1
    expect(r.shape == tuple(s1), f'shape {r.shape}')
    for w in range(-n, n + 1):
        want = 0
        if abs(w) <= n1:
            want = want + np.take(a, w + n1, axis=ax)
        if abs(w) <= n2:
            want = want + np.take(b, w + n2, axis=ax)
        same(np.take(r, w + n, axis=ax), want, f'sum at w={w}')
    same(a, ka, 'first operand')
    same(b, kb, 'second operand')
    if ax == 0:
        same(mf.add_bosonic(a, b), r, 'default axis')


def concat(ncore, nas, shape):
    from dga import matsubara_frequencies as mf
    full = tagged(tuple(shape) + (2 * (ncore + nas),))
    n = ncore + nas
    core = full[..., n - ncore:n + ncore]
    asy = np.concatenate((full[..., :nas], full[..., n + ncore:]), axis=-1)
    same(mf.concatenate_core_asmypt(core, asy), full, 'core between the asymptotic halves')
    same(mf.concatenate_core_asmypt(mf.cut_v(full, ncore, axes=(full.ndim - 1,)), mf.inv_cut_v(full, ncore, nas, axes=(full.ndim - 1,))), full, 'cut and join')


def run(ck):
    N = 6 if not ck.thorough else 10
    shapes = [(1,), (2, 3), (3, 2, 2), (2, 2, 3, 2), (1, 3, 2, 2, 2)]
    items = [(s, a) for s in shapes for a in range(-1, len(s))]
    ck.pcases(fermionic, [(f'fermionic:n={n},shape={s},axis={a}', (n, s, a)) for n in range(1, N + 1) for s, a in items])
    ck.pcases(bosonic, [(f'bosonic:n={n},shape={s},axis={a}', (n, s, a)) for n in range(0, N + 1) for s, a in items], trivial=lambda n, s, a: n == 0)
    ck.pcases(bosonic_axes, [(f'with_fermionic_axes:n={n},niv={v},axis={a},fermionic={o}', (n, v, a, o)) for n in range(0, N - 1) for v in (1, 2, 3)
                             for a in range(4) for r in range(0, 4) for o in itertools.combinations([x for x in range(4) if x != a], r)],
              trivial=lambda n, v, a, o: n == 0)
    ck.pcases(add, [(f'add:n1={a},n2={b},axis={x},ndim={d}', (a, b, x, d)) for a in range(0, N) for b in range(0, N) for d in (1, 2, 3) for x in range(-1, d)])
    ck.pcases(concat, [(f'concatenate:core={c},shell={s},shape={sh}', (c, s, sh)) for c in range(1, N) for s in range(1, N) for sh in ((), (2,), (2, 3))])
