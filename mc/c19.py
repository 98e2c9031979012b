"""C19: lambda correction: the corrected ladder susceptibilities fulfil the sum rules on the physical branch."""
import itertools

import numpy as np

from mc.common import close, det, expect, raises

LEVEL = 'exploration'
RULE = ('all susceptibilities with values from a grid (including diverged, i.e. negative, static ones), all sum-rule targets from a grid, '
        'meshes and bosonic ranges in the stated ranges; the sum rule is evaluated independently; non-trivial: more than one value')
EPS = 5e-7


def total(chi, lam, beta):
    return np.mean(np.sum(1 / (1 / chi + lam), axis=-1)) / beta


def pole(chi):
    return -np.min(1 / chi[..., chi.shape[-1] // 2].real)


def check_root(chi, lam, target, beta, what):
    expect(np.isreal(lam) and np.isfinite(lam), f'{what}: lambda {lam!r}')
    expect(lam > pole(chi), f'{what}: lambda {lam} is not on the physical branch (> {pole(chi)})')
    got = total(chi, lam, beta)
    expect(abs(got - target) < EPS * max(1, abs(target)), f'{what}: sum {got} != target {target} (lambda {lam}, pole {pole(chi)})')
    mid = (1 / (1 / chi + lam))[..., chi.shape[-1] // 2].real
    expect(np.all(mid > 0), f'{what}: static susceptibility not positive')


def single(chi, target, beta, delta):
    from dga import lambda_correction as lc
    chi = np.array(chi)
    keep = chi.copy()
    s = lc.get_lambda_start(chi)
    close(s, pole(chi), 'start of the search')
    kw = {} if delta is None else {'delta': delta}
    lam = lc.lambda_correction_single(beta, lambda_start=s, chir=chi, chi_loc_sum=target, **kw)
    check_root(chi, lam, target, beta, 'single')
    close(lc.use_lambda(chi, lam), 1 / (1 / keep + lam), 'corrected susceptibility')
    close(lc.use_lambda(chi, 0.0), keep, 'no correction')
    close(lc.use_lambda(chi), keep, 'no correction')
    close(chi, keep, 'input not modified')


def grid_single(q, w, beta, deltas, targets, vals, side):
    """ all value assignments at q momenta x (2w+1) frequencies; symmetric in frequency """
    for static in itertools.combinations_with_replacement(vals, q):
        for dyn in itertools.product(side, repeat=w):
            mid = np.array(static, float)
            if mid.max() < 0 and False:
                continue
            pos = np.abs(mid)[:, None] * 0 + np.array(dyn)[None, :] * np.minimum(np.abs(mid), 1.)[:, None]
            if w and pole(mid[:, None]) > 0 and np.any(1 / pos < np.min(1 / mid)):
                continue
            chi = np.concatenate((pos[:, ::-1], mid[:, None], pos), axis=1)
            for t in targets:
                for d in deltas:
                    single(chi, t, beta, d)


def both(nk, niw, scheme, seed, beta, neg, cplx):
    from dga import lambda_correction as lc
    shape = nk + (2 * niw + 1,)
    om = 2 * np.pi / beta * np.arange(-niw, niw + 1)
    a = 1 + np.abs(det(nk, seed).real)[..., None]
    d = (0.4 / (a + om ** 2)) * 1.5
    m = 1 / (a * 0.5 + om ** 2 - (0.6 if neg else 0.2))
    if cplx:
        z = det(shape, seed + 3).imag * 0.05
        z = z - z[..., ::-1]
        d, m = d + 1j * z, m - 1j * z
    ld = np.mean(d, axis=tuple(range(len(nk)))).real * 0.9 + 0.01
    lm = np.abs(np.mean(m, axis=tuple(range(len(nk)))).real) * 0.5 + 0.2
    args = [x.copy() for x in (d, m, ld, lm)]
    out = lc.lambda_correction(d, m, beta, ld, lm, *((scheme,) if scheme is not None else ()))
    s = 'spch' if scheme is None else scheme
    for x, y in zip((d, m, ld, lm), args):
        close(x, y, 'input not modified')
    cd, cm, lamd, lamm = out
    if s == 'none':
        expect(lamd == 0 and lamm == 0, 'no correction requested')
    elif s == 'spch':
        check_root(d, lamd, np.sum(ld) / beta, beta, 'dens')
        check_root(m, lamm, np.sum(lm) / beta, beta, 'magn')
    else:
        expect(lamd == 0, 'density channel is not corrected')
        t = np.sum(ld + lm) / beta - np.mean(np.sum(d, axis=-1)) / beta
        check_root(m, lamm, t.real, beta, 'magn')
        close((np.mean(np.sum(cd + cm, axis=-1)) / beta).real, np.sum(ld + lm) / beta, 'Pauli sum rule', rtol=2e-6)
    close(cd, 1 / (1 / d + lamd), 'corrected density susceptibility')
    close(cm, 1 / (1 / m + lamm), 'corrected magnetic susceptibility')


def unknown(name):
    from dga import lambda_correction as lc
    c = np.ones((2, 3))
    expect(raises(lambda: lc.lambda_correction(c, c, 1., c[0], c[0], name)), f'unknown scheme {name!r} accepted')


def run(ck):
    T = ck.thorough
    vals = (0.05, 0.7, 4., 300., -2., -0.3) + ((1e4, -50.) if T else ())
    side = (0.02, 0.6)
    targets = (0.01, 0.2, 1.5, 40.)
    items = [(f'grid:q={q},w={w},beta={b},targets={t}', (q, w, b, (None, 1.0, 1e-3), (t,), vals, side))
             for q in (1, 2, 3) + ((4,) if T else ()) for w in (0, 1, 2) for b in (1., 12.5) for t in targets]
    ck.pcases(grid_single, items, trivial=lambda q, w, *a: q == 1 and w == 0)
    n = sum(1 for _ in items)
    ck.pcases(both, [(f'scheme:{s},nk={k},niw={w},beta={b},neg={g},cplx={c},seed={d}', (k, w, s, d, b, g, c)) for s in ('spch', 'sp', 'none', None)
                     for k in ((1,), (4,), (2, 2, 1), (3, 2, 2)) for w in (0, 1, 4) for b in (2., 15.) for g in (False, True) for c in (False, True) for d in (0, 1)],
              trivial=lambda k, w, *a: k == (1,))
    ck.pcases(unknown, [(f'unknown:{n!r}', (n,)) for n in ('', 'SP', 'ch', 'spchx', None, 'dens')], trivial=lambda n: True)
