"""C34: Pade approximants are exact on rational functions and interpolate the input."""
import itertools

import numpy as np

from mc.common import close, expect, prod, raises, same

LEVEL = 'exploration'
RULE = ('every subset of a pole set x assignments of residues x temperature x start of the sampled Matsubara frequencies x solver; all '
        'selections of points in a box; non-trivial: at least two poles')
POLES = (0.0, 0.9, -1.4, 0.3 - 0.4j, 2.1 - 0.1j, -0.7 - 1.0j)
RES = (1.0, 0.35, 0.8)
WOUT = np.array([-2.0, -0.65, 0.05, 0.4, 1.3, 3.0])


def func(poles, res):
    return lambda z: sum(r / (np.asarray(z) - p) for p, r in zip(poles, res))


def points(beta, start, n):
    return np.pi / beta * (2 * np.arange(start, start + n) + 1)


def thiele_case(poles, res, beta, start):
    """ as many coefficients as points: 2 points per pole """
    from dga import pade_aux as pa
    f = func(poles, res)
    n = 2 * len(poles)
    v = points(beta, start, n)
    z = 1j * v
    zout = np.concatenate((WOUT + 0.3j, 1j * points(beta, 0, 12) * 1.1, -0.5 + 0.2j + WOUT))
    fz = f(z)
    keep = fz.copy()
    out = pa.padeThiele(z, fz, zout)
    close(out.astype(complex), f(zout), 'Thiele', rtol=1e-4)
    close(pa.padeThiele(z, fz[:, None], zout).astype(complex), out.astype(complex), 'data as column', rtol=1e-12)
    sv = pa.PadeSolver(v, WOUT + 0.3j, fz)
    r = sv.solve()
    close(r.g_ret, f(WOUT + 0.3j), 'solver', rtol=1e-3)
    close(r.A_opt, -f(WOUT + 0.3j).imag / np.pi, 'spectrum', rtol=1e-3)
    close(r.numerator / r.denominator, r.g_ret, 'numerator over denominator')
    close(r.numerator_function(zout) / r.denominator_function(zout), f(zout), 'function of the approximant', rtol=1e-3)
    expect(len(r.ivcheck) == 500 and r.ivcheck[0] == 0 and abs(r.ivcheck[-1] - 2 * v.max()) < 1e-12, 'default check axis')
    ok = r.ivcheck > 0.05
    close(r.check[ok], f(1j * r.ivcheck[ok]), 'check on the imaginary axis', rtol=1e-3)
    close(sv.check(v[:3] * 1.01), f(1.01j * v[:3]), 'check on a given axis', rtol=1e-3)
    same(fz, keep, 'input')


def matrix_case(poles, res, beta, start, extra):
    from dga import pade_aux as pa
    f = func(poles, res)
    n = 2 * len(poles)
    z = 1j * points(beta, start, n + extra)
    zout = np.concatenate((WOUT + 0.3j, 1j * points(beta, 0, 12) * 1.1))
    x = pa.padeMatrix(z, f(z), n)
    expect(np.shape(x) == (n,), f'{np.shape(x)} coefficients')
    close(pa.epade(zout, x).astype(complex), f(zout), 'matrix formulation', rtol=1e-3)
    # coefficients: numerator, then denominator without the leading one
    den = np.poly(poles)[::-1]
    num = np.zeros(len(poles), complex)
    for i, r in enumerate(res):
        p = r * np.atleast_1d(np.poly([q for j, q in enumerate(poles) if j != i]))[::-1]
        num[:len(p)] += p
    close(x, np.concatenate((num, den[:-1])), 'coefficients', rtol=1e-3)


def epade_case(coef):
    from dga import pade_aux as pa
    x = np.array(coef, complex)
    r = len(x) // 2
    z = np.array([0.0, 1.0, -2.0 + 1j, 0.3j, 5.0])
    ref = [sum(x[i] * t ** i for i in range(r)) / (sum(x[r + i] * t ** i for i in range(r)) + t ** r) for t in z]
    close(pa.epade(z, x).astype(complex), np.array(ref), 'rational function', rtol=1e-13)


def interp_case(n, k):
    """ arbitrary data: Thiele's fraction passes through every point """
    from dga import pade_aux as pa
    rng = np.random.default_rng(k)
    z = 1j * points(3.0, 0, n)
    f = rng.normal(size=n) + 1j * rng.normal(size=n)
    close(pa.padeThiele(z, f, z).astype(complex), f, 'values at the nodes', rtol=1e-6)
    a = pa.compute_coefficients(z, f)
    if n > 1:
        close(pa.C(z, z, f, a), f, 'values at the nodes (recursive)', rtol=1e-4)
    # order of the nodes does not matter
    zo = np.array([0.4 + 1j, 2j, -1 + 0.5j])
    ref = pa.padeThiele(z, f, zo).astype(complex)
    for p in (itertools.permutations(range(n)) if n <= 4 else (range(n)[::-1],)):
        p = list(p)
        close(pa.padeThiele(z[p], f[p], zo).astype(complex), ref, f'order {p}', rtol=1e-4)


def columns_case(solver, ncol, beta):
    from dga import pade_aux as pa
    sets = list(itertools.combinations(POLES, 2))[:ncol]
    fs = [func(s, RES[:2]) for s in sets]
    z = 1j * points(beta, 0, 4)
    zout = WOUT + 0.3j
    out = pa.acPade(z, np.array([f(z) for f in fs]).T, 4, zout, solver)
    expect(np.shape(out) == (len(zout), ncol), f'shape {np.shape(out)}')
    for i, f in enumerate(fs):
        close(out[:, i].astype(complex), f(zout), f'column {i}', rtol=1e-3)


def refuse_case():
    from dga import pade_aux as pa
    z = 1j * points(2.0, 0, 6)
    f = func((0.5, -1.0), (1.0, 1.0))(z)[:, None]
    for n in (1, 3, 5):
        expect(raises(lambda: pa.acPade(z, f, n, WOUT + 1j, 0), SystemExit), f'odd number of coefficients {n}')
    for n in (2, 4, 8):
        expect(raises(lambda: pa.acPade(z, f, n, WOUT + 1j, 1), SystemExit), f'{n} coefficients for 6 points')
    for s in (-1, 3, None):
        expect(raises(lambda: pa.acPade(z, f, 4, WOUT + 1j, s), SystemExit), f'solver {s}')
    up = np.conj(f) * np.ones((1, 1))
    expect(raises(lambda: pa.pade(1j * points(2.0, 0, 100), -func((0.5,), (1.0,))(1j * points(2.0, 0, 100))[:, None], WOUT + 0.1j), SystemExit), 'unphysical data')


def pick_case(nz, nmin, m, cols):
    from dga import pade_aux as pa
    z = 1j * points(2.0, 0, nz)
    f = np.array([func((p, p - 0.2j), (1.0, 0.4))(z) for p in POLES[:3]]).T
    zp, fp = pa.pick_points(z, f, nmin, m, list(cols))
    idx = [i for i in range(nmin, nmin + m)]
    ref_z = [z[i] if i >= 0 else np.conj(z[-i - 1]) for i in idx]
    ref_f = [[f[i, c] if i >= 0 else np.conj(f[-i - 1, c]) for c in cols] for i in idx]
    same(zp, np.array(ref_z), 'points')
    same(fp, np.array(ref_f), 'values')
    expect(np.all(np.diff(zp.imag) > 0), 'points must be in ascending order')


def bethe(half, shift):
    def f(z):
        z = np.asarray(z) - shift
        return 2 / half ** 2 * (z - 1j * np.sign(z.imag) * np.sqrt(half ** 2 - z ** 2 + 0j))
    return f


def driver_case(half, shift, beta):
    """ many continuations, the physical ones that agree best are averaged """
    from dga import pade_aux as pa
    f = bethe(half, shift)
    z = 1j * points(beta, 0, 100)
    zout = WOUT + 0.5j
    mean, fs, masks = pa.pade(z, np.array([f(z)]).T, zout)
    expect(mean.shape == (len(zout), 1) and fs.shape[1:] == (len(zout), 1) and masks.shape == (len(fs), 1), 'shapes')
    expect(np.all(fs.imag <= 0), 'unphysical continuation kept')
    if len(fs) > 1:
        n = len(fs)
        d = np.array([sum(np.abs(fs[i, :, 0].imag - fs[j, :, 0].imag).sum() for j in range(n)) for i in range(n)])
        best = np.argsort(d)[:int(0.51 * n)]
        mask = np.zeros(n, bool)
        mask[best] = True
        mask &= d <= 0.99 * np.mean(d)
        same(masks[:, 0].astype(bool), mask, 'selected continuations')
    close(mean[:, 0].astype(complex), fs[masks[:, 0].astype(bool), :, 0].mean(0).astype(complex), 'average of the selected', rtol=1e-10)


def average_case(vals, first):
    """ few physical continuations among many unphysical ones: call number first + 2 i returns a physical one with value vals[i] """
    import unittest.mock as mock
    from dga import pade_aux as pa
    zout = WOUT + 0.5j
    base = np.exp(-WOUT ** 2)
    phys = [v.real * base - 1j * (0.1 + v.imag * base) for v in vals]
    calls = []

    def stub(z, f, n, zo, solver):
        k = len(calls)
        calls.append((len(z), n))
        i, odd = divmod(k - first, 2)
        return (phys[i] if k >= first and not odd and i < len(phys) else base + 0.1j)[:, None]
    z = 1j * points(5.0, 0, 100)
    with mock.patch.object(pa, 'acPade', stub):
        mean, fs, masks = pa.pade(z, 1 / z[:, None], zout)
    expect(len(calls) > first + 2 * len(vals), 'too few continuations')
    same(fs[:, :, 0], np.array(phys), 'physical continuations')
    mask = masks[:, 0].astype(bool)
    expect(mask.any(), 'no continuation is averaged')
    close(mean[:, 0], fs[mask, :, 0].mean(0), 'average of the selected', rtol=1e-12)
    n = len(vals)
    d = np.array([sum(np.abs(a.imag - b.imag).sum() for b in phys) for a in phys])
    if n > 1 and d.min() < 0.98 * d.mean():     # some agree better than others
        expect(d[mask].max() <= d.mean() and mask.sum() <= max(1, int(0.51 * n)), 'a continuation far from the others is averaged')


def run(ck):
    th = ck.thorough
    items, mitems = [], []
    for k in (1, 2, 3):
        for ps in itertools.combinations(POLES, k):
            for res in prod(*[RES + ((0.5, -0.6) if th else ())] * k):
                for beta, start in prod((2.0, 5.0) + ((3.0, 8.0) if th else ()), (0, 1, 3)):
                    key = f'{ps},{res},{beta},{start}'
                    items.append((f'thiele:{key}', (ps, res, beta, start)))
                    for ex in (0, 1, 4):
                        mitems.append((f'matrix:{key},+{ex}', (ps, res, beta, start, ex)))
    ck.pcases(thiele_case, items, trivial=lambda p, *a: len(p) == 1)
    ck.pcases(matrix_case, mitems, trivial=lambda p, *a: len(p) == 1)
    vals = (0.0, 1.0, -0.5j)
    for k in (1, 2):
        for c in prod(*[vals] * (2 * k)):
            if abs(c[k]) > 0:       # no pole at the origin
                ck.case(f'rational:{c}', epade_case, c, trivial=(k == 1))
    for n, k in prod(range(1, 9), range(4)):
        ck.case(f'nodes:{n},{k}', interp_case, n, k, trivial=(n == 1))
    for s, n, b in prod((0, 1), (1, 2, 3, 5), (2.0, 5.0)):
        ck.case(f'columns:{s},{n},{b}', columns_case, s, n, b)
    ck.case('refuse:invalid requests', refuse_case)
    for nz, nmin, m in prod((6, 12), range(-4, 5), range(1, 8)):
        if nmin + m > nz or m < -nmin or nmin < -nz:
            continue
        for cols in ((0,), (1,), (0, 2), (2, 0, 1)):
            ck.case(f'pick:{nz},{nmin},{m},{cols}', pick_case, nz, nmin, m, cols)
    ck.pcases(driver_case, [(f'driver:{p},{r},{b}', (p, r, b)) for p, r in ((2.0, 0.0), (1.0, 0.3), (3.0, -0.5))
                            for b in (5.0, 2.0)])
    avals = (0.3 + 0.2j, -0.5 + 0.2j, 0.1 + 1.5j) + ((0.7j,) if th else ())
    for n in range(1, 6 if th else 5):
        for v in prod(*[avals] * n):
            ck.case(f'average:{v}', average_case, v, n % 3, trivial=(n == 1))
