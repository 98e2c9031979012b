"""C29: real-frequency meshes, kernels, transformation to the Matsubara axis and Kramers-Kronig relation."""
import numpy as np

from mc.common import close, expect, prod, raises, same

LEVEL = 'exploration'
RULE = ('mesh kinds x windows x numbers of points x cuts; kernels on every pair of mesh and Matsubara set, and the (linear) transformations '
        'on every basis spectrum and on complex combinations, against entry-by-entry sums; non-trivial: at least two mesh points')


def ref_mesh(kind, wmin, wmax, n, cut):
    """ mesh maps written point by point """
    out = []
    if kind == 'linear':
        return np.array([wmin + (wmax - wmin) * i / (n - 1) for i in range(n)])
    if kind == 'tan':
        t = np.tan(np.pi / 2.5)
        out = [np.tan(-np.pi / 2.5 + 2 * np.pi / 2.5 * i / (n - 1)) / t for i in range(n)]
        return np.array([wmin + (wmax - wmin) * (x + 1) / 2 for x in out])
    if kind == 'hyperbolic':
        m = np.sqrt(2.0) - 1
        for i in range(n):
            u = -1 + 2 * i / (n - 1)
            out.append((1 if u > 0 else -1 if u < 0 else 0) * (np.sqrt(1 + u * u) - 1) / m)
        return np.array([wmin + (wmax - wmin) * (x + 1) / 2 for x in out])
    # cell centres of a tangent grid with n cells, rescaled to the window
    e = [np.tan(np.pi * (j / n * (1 - 2 * cut) + cut - 0.5)) for j in range(n + 1)]
    c = np.array([(e[j] + e[j + 1]) / 2 for j in range(n)])
    return wmin + (wmax - wmin) * (c - c[0]) / (c[-1] - c[0])


def mesh_case(kind, wmin, wmax, n, cut):
    from dga import analytic_continuation as ac
    w = ac.get_w_mesh(kind, wmin, wmax, n, cut)
    expect(np.shape(w) == (n,), f'{np.shape(w)} points, expected {n}')
    expect(np.all(np.diff(w) > 0), 'the mesh is not increasing')
    close([w[0], w[-1]], [wmin, wmax], 'end points', rtol=1e-12)
    close(w, ref_mesh(kind, wmin, wmax, n, cut), 'mesh', rtol=1e-10)
    c = 0.5 * (wmin + wmax)
    close((w - c)[::-1], c - w, 'symmetry about the centre', rtol=1e-10, atol=1e-10)
    d = np.diff(w)
    if n > 2 and kind in ('tan', 'lorentzian'):
        h = d[:(n - 1 + 1) // 2]
        expect(np.all(np.diff(h) <= 1e-9 * (wmax - wmin)), 'the mesh must be densest in the centre')
    if kind == 'linear':
        close(d, np.full(n - 1, (wmax - wmin) / (n - 1)), 'spacing')
    from dga import config as conf
    if wmin == -wmax and n > 1:
        m = conf.MaxEntConfig(1.0, 5.0, {'mesh_type': kind, 'nwr': n, 'wmax': wmax, **({'cut': cut} if cut else {})})
        if kind != 'lorentzian' or cut:
            close(m.mesh, w, 'mesh of the configuration')


def refuse_case():
    from dga import analytic_continuation as ac
    for k in ('Tan', 'log', '', None):
        expect(raises(lambda: ac.get_w_mesh(k, -1, 1, 5, 0.1), ValueError), f'mesh kind {k!r} must be refused')
    expect(raises(lambda: ac.get_w_mesh('lorentzian', -1, 1, 5), AssertionError), 'Lorentzian mesh without cut')
    for k in ('freq-fermionic', 'time', '', None):
        expect(raises(lambda: ac.get_backtransform_kernel(np.array([0.5]), np.array([0.5]), k), NotImplementedError), f'kernel {k!r}')
    for k in ('x', None, 'Fermionic'):
        expect(raises(lambda: ac.kkt(np.ones(3), np.arange(3.0), k), ValueError), f'symmetry {k!r}')
    expect(raises(lambda: ac.MaxEnt(3.0, 'time_fermionic'), AssertionError), 'kernel of the controller')


MESHES = {
    'lin5': np.linspace(-2, 2, 5), 'lin4': np.linspace(-2, 2, 4), 'pos4': np.linspace(0, 3, 4), 'pos5': np.array([0.1, 0.4, 1.0, 2.5, 2.75]),
    'uneven': np.array([-3.0, -1.0, -0.25, 0.0, 0.5, 4.0]), 'one': np.array([0.7]), 'two': np.array([-1.0, 0.5]), 'shift': np.linspace(1.0, 2.0, 6),
}


def kern(re, im, kind):
    if kind == 'freq_fermionic':
        return 1.0 / (1j * im - re)
    if im == 0 and re == 0:
        return 1.0
    return re ** 2 / (re ** 2 + im ** 2)


def kernel_case(mesh, kind, beta, n):
    from dga import analytic_continuation as ac
    re = MESHES[mesh]
    im = np.pi / beta * (2 * np.arange(-n, n) + 1) if kind == 'freq_fermionic' else 2 * np.pi / beta * np.arange(-n, n + 1)
    k = ac.get_backtransform_kernel(re, im, kind)
    ref = np.array([[kern(x, y, kind) for x in re] for y in im])
    close(k, ref, 'kernel', rtol=1e-12)
    for sub in (slice(n, None), slice(n, n + 1), slice(0, 1)):
        close(ac.get_backtransform_kernel(re, im[sub], kind), ref[sub], 'kernel on a subset')


def trapz(y, x):
    return sum(0.5 * (y[i] + y[i + 1]) * (x[i + 1] - x[i]) for i in range(len(x) - 1)) if len(x) > 1 else 0.0


def basis(n, cplx):
    for i in range(n):
        e = np.zeros(n, complex if cplx else float)
        e[i] = 1.0
        yield e
        if cplx:
            yield 1j * e
    if cplx:
        yield np.arange(1, n + 1) * (1 - 0.5j) + 0.3j
    else:
        yield np.cos(np.arange(n)) - 0.2


def transform_case(mesh, kind, beta, n):
    from dga import analytic_continuation as ac
    re = MESHES[mesh]
    im = np.pi / beta * (2 * np.arange(n) + 1) if kind == 'freq_fermionic' else 2 * np.pi / beta * np.arange(n + 1)
    for cplx in (False, True):
        for f in basis(len(re), cplx):
            keep = f.copy()
            out = ac.transform_from_real_to_imag(f, re, im, kind)
            a = -(f.imag if cplx else f) / np.pi
            ref = np.array([trapz([kern(x, y, kind) * s for x, s in zip(re, a)], re) for y in im], dtype=complex)
            close(out, ref, f'transform of {f}', rtol=1e-12, atol=1e-14)
            expect(np.iscomplexobj(out), 'result must be complex')
            same(f, keep, 'input')


KINDS = {'fermionic_phsym': 's', 'symmetric': 's', 'bosonic': 'a', 'antisymmetric': 'a', 'fermionic': 'g', 'general': 'g'}


def kkt_case(lib, mesh, kind):
    from ana_cont import continuation as cont
    from dga import analytic_continuation as ac
    w = MESHES[mesh]
    n = len(w)
    cell = []
    for i in range(n):
        lo = w[0] if i == 0 else 0.5 * (w[i - 1] + w[i])
        hi = w[-1] if i == n - 1 else 0.5 * (w[i + 1] + w[i])
        cell.append(hi - lo)
    for f in basis(n, False):
        keep = f.copy()
        out = ac.kkt(f, w, kind) if lib == 'dga' else cont.GreensFunction(spectrum=f, wgrid=w, kind=kind).kkt()
        ref = np.zeros(n, complex)
        for j in range(n):
            for i in range(n):
                if i == j:
                    continue
                if KINDS[kind] == 'g':
                    ref[j] += cell[i] * f[i] / (w[j] - w[i])
                elif KINDS[kind] == 's':
                    ref[j] += 2 * cell[i] * w[i] * f[i] / (w[j] ** 2 - w[i] ** 2)
                else:
                    ref[j] += 2 * cell[i] * w[j] * f[i] / (w[j] ** 2 - w[i] ** 2)
        ref -= 1j * np.pi * f
        close(out, ref, 'Kramers-Kronig', rtol=1e-11, atol=1e-13)
        same(f, keep, 'input')


def consistency_case(mesh, n):
    """ the continuation reproduces its own spectrum, and the two routes to the Matsubara axis agree """
    from dga import analytic_continuation as ac
    w = ac.get_w_mesh(mesh, -8.0, 8.0, n, 0.04)
    a = 0.6 * ac.gauss_peak(0.7, 0.8, 1.0, w) + 0.4 * ac.gauss_peak(-1.2, 0.9, 1.0, w)
    close(a, 0.6 * np.exp(-(w - 0.7) ** 2 / (2 * 0.64)) / np.sqrt(2 * np.pi * 0.64)
          + 0.4 * np.exp(-(w + 1.2) ** 2 / (2 * 0.81)) / np.sqrt(2 * np.pi * 0.81), 'Gaussian peaks')
    close(ac.lorentzian_peak(0.3, 0.7, w), 0.7 / np.pi / ((w - 0.3) ** 2 + 0.49), 'Lorentzian peak')
    g = ac.kkt(a, w, 'fermionic')
    close(-g.imag / np.pi, a, 'spectrum of the continued function')
    iv = np.pi / 3 * (2 * np.arange(5) + 1)
    m1 = ac.transform_from_real_to_imag(g, w, iv)
    m2 = ac.transform_from_real_to_imag(-np.pi * a, w, iv)
    close(m1, m2, 'complex function and spectrum')
    ref = np.array([trapz(a / (1j * y - w), w) for y in iv])
    close(m1, ref, 'Hilbert transform')
    close(np.abs(m1[-1] * iv[-1]), 1.0, 'weight', rtol=0.1)
    sel = w < 0
    close(ac.check_filling(w, g), 2 * trapz(a[sel], w[sel]), 'filling below the Fermi level')


def run(ck):
    th = ck.thorough
    items = []
    ns = (2, 3, 4, 5, 8, 11, 50, 501) + ((6, 7, 9, 10, 100, 1001) if th else ())
    for kind, (wmin, wmax), n in prod(('linear', 'tan', 'hyperbolic', 'lorentzian'),
                                      ((-15, 15), (-4.0, 4.0), (0.0, 10.0), (-2.0, 7.0), (0.5, 1.5), (-5, 0)), ns):
        for cut in ((0.01, 0.04, 0.2, 0.4) if kind == 'lorentzian' else (None, 0.04)):
            items.append((f'mesh:{kind},{wmin},{wmax},{n},{cut}', (kind, wmin, wmax, n, cut)))
    ck.pcases(mesh_case, items)
    ck.case('refuse:unknown kinds', refuse_case)
    K = ('freq_fermionic', 'freq_bosonic')
    items = [(f'kernel:{m},{k},{b},{n}', (m, k, b, n)) for m, k, b, n in prod(MESHES, K, (1.0, 7.3), (1, 2, 5))]
    ck.pcases(kernel_case, items, trivial=lambda m, *a: m == 'one')
    items = [(f'transform:{m},{k},{b},{n}', (m, k, b, n)) for m, k, b, n in prod(MESHES, K, (1.0, 7.3), (1, 3))]
    ck.pcases(transform_case, items, trivial=lambda m, *a: m == 'one')
    for m, k in prod(MESHES, KINDS):
        if KINDS[k] != 'g' and MESHES[m][0] < 0:
            continue      # documented: only for non-negative frequencies
        for lib in ('dga', 'ana_cont'):
            ck.case(f'kkt:{lib},{m},{k}', kkt_case, lib, m, k, trivial=(m == 'one'))
    for mesh, n in prod(('linear', 'tan', 'hyperbolic', 'lorentzian'), (101, 200, 501)):
        ck.case(f'consistency:{mesh},{n}', consistency_case, mesh, n)
