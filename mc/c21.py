"""C21: filling and chemical potential are consistent on the imaginary and the real axis."""
import numpy as np

from mc import ref
from mc.common import close, det, expect, raises

LEVEL = 'exploration'
RULE = ('all bands, meshes, temperatures, self-energies and fillings / chemical potentials of the grids; an independent bisection is the '
        'oracle; non-trivial: more than one k-point')


def band(kind, nk):
    if kind == 'cuprate':
        return ref.ek2d(nk, 0.25, -0.06, 0.03)
    if kind == 'flat':
        return np.full(nk, 0.3)
    return ref.ek2d(nk, 1.0, 0.2, 0.0) + 0.7


def sigma(kind, n, beta, fill, u=2.0):
    v = ref.nu(beta, np.arange(n))
    if kind == 'free':
        return np.zeros(n, complex), 0.
    if kind == 'hartree':
        return np.full(n, u * fill / 2, complex), u * fill / 2
    if kind == 'metal':
        return u * fill / 2 + 0.3 / (1j * v + 0.5j), u * fill / 2
    return u * fill / 2 + 0.6 / (1j * v), u * fill / 2     # insulator


def imag_n(kind, nk, beta, skind, fill, shell):
    """ given filling -> chemical potential -> filling """
    from dga import two_point as twop
    ek = band(kind, nk)
    n = 40
    pos, m0 = sigma(skind, n, beta, fill)
    s = twop.SelfEnergy(pos, beta, pos=True, smom0=m0)
    o = twop.GreensFunction(s, ek, n=fill, niv_asympt=8, niv_shell_mu_find=shell)
    sg = s.get_siw(s.niv_core + shell)
    expect(o.n == fill, 'filling not kept')
    f = ref.filling(beta, ek, sg, m0, o.mu)
    expect(abs(f - fill) < 1e-4, f'filling {f} at mu={o.mu} instead of {fill} (expected mu={ref.find_mu(beta, ek, sg, m0, fill)})')
    iv = 1j * ref.nu(beta, np.arange(-s.niv_core - shell, s.niv_core + shell))
    got = twop.get_fill(iv=iv, hk=ek, siwk=sg, beta=beta, smom0=m0, hloc=np.mean(ek), mu=o.mu)
    close(got[0], f, 'filling')
    close(got[1], f / 2, 'occupation per spin')
    # and back
    b = twop.GreensFunction(s, ek, mu=o.mu, niv_asympt=8, niv_shell_mu_find=shell)
    close(b.n, f, 'filling from the chemical potential')
    close(b.core, ref.gk(beta, ek, o.mu, s.sigma_core), "Green's function at the chemical potential")
    close(o.core, ref.gk(beta, ek, o.mu, s.sigma_core), "Green's function at the chemical potential")
    for mu0 in (-1.0, 2.0):
        mu = twop.update_mu(mu0=mu0, target_filling=fill, iv=iv, hk=ek, siwk=sg, beta=beta, smom0=m0)
        f = ref.filling(beta, ek, sg, m0, mu)
        expect(abs(f - fill) < 1e-4, f'filling {f} instead of {fill} (start {mu0})')


def free(kind, nk, beta, mu, n):
    """ non-interacting electrons: Fermi function, particle-hole symmetry """
    from dga import two_point as twop
    ek = band(kind, nk)
    fills = []
    for sign in (1, -1):
        s = twop.SelfEnergy(np.zeros(n, complex), beta, pos=True, smom0=0., smom1=0., niv_core=n)
        fills.append(twop.GreensFunction(s, sign * ek, mu=sign * mu, niv_asympt=2).n)
    close(fills[0] + fills[1], 2., 'particle-hole symmetry', rtol=1e-8)
    exact = 2 * np.mean(1 / (1 + np.exp(beta * (ek - mu))))
    w = np.max(np.abs(ek)) + abs(mu) + 1
    expect(abs(fills[0] - exact) < 8 * w ** 3 * (beta / np.pi / 2 / n) ** 3 + 1e-10, f'filling {fills[0]} != {exact}')


def bad(_):
    from dga import two_point as twop
    s = twop.SelfEnergy(np.zeros(8, complex), 2., pos=True, niv_core=8)
    expect(raises(lambda: twop.GreensFunction(s, np.zeros((1, 1, 1)))), 'neither mu nor n accepted')
    w = np.linspace(-1, 1, 5)
    expect(raises(lambda: twop.RealFrequencyGF(w, np.zeros((1, 1, 1, 5)), np.zeros((1, 1, 1)))), 'neither mu nor n accepted')


def real_axis(kind, nk, nw, delta, fill, local):
    from dga import two_point as twop
    ek = band(kind, nk)
    half = np.max(np.abs(ek)) + 6
    w = np.linspace(-half, half, nw)
    base = (0.05 / (w[None, None, None, :] + 0.5j) + 0.2) * np.ones((1, 1, 1, 1) if local else nk + (1,))
    keep = base.copy()
    o = twop.RealFrequencyGF(w, base, ek, n=fill, deltino=delta)
    close(base, keep, 'input not modified')
    mu = float(np.squeeze(o.mu))
    s = base - 1j * delta
    g = 1 / (w + mu - ek[..., None] - s)
    close(o.gwk(), g, "Green's function")
    sel = w <= 0
    a = -g.imag / np.pi
    y, x = a.mean(axis=(0, 1, 2))[sel], w[sel]
    f = 2 * np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(x))
    close(twop.get_filling_real_f(w, o.gwk()), f, 'filling')
    expect(abs(f - fill) < 5e-3, f'filling {f} instead of {fill}')
    close(o.awk(), a, 'spectral function')
    close(o.gw, g.mean(axis=(0, 1, 2)), 'local')
    close(o.aw, a.mean(axis=(0, 1, 2)), 'local spectral function')
    h = (-(nk[0] // 2), -(nk[1] // 2), 0)
    close(o.gwk(pi_shift=True), ref.kplus(g, h), 'shifted by pi')
    close(o.awk(pi_shift=True), ref.kplus(a, h), 'shifted by pi')
    i0 = np.argmin(np.abs(w))
    close(o.fs(), a[..., i0], 'Fermi surface')
    b = twop.RealFrequencyGF(w, base, ek, mu=mu, deltino=delta)
    close(b.n, f, 'filling from the chemical potential')
    close(b.gwk(), g, "Green's function from the chemical potential")
    tb = o.get_gwk_tb(deltino=0.1)
    close(tb.n, o.n, 'tight-binding reference keeps the filling')
    m = float(np.squeeze(tb.mu))
    close(tb.gwk(), np.broadcast_to(1 / (w + m - ek[..., None] + 0.1j), tb.gwk().shape), 'tight-binding reference')


def primitive(kind, nk, beta, skind, mu, start, n):
    """ plain frequency sum: filling 2 (T sum G + 1/2) of the given box, and the search started nearby finds the filling again """
    from dga import two_point as twop
    ek = band(kind, nk)
    pos, _ = sigma(skind, n, beta, 0.9)
    sg = np.concatenate((np.conj(pos[::-1]), pos))[None, None, None, :]
    iv = 1j * ref.nu(beta, np.arange(-n, n))

    def fill(m):
        g = [np.mean([1 / (x + m - e - sg[0, 0, 0, i]) for e in ek.ravel()]) for i, x in enumerate(iv)]
        return 2 * (np.sum(g).real / beta + 0.5), np.array(g)

    f, g = fill(mu)
    got = twop.get_fill_primitive(g, beta)
    close(np.real(got), f, 'filling of the plain sum')
    close(np.imag(got), 0.0, 'filling must be real', atol=1e-9)
    close(twop.root_fun_primitive(mu, f - 0.3, iv, ek, sg, beta), 0.3, 'function of the root search', atol=1e-9)
    keep = sg.copy()
    m = twop.update_mu_primitive(mu0=mu + start, target_filling=f, iv=iv, hk=ek, siwk=sg, beta=beta, smom0=0.0)
    expect(np.isrealobj(m), 'chemical potential must be real')
    close(fill(m)[0], f, f'filling at the chemical potential {m} found from {mu + start}', atol=1e-4)
    close(sg, keep, 'self-energy')


def run(ck):
    T = ck.thorough
    meshes = [(1, 1, 1), (2, 2, 1), (4, 4, 1), (3, 2, 2)] + ([(8, 8, 1)] if T else [])
    fills = (0.1, 0.5, 0.85, 1.0, 1.15, 1.7, 1.95)
    betas = (2., 10., 40.) + ((100.,) if T else ())
    ck.pcases(imag_n, [(f'imag:{k},nk={nk},beta={b},{s},n={f},shell={h}', (k, nk, b, s, f, h)) for k in ('cuprate', 'wide', 'flat') for nk in meshes for b in betas
                       for s in ('free', 'hartree', 'metal', 'insulator') for f in fills for h in (0, 50)], trivial=lambda k, nk, *a: nk == (1, 1, 1))
    ck.pcases(free, [(f'free:{k},nk={nk},beta={b},mu={m},niv={n}', (k, nk, b, m, n)) for k in ('cuprate', 'wide', 'flat') for nk in meshes for b in betas
                     for m in (-1.5, -0.4, 0., 0.3, 2.) for n in (50, 200)], trivial=lambda k, nk, *a: nk == (1, 1, 1))
    ck.pcases(real_axis, [(f'real:{k},nk={nk},nw={w},delta={d},n={f},local={l}', (k, nk, w, d, f, l)) for k in ('cuprate', 'wide') for nk in meshes
                          for w in (401, 1000) for d in (0.03, 0.1) for f in (0.3, 0.85, 1.0, 1.5) for l in (True, False)], trivial=lambda k, nk, *a: nk == (1, 1, 1))
    ck.pcases(primitive, [(f'primitive:{k},{nk},{b},{s},mu={m},start={d},{n}', (k, nk, b, s, m, d, n)) for k in ('cuprate', 'wide', 'flat')
                          for nk in meshes[:4] for b in betas[:2] for s in ('free', 'metal', 'insulator') for m in (0.3, 0.7, 1.2)
                          for d in (-0.1, 0.0, 0.05) for n in (20, 60)])
    ck.case('bad:all', bad, 0, trivial=True)
