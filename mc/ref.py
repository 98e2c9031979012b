"""
Independent reference model of the ladder-DGA equations (brute force, explicit frequency labels, nothing imported from
dga). Frequencies are integers: fermionic v <-> (2v+1)pi/beta, bosonic w <-> 2w pi/beta. F(n) arrays hold v=-n..n-1,
B(n) arrays hold w=-n..n.
"""
import itertools

import numpy as np


def fi(n):
    return range(-n, n)


def bi(n):
    return range(-n, n + 1)


def fv(arr, v):
    """ entry v of the last (fermionic) axis """
    n = arr.shape[-1] // 2
    if not -n <= v < n:
        raise KeyError(v)
    return arr[..., v + n]


def fwin(arr, lo, hi):
    n = arr.shape[-1] // 2
    if lo + n < 0 or hi + n > 2 * n:
        raise KeyError((lo, hi))
    return arr[..., lo + n:hi + n]


def nu(beta, v):
    return (2 * np.asarray(v) + 1) * np.pi / beta


def om(beta, w):
    return 2 * np.asarray(w) * np.pi / beta


def kplus(a, q):
    """ a[k] -> a[k+q] """
    nk = a.shape[:3]
    ix = [(np.arange(nk[i]) + q[i]) % nk[i] for i in range(3)]
    return a[np.ix_(*ix)]


def qlist(nk):
    return list(itertools.product(*map(range, nk)))


# ------------------------------------------------------------------------------------------------- one particle
def ek2d(nk, t, tp, tpp, tz=0.0):
    """ band as in the tight-binding definition: e(k) = -2t(cx+cy) - 4tp cx cy - 2tpp(c2x+c2y) """
    e = np.zeros(nk)
    for i in qlist(nk):
        kx, ky = 2 * np.pi * i[0] / nk[0], 2 * np.pi * i[1] / nk[1]
        e[i] = -2 * t * (np.cos(kx) + np.cos(ky)) - 4 * tp * np.cos(kx) * np.cos(ky) - 2 * tpp * (np.cos(2 * kx) + np.cos(2 * ky))
    return e


def gk(beta, ek, mu, sig):
    """ sig: [.., v] (local 1d or k-dependent); full symmetric range """
    n = sig.shape[-1] // 2
    v = nu(beta, np.arange(-n, n))
    return 1 / (1j * v + mu - ek[..., None] - sig)


def herm_f(pos):
    """ v>=0 -> full range by f(-v) = f(v)* """
    return np.concatenate((np.conj(pos[..., ::-1]), pos), axis=-1)


class Sigma:
    """ self-energy with analytic tail """
    def __init__(self, pos, beta, smom0=None, smom1=None, niv_core='estimate', err=1e-4):
        pos = np.asarray(pos)
        self.pos = pos[None, None, None, :] if pos.ndim == 1 else pos
        self.beta = beta
        n = self.pos.shape[-1]
        loc = self.pos.mean(axis=(0, 1, 2))
        nfit = max(4, int(0.2 * n))
        sel = np.arange(n)[n - nfit:]
        self.m0 = np.mean(loc[sel].real) if smom0 is None else smom0
        self.m1 = np.mean(loc[sel].imag * nu(beta, sel)) if smom1 is None else smom1
        if niv_core == 'estimate':
            tail = self.tail(np.arange(n))
            def first(dev):
                for i in range(n):
                    if dev[i] < err:
                        return i
                return n
            niv_core = min(max(first(np.abs(loc.real - tail.real)), first(np.abs(loc.imag - tail.imag)), 20), n)
        self.niv_core = niv_core

    def tail(self, v):
        return self.m0 + 1j * self.m1 / nu(self.beta, v)

    def get(self, niv):
        n = min(niv, self.niv_core)
        out = self.pos[..., :n]
        if niv > self.niv_core:
            t = self.tail(np.arange(self.niv_core, niv))
            out = np.concatenate((out, np.broadcast_to(t, self.pos.shape[:3] + t.shape)), axis=-1)
        return herm_f(out)


def filling(beta, ek, sig, m0, mu):
    """ 2/beta sum_v mean_k G with the static model summed analytically; sig on the full range """
    n = sig.shape[-1] // 2
    hloc = np.mean(ek)
    g = gk(beta, ek, mu, sig).mean(axis=(0, 1, 2))
    x = beta * (m0 + hloc - mu)
    dens = 1 / (1 + np.exp(x)) if x < 20 else np.exp(-x)
    gm = 1 / (1j * nu(beta, np.arange(-n, n)) + mu - hloc - m0)
    return 2 * (dens + np.sum(g.real - gm.real) / beta)


def find_mu(beta, ek, sig, m0, n, lo=-100., hi=100.):
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if filling(beta, ek, sig, m0, mid) < n:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


class Green:
    """ G on core + tail range """
    def __init__(self, sigma, ek, n=None, mu=None, niv_asympt=2000, niv_shell_mu=0):
        self.sigma, self.ek, self.beta = sigma, ek, sigma.beta
        s = sigma.get(sigma.niv_core + niv_shell_mu)
        self.mu = find_mu(self.beta, ek, s, sigma.m0, n) if mu is None else mu
        self.n = filling(self.beta, ek, s, sigma.m0, self.mu) if n is None else n
        self.niv = sigma.niv_core + niv_asympt
        self.full = gk(self.beta, ek, self.mu, sigma.get(self.niv))
        self.loc = self.full.mean(axis=(0, 1, 2))

    def ekin(self):
        return (np.sum(np.mean(self.ek[..., None] * self.full, axis=(0, 1, 2))) / self.beta).real

    def epot(self):
        s = self.sigma.get(self.niv) - self.sigma.m0
        return (np.sum(np.mean(s * self.full, axis=(0, 1, 2))) / self.beta).real + self.sigma.m0 * self.n / 2


# ------------------------------------------------------------------------------------------------- bubbles
def shifts(w, notation):
    if notation == 'plus':
        return 0, w
    if notation == 'minus':
        return 0, -w
    return w // 2, -(w // 2 + w % 2)


def gchi0_loc(g, beta, niv, wn, notation='minus'):
    out = np.zeros((len(wn), 2 * niv), complex)
    for i, w in enumerate(wn):
        a, b = shifts(int(w), notation)
        for v in fi(niv):
            out[i, v + niv] = -beta * fv(g, v + a) * fv(g, v + b)
    return out


def gchi0_q(gkf, beta, niv, wn, qs, notation='minus'):
    out = np.zeros((len(qs), len(wn), 2 * niv), complex)
    for iq, q in enumerate(qs):
        gq = kplus(gkf, q)
        for i, w in enumerate(wn):
            a, b = shifts(int(w), notation)
            p = fwin(gkf, -niv + a, niv + a) * fwin(gq, -niv + b, niv + b)
            out[iq, i] = -beta * p.reshape(-1, 2 * niv).mean(axis=0)
    return out


def tail_factors(mu, m0, m1, ek, q=None):
    a = mu - m0 - ek
    f3 = np.mean(a) ** 2 if q is None else np.mean(a * kplus(a, q))
    return np.mean(a), np.mean(a ** 2) - m1, f3


def tail_sum(beta, niv, w, notation, fac):
    a, b = shifts(int(w), notation)
    v = np.arange(-niv, niv)
    x, y = 1 / (1j * nu(beta, v + a)), 1 / (1j * nu(beta, v + b))
    return -np.sum(x * y - fac[0] * (x * x * y + x * y * y) + fac[1] * (x ** 3 * y + x * y ** 3) + fac[2] * x * x * y * y) / beta


def tail_exact(beta, w, fac):
    if w == 0:
        return beta / 4 - beta ** 3 / 24 * fac[1] - beta ** 3 / 48 * fac[2]
    return -beta / 2 / (1j * om(beta, w)) ** 2 * (fac[1] - fac[2])


# ------------------------------------------------------------------------------------------------- two particle
def ur(u, channel):
    return {'dens': u, 'updo': u, 'magn': -u, 'upup': -u}[channel]


def core(mat, n, axes=(-1,)):
    for ax in axes:
        m = mat.shape[ax] // 2
        mat = np.take(mat, range(m - n, m + n), axis=ax)
    return mat


def gchi_from_g2(g2, g, beta, channel, wn):
    n = g2.shape[-1] // 2
    gg = np.array([[fv(g, v) * fv(g, p) for p in fi(n)] for v in fi(n)])
    out = np.empty(g2.shape, complex)
    for i, w in enumerate(wn):
        out[i] = beta * (g2[i] - (2 * gg if channel == 'dens' and w == 0 else 0))
    return out


def gamma_urange(gchi, gchi0_full, beta, u_r):
    """ Gamma/beta^2 from the generalized susceptibility with the u-range treatment of the shell """
    n = gchi.shape[-1] // 2
    out = []
    for x, x0 in zip(gchi, gchi0_full):
        tilde = np.linalg.inv(np.diag(1 / x0) + u_r / beta ** 2)
        out.append(np.linalg.inv(x) - np.linalg.inv(core(tilde, n, (0, 1))) + u_r / beta ** 2)
    return np.array(out)


def chi_aux(gamma, gchi0_core, beta, u_r):
    """ same for local [w,v] and [q,w,v] bubbles """
    out = np.zeros(gchi0_core.shape + gchi0_core.shape[-1:], complex)
    for idx in np.ndindex(*gchi0_core.shape[:-1]):
        out[idx] = np.linalg.inv(np.diag(1 / gchi0_core[idx]) + gamma[idx[-1]] - u_r / beta ** 2)
    return out


def ladder(gamma, gchi0_full, beta, u, channel):
    """ -> aux, vrg, chi_urange for local or q-dependent bubbles; gamma: [w,v,v'] core """
    u_r = ur(u, channel)
    n = gamma.shape[-1] // 2
    x0c = core(gchi0_full, n)
    aux = chi_aux(gamma, x0c, beta, u_r)
    vrg = aux.sum(axis=-1) / x0c
    s = aux.sum(axis=(-1, -2)) / beta ** 2 + (gchi0_full.sum(axis=-1) - x0c.sum(axis=-1)) / beta ** 2
    chi = 1 / (1 / s + u_r)
    return aux, vrg, chi


def embed(gamma, n_full, val):
    n = gamma.shape[-1] // 2
    out = np.full(gamma.shape[:-2] + (2 * n_full, 2 * n_full), val, complex)
    d = n_full - n
    out[..., d:d + 2 * n, d:d + 2 * n] = gamma
    return out


def f_urange(gamma, gchi0_full, beta, u_r):
    """ F/beta^2 = (1 + Gamma chi0)^-1 Gamma on the full box """
    n = gchi0_full.shape[-1] // 2
    g = embed(gamma, n, u_r / beta ** 2)
    return np.array([np.linalg.inv(np.eye(2 * n) + gi * x0[None, :]) @ gi for gi, x0 in zip(g, gchi0_full)])


def sde_local(vrg, chi, g, beta, u, channel, niv_shell, wn):
    """ one channel of the local Schwinger-Dyson equation """
    u_r = ur(u, channel)
    n = vrg.shape[-1] // 2
    out = np.zeros(2 * (n + niv_shell), complex)
    for v in fi(n + niv_shell):
        for i, w in enumerate(wn):
            if -n <= v < n:
                out[v + n + niv_shell] += u_r / 2 / beta * (1 - (1 - u_r * chi[i]) * vrg[i, v + n]) * fv(g, v - w)
            else:
                out[v + n + niv_shell] += u ** 2 / 2 / beta * chi[i] * fv(g, v - w)
    return out


def sde_kernel(vrg_d, vrg_m, chi_d, chi_m, kdc, u):
    kd = u / 2 * (1 - (1 - u * chi_d[..., None]) * vrg_d)
    km = -u / 2 * (1 - (1 + u * chi_m[..., None]) * vrg_m)
    return kd + 3 * km - kdc


def sde_q(kernel, gkf, beta, wn, qs, nq):
    n = kernel.shape[-1] // 2
    out = np.zeros(gkf.shape[:3] + (2 * n,), complex)
    for iq, q in enumerate(qs):
        gq = kplus(gkf, q)
        for i, w in enumerate(wn):
            out += kernel[iq, i] * fwin(gq, -n - w, n - w)
    return out / (beta * nq)


def sde_q_shell(chi, gkf, beta, u, wn, qs, nq, n_core, n_shell):
    out = np.zeros(gkf.shape[:3] + (2 * n_shell,), complex)
    for iq, q in enumerate(qs):
        gq = kplus(gkf, q)
        for i, w in enumerate(wn):
            win = np.concatenate((fwin(gq, -n_core - n_shell - w, -n_core - w), fwin(gq, n_core - w, n_core + n_shell - w)), axis=-1)
            out += u ** 2 / 2 * chi[iq, i] * win
    return out / (beta * nq)


def kernel_dc(f, gchi0q_full, u_r, n_core):
    out = np.einsum('wvp,qwp->qwv', f, gchi0q_full) * u_r
    return core(out, n_core)


# ------------------------------------------------------------------------------------------------- test bed
def small_gamma(niw, niv, beta, scale, seed):
    """ weak irreducible vertex with the symmetries of a single-band SU(2) system:
        Gamma(w,v,v') = Gamma(w,v',v), Gamma(-w,-v,-v')=Gamma(w,v,v')* """
    rng = np.random.default_rng(seed)
    wn, v = np.arange(-niw, niw + 1), np.arange(-niv, niv)
    a = rng.normal(size=(niw + 1, 2 * niv, 2 * niv)) + 1j * rng.normal(size=(niw + 1, 2 * niv, 2 * niv))
    x = 2 * v + 1
    damp = 1 / (1 + 0.05 * (x[:, None] ** 2 + x[None, :] ** 2))
    out = np.zeros((2 * niw + 1, 2 * niv, 2 * niv), complex)
    for w in range(niw + 1):
        m = scale / beta ** 2 * (a[w] + a[w].T) * damp / (1 + w)
        if w == 0:
            m = 0.5 * (m + np.conj(m[::-1, ::-1]))
        out[niw + w] = m
        out[niw - w] = np.conj(m[::-1, ::-1])
    return out
