"""Real configuration objects and process-local communicators for the checks of the assembly routines."""
import numpy as np

from mc.common import det


class P:
    """ communicator seen by one process that performs no collective operation (and trivial ones in a world of one) """

    def __init__(self, rank=0, size=1):
        self.rank, self.size = rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def barrier(self):
        pass

    Barrier = barrier

    def bcast(self, x, root=0):
        assert self.rank == root
        return x


SYM = {'none': 'none', 'sq': 'two_dimensional_square', 'q1d': 'quasi_one_dimensional_square', 'inv': 'simultaneous_x_y_inversion'}


def make_cfg(nk, sym, niw, niv, nsh=0, u=1.3, beta=2.7, n=0.9, out=None, comm=None, nq=None, hr=(1.0, -0.2, 0.1), siw=None, **extra):
    """ a real configuration, as parsed from a file """
    from dga import config as conf
    cf = {'box_sizes': {'niw_core': niw, 'niv_core': niv, 'niv_shell': nsh},
          'lattice': {'type': 't_tp_tpp', 'hr_input': list(hr), 'nk': list(nk), 'nq': list(nq or nk), 'symmetries': SYM[sym]}}
    cf.update(extra)
    cfg = conf.DgaConfig(cf, comm=comm or P())
    nv = niv + nsh + 2 * niw + 4
    z = np.zeros(2 * nv, complex) if siw is None else siw
    cfg.set_system_parameter({'n': n, 'beta': beta, 'u': u, 'mu_dmft': 0.2, 'giw': z, 'siw': z})
    if out is not None:
        import os
        cfg.output_path = out
        cfg.pdir = out
        for o in (cfg.eliash, cfg.optics):
            o.output_path = out
        cfg.create_logger()
        del os
    return cfg


def ladder_data(nq, niw, niv, seed):
    """ generic auxiliary susceptibilities, three-leg vertices and bubbles per channel """
    s = (nq, 2 * niw + 1)
    out = {}
    for i, ch in enumerate(('dens', 'magn')):
        out[ch] = (det(s + (2 * niv, 2 * niv), seed + 10 * i), det(s + (2 * niv,), seed + 10 * i + 1))
    return out, det(s + (2 * niv,), seed + 50) + 2.0


def components(aux, vrg, x0, beta, u, ch):
    """ f1, f2 of the ladder vertex, entry by entry formula """
    u_r = {'dens': 1, 'magn': -1}[ch] * u
    n = x0.shape[-1]
    f1 = np.zeros(aux.shape, complex)
    f2 = np.zeros(aux.shape, complex)
    for v in range(n):
        for p in range(n):
            f1[..., v, p] = beta ** 2 / x0[..., v] * ((1.0 if v == p else 0.0) - aux[..., v, p] / x0[..., p])
            f2[..., v, p] = u_r * vrg[..., v] * vrg[..., p]
    return f1, f2
