"""Synthetic DMFT input, the complete program under any communicator, and its output as a dictionary."""
import contextlib
import io
import os
import sys

import numpy as np
from ruamel.yaml import YAML

from mc import ref, simmpi
from mc.bench import SYM
from mc.common import scratch

HR = (1.0, -0.2, 0.1)


def model(niv2, niw2, nsig, beta=4.0, u=1.6, n=0.85, mu=0.55, seed=0, hr=HR, asym=0.0, scale=0.8):
    """ impurity self-energy and two-particle Green functions that follow from small irreducible vertices.
        asym: violation of the v-v' symmetry by the (noisy) measurement """
    v = ref.nu(beta, np.arange(nsig))
    rng = np.random.default_rng(50 + seed)
    m1 = u ** 2 * n / 2 * (1 - n / 2)
    pos = u * n / 2 + 0.15 / (1 + v ** 2) - 1j * m1 * v / (v ** 2 + 0.9) + 0.02 * (rng.normal(size=nsig) + 1j * rng.normal(size=nsig)) / (1 + v ** 3)
    siw = ref.herm_f(pos)
    ek = band((24, 24, 1), hr)
    g = ref.gk(beta, ek, mu, siw).mean(axis=(0, 1, 2))
    out = {'n': n, 'beta': beta, 'u': u, 'mu_dmft': mu, 'siw': siw, 'giw': g}
    wn = np.arange(-niw2, niw2 + 1)
    x0 = ref.gchi0_loc(g, beta, niv2, wn)
    for i, ch in enumerate(('dens', 'magn')):
        gam = ref.small_gamma(niw2, niv2, beta, scale, 70 + seed + i)
        gam = gam + ref.ur(u, ch) / beta ** 2
        gg = np.array([[ref.fv(g, a) * ref.fv(g, b) for b in ref.fi(niv2)] for a in ref.fi(niv2)])
        x = np.array([np.linalg.inv(np.diag(1 / x0[w]) + gam[w]) for w in range(len(wn))])
        if asym:
            x = x + asym * (rng.normal(size=x.shape) + 1j * rng.normal(size=x.shape))
        g4 = x / beta
        if ch == 'dens':
            g4[niw2] += 2 * gg
        out[f'g4iw_{ch}'] = g4
    return out


def write_hr(path, hops):
    """ wannier90 file of one band; hops: {lattice vector: amplitude} """
    with open(path, 'w', encoding='utf-8') as f:
        f.write(f' written by hand\n 1\n {len(hops)}\n')
        for i in range(0, len(hops), 15):
            f.write('    1' * min(15, len(hops) - i) + '\n')
        for r, t in hops.items():
            f.write(f'{r[0]:5d}{r[1]:5d}{r[2]:5d}    1    1  {t.real:.6f}  {t.imag:.6f}\n')


def band(nk, hr):
    """ dispersion of model parameters or of a dictionary of hoppings """
    if not isinstance(hr, dict):
        return ref.ek2d(nk, *hr)
    out = np.zeros(nk, complex)
    for i in np.ndindex(*nk):
        out[i] = sum(t * np.exp(2j * np.pi * sum(r[c] * i[c] / nk[c] for c in range(3))) for r, t in hr.items())
    assert np.abs(out.imag).max() < 1e-12
    return out.real


def velocity(nk, hr, d):
    if not isinstance(hr, dict):
        t, tp, tpp = hr
        hr = {}
        for x, y in ((1, 0), (0, 1)):
            for s in (1, -1):
                hr[(s * x, s * y, 0)] = -t + 0j
                hr[(2 * s * x, 2 * s * y, 0)] = -tpp + 0j
                hr[(s, s if x else -s, 0)] = -tp + 0j
    out = np.zeros(nk, complex)
    for i in np.ndindex(*nk):
        out[i] = sum(1j * r[d] * t * np.exp(2j * np.pi * sum(r[c] * i[c] / nk[c] for c in range(3))) for r, t in hr.items())
    return out.real


def conf(nk=(4, 4, 1), nq=None, sym='sq', niw=2, niv=6, nsh=6, lam='spch', hr=HR, **extra):
    c = {'box_sizes': {'niw_core': niw, 'niv_core': niv, 'niv_shell': nsh},
         'lattice': {'symmetries': SYM.get(sym, sym), 'type': 'from_wannier90' if isinstance(hr, dict) else 't_tp_tpp', 'hr_input': hr if isinstance(hr, dict) else list(hr), 'nk': list(nk)},
         'dga': {'lambda_corr': lam}, 'dmft_input': {'type': 'default', 'input_path': None, 'fname_1p': 'dmft.npy', 'do_sym_v_vp': True}}
    if nq is not None:
        c['lattice']['nq'] = list(nq)
    for k, v in extra.items():
        c[k] = {**c.get(k, {}), **v}
    return c


class WorldComm:
    """ stands for COMM_WORLD: every simulated process sees its own communicator """
    default = None
    comms = None

    def _me(self):
        cur = simmpi.World.here()
        return self.default if cur is None or self.comms is None else self.comms[cur[1]]

    def __getattr__(self, name):
        return getattr(self._me(), name)


WORLD = WorldComm()


@contextlib.contextmanager
def quiet_plots():
    """ the figures are drawn but neither laid out nor written """
    import gc
    import matplotlib
    matplotlib.use('agg')
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    old = Figure.savefig, Figure.tight_layout, plt.tight_layout, plt.show, gc.collect
    Figure.savefig = lambda self, *a, **k: plt.close(self)
    Figure.tight_layout = lambda self, *a, **k: None
    plt.tight_layout = lambda *a, **k: None
    plt.show = lambda *a, **k: plt.close()
    gc.collect = lambda *a: 0      # explicit collections take longer than the calculation
    try:
        yield
    finally:
        Figure.savefig, Figure.tight_layout, plt.tight_layout, plt.show, gc.collect = old
        plt.close('all')


def prepare(d, cfg, data):
    """ input directory """
    os.makedirs(d, exist_ok=True)
    cfg = {k: dict(v) for k, v in cfg.items()}
    cfg['dmft_input']['input_path'] = d
    if cfg['lattice']['type'] == 'from_wannier90':
        write_hr(d + 'hr.dat', cfg['lattice']['hr_input'])
        cfg['lattice']['hr_input'] = d + 'hr.dat'
    with open(d + 'conf.yaml', 'w') as f:
        YAML().dump(cfg, f)
    np.save(d + 'dmft.npy', data, allow_pickle=True)


def program(d):
    """ the main program, for one process """
    def run():
        np.random.seed(11)
        from dga import dga_main
        dga_main.main()
    return run


@contextlib.contextmanager
def environment(d):
    """ COMM_WORLD, command line """
    import h5py
    from mpi4py import MPI
    old = MPI.COMM_WORLD, MPI.Finalize, sys.argv, h5py.File.__init__, os.getcwd()
    MPI.COMM_WORLD = WORLD
    MPI.Finalize = lambda: None
    sys.argv = ['dga_main', '-c', 'conf.yaml', '-p', d]

    def opened(self, *a, **k):
        cur = simmpi.World.here()
        if cur is not None and a and isinstance(a[0], (str, bytes, os.PathLike)):
            cur[0].point('h5py.File')
        old[3](self, *a, **k)
    h5py.File.__init__ = opened
    try:
        from dga import dga_main
        if hasattr(dga_main, 'comm'):
            dga_main.comm = WORLD
        with quiet_plots(), contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        MPI.COMM_WORLD, MPI.Finalize, sys.argv, h5py.File.__init__ = old[:4]


def load(path):
    a = np.load(path, allow_pickle=True)
    return a.item() if a.dtype == object and a.shape == () else a


def collect(d):
    """ everything a run leaves behind, except figures, log and timings """
    runs = [x for x in os.listdir(d) if os.path.isdir(d + x)]
    assert len(runs) == 1, runs
    base = d + runs[0] + '/'
    return collect_run(base), base


def collect_run(base):
    out = {}
    for r, dirs, files in os.walk(base):
        for x in dirs:
            out[os.path.relpath(r + '/' + x, base) + '/'] = None
        for f in files:
            p = r + '/' + f
            key = os.path.relpath(p, base)
            if f.endswith('.npy'):
                out[key] = load(p)
            elif f.endswith('.txt'):
                out[key] = np.loadtxt(p, delimiter=',' if f.startswith(('eigen', 'oz')) else None)
            elif f.endswith('.yaml'):
                out[key] = YAML(typ='safe').load(open(p))
            elif f.endswith(('.png', '.pdf', '.log')):
                out[key] = None
            else:
                with open(p, 'rb') as fh:
                    out[key] = fh.read()
    return out


def execute(cfg, data, n, **kw):
    """ complete run with n processes under one schedule -> (files, world) """
    with scratch() as d:
        d += 'in/'
        prepare(d, cfg, data)
        with environment(d):
            w = simmpi.World(n, **kw)
            WORLD.comms = simmpi.SimComm.create(w, n)
            try:
                w.run([program(d) for _ in range(n)])
            finally:
                WORLD.comms = None
        return collect(d)[0], w


def deviations(world, start=0):
    """ prefixes of all schedules that deviate once from the executed one, at step `start` or later """
    picks = [c[0] for c in world.choices]
    return [picks[:i] + [alt] for i in range(start, len(picks)) for alt in world.choices[i][1] if alt != picks[i]]
