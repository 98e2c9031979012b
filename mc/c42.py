"""C42: equivalent descriptions of the same system give the same results of a complete run."""
import itertools

import numpy as np

from mc import c04, pipe
from mc.common import close, expect

LEVEL = 'exploration'
RULE = ('systems (bands without, with partial and with full symmetry; meshes; box sizes; lambda corrections; optional parts) x equivalent '
        'descriptions (unit of energy, origin of energy, names and directions of the lattice axes, origin of the Brillouin zone, particles '
        'and holes) and pairs of them: all stored quantities of the complete run are compared with those of the original description')

MESH = ('siwk_dga.npy', 'giwk_dga.npy')
QMESH = ('chi_dens_lam.npy', 'chi_magn_lam.npy')
POWER = {'siwk_dga.npy': 1, 'giwk_dga.npy': -1, 'chi_dens_lam.npy': -1, 'chi_magn_lam.npy': -1, 'lambda.txt': 1, 'mu.txt': 1,
         'UniformStaticSusceptibility.txt': -1, 'Eliashberg/eigenvalues.txt': 0, 'Optics/chijj_bubble.npy': 1, 'Optics/chijj_vert.npy': 1}


class System:
    """ one description: band, impurity data, config and how its results are obtained from those of the first description """

    def __init__(self, hops, data, kw):
        self.hops, self.data, self.kw = dict(hops), dict(data), {k: dict(v) if isinstance(v, dict) else v for k, v in kw.items()}
        self.back = []

    def then(self, f):
        self.back.append(f)
        return self

    def expected(self, ref):
        out = {k: np.array(ref[k]) for k in POWER if k in ref}
        for f in self.back:
            out = {k: f(k, v) for k, v in out.items()}
        return out


def unit(s, x):
    """ all energies in units that are x times smaller """
    s.hops = {r: t * x for r, t in s.hops.items()}
    d = s.data
    d.update(beta=d['beta'] / x, u=d['u'] * x, mu_dmft=d['mu_dmft'] * x, siw=d['siw'] * x, giw=d['giw'] / x)
    for c in ('g4iw_dens', 'g4iw_magn'):
        d[c] = d[c] / x ** 2
    s.scale = x
    return s.then(lambda k, v: v * float(x) ** POWER[k])


def origin(s, e):
    """ energies counted from another zero """
    s.hops[(0, 0, 0)] = s.hops.get((0, 0, 0), 0j) + e
    s.data['mu_dmft'] += e
    return s.then(lambda k, v: v + e if k == 'mu.txt' else v)


def axes(s, perm):
    """ lattice axes in another order: new axis i is the old axis perm[i] """
    s.hops = {tuple(r[p] for p in perm): t for r, t in s.hops.items()}
    for k in ('nk', 'nq'):
        if s.kw.get(k):
            s.kw[k] = tuple(s.kw[k][p] for p in perm)
    if 'optics' in s.kw:
        inv = [perm.index(i) for i in range(3)]
        for k in ('der_a', 'der_b'):
            s.kw['optics'][k] = inv[s.kw['optics'].get(k, 0)]
    return s.then(lambda k, v: np.transpose(v, (*perm, 3)) if k in MESH + QMESH else v)


def reflect(s, ax):
    """ one lattice axis in the opposite direction """
    s.hops = {tuple(-x if i == ax else x for i, x in enumerate(r)): t for r, t in s.hops.items()}
    sign = 1
    if 'optics' in s.kw:
        sign = (-1) ** ((s.kw['optics'].get('der_a', 0) == ax) + (s.kw['optics'].get('der_b', 0) == ax))

    def f(k, v):
        if k in MESH + QMESH:
            return np.roll(np.flip(v, ax), 1, axis=ax)
        return sign * v if k.startswith('Optics') else v
    return s.then(f)


def shift(s, q):
    """ momenta counted from q (in units of pi along the axes): the gauge of the electrons alternates from site to site """
    s.hops = {r: t * (-1) ** sum(a * b for a, b in zip(r, q)) for r, t in s.hops.items()}
    nk = s.kw['nk']
    return s.then(lambda k, v: np.roll(v, [-a * n // 2 for a, n in zip(q, nk)], axis=(0, 1, 2)) if k in MESH else v)


def holes(s):
    """ holes instead of electrons """
    s.hops = {r: -t for r, t in s.hops.items()}
    d = s.data
    u = d['u']
    d.update(n=2 - d['n'], mu_dmft=u - d['mu_dmft'], siw=u - np.conj(d['siw']), giw=-np.conj(d['giw']))
    for c in ('g4iw_dens', 'g4iw_magn'):
        d[c] = np.conj(d[c])

    def f(k, v):
        if k == 'siwk_dga.npy':
            return u - np.conj(v)
        if k == 'giwk_dga.npy':
            return -np.conj(v)
        if k == 'mu.txt':
            return u - v
        return np.conj(v)
    return s.then(f)


OPS = {'unit': unit, 'origin': origin, 'axes': axes, 'reflect': reflect, 'shift': shift, 'holes': holes}
STEPS = {
    'all': [('unit', 2.0), ('unit', 0.25), ('unit', 16.0), ('origin', 0.5), ('origin', -3.0), ('holes',), ('shift', (1, 1, 0))],
    'none': [('axes', (1, 0, 2)), ('reflect', 0), ('reflect', 1), ('shift', (1, 0, 0)), ('shift', (0, 1, 0))],
    'solid': [('axes', (2, 1, 0)), ('axes', (1, 2, 0)), ('reflect', 2), ('shift', (0, 0, 1))],
}
OPT = {'do_bubble': True, 'do_vertex': True}
PAIR = {'do_pairing_vertex': True, 'do_eliash': True, 'n_eig': 1, 'eps': 1e-12}
SYSTEMS = {
    'square': ('file', dict(sym='sq', nk=(4, 4, 1)), {}),
    'square,coarse': ('file', dict(sym='sq', nk=(8, 8, 1), nq=(4, 4, 1), lam='sp'), {}),
    'chain': ('q1d', dict(sym='none', nk=(4, 6, 1), niw=1, niv=4, nsh=10), {}),
    'oblique': ('inv', dict(sym='none', nk=(6, 4, 1), niw=2, niv=4, nsh=6, lam='sp'), {}),
    'inversion': ('inv', dict(sym='inv', nk=(4, 4, 1), niw=2, niv=4, nsh=6), {}),
    'chiral': ('cplx', dict(sym='none', nk=(4, 4, 1), nq=(4, 2, 1), niw=1, niv=4, nsh=6, lam='none'), dict(n=0.7)),
    'solid': ('cplx', dict(sym='none', nk=(4, 6, 4), niw=1, niv=3, nsh=5), {}),
    'optics': ('inv', dict(sym='none', nk=(4, 6, 1), niw=3, niv=4, nsh=2, optics=dict(OPT, der_a=0, der_b=1)), {}),
    'optics,xx': ('q1d', dict(sym='none', nk=(6, 4, 1), niw=3, niv=4, nsh=2, optics=OPT), {}),
    'pairing': ('file', dict(sym='sq', nk=(4, 4, 1), niw=4, niv=4, nsh=1, pairing=PAIR), {}),
    'pairing,chain': ('q1d', dict(sym='none', nk=(4, 6, 1), niw=4, niv=4, nsh=1, pairing=PAIR), {}),
}


def build(name):
    band, kw, mod = SYSTEMS[name]
    hops = c04.BANDS[band]
    cfg = pipe.conf(hr=hops, **kw)
    b = cfg['box_sizes']
    return System(hops, pipe.model(b['niv_core'] + 1, b['niw_core'] + 1, 60, hr=hops, **mod), kw)


def results(s):
    cfg = pipe.conf(hr=s.hops, **s.kw)
    return pipe.execute(cfg, {k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in s.data.items()}, 1)[0]


REF = {}


def case(name, steps):
    s = build(name)
    s.scale = 1.0
    for op, *arg in steps:
        s = OPS[op](s, *arg)
    want = s.expected(REF[name])
    got = results(s)
    expect(set(want) == {k for k in POWER if k in got}, f'stored {sorted(k for k in POWER if k in got)} instead of {sorted(want)}')
    for k, w in want.items():
        g = np.asarray(got[k])
        if k in ('lambda.txt', 'mu.txt'):
            close(g, w, k, rtol=1e-6, atol=3e-6 * max(1, s.scale))
        elif k == 'UniformStaticSusceptibility.txt':
            continue      # few digits
        else:
            close(g, w, k, rtol=1e-6)


def steps_of(name):
    out = list(STEPS['all'])
    if 'none' in SYSTEMS[name][1]['sym']:
        out += STEPS['none'] + (STEPS['solid'] if name == 'solid' else [])
    return out


def run(ck):
    t = ck.thorough
    import dga.dga_main  # noqa: F401
    items = []
    for name in SYSTEMS:
        REF[name] = results(build(name))
        one = steps_of(name)
        plan = [(x,) for x in one]
        if t:
            plan += [p for p in itertools.permutations(one, 2) if p[0][0] != p[1][0]]
        else:
            plan += [tuple(one[-1 - i] for i in range(2)), (('holes',), ('shift', (1, 1, 0))), (('unit', 2.0), ('origin', 0.5), ('holes',))]
        items += [(f'{name}:{"; ".join(" ".join(map(str, x)) for x in p)}', (name, p)) for p in plan]
    ck.pcases(case, items, chunk=1)
    ck.assumptions += ['stored energies are left out: the extent of the asymptotic range is chosen with a fixed absolute tolerance',
                       'meshes with an even number of points along shifted axes']
