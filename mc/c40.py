"""C40: only the values of the data matter, not their number type or memory layout."""
import numpy as np

from mc import c39, pipe
from mc.common import Fail, expect

LEVEL = 'exploration'
RULE = ('every registered call of the library x every memory layout (axes in Fortran order, every second entry of a larger array, reversed views, read-only, '
        'foreign byte order, extra axis views) of all its arrays at once and of each array alone, and every number type of whole-numbered scalars and arrays; complete runs '
        'with every combination of number types of their input; non-trivial: the layout differs from the one of the reference')


TOL = 1e-7      # chemical potentials are found iteratively

# ---------------------------------------------------------- layouts -----------------------------------------------------------------

def l_fortran(a):
    return np.asfortranarray(a)


def l_strided(a):
    """ every second entry of an array twice as large in each direction """
    if a.ndim == 0:
        return a
    big = np.full([2 * n + 1 for n in a.shape], 17, dtype=a.dtype)
    v = big[tuple(slice(1, 2 * n + 1, 2) for n in a.shape)]
    v[...] = a
    return v


def l_reversed(a):
    """ stored backwards """
    r = a[tuple(slice(None, None, -1) for _ in a.shape)].copy()
    return r[tuple(slice(None, None, -1) for _ in a.shape)]


def l_last(a):
    """ the last axis is stored first """
    return np.moveaxis(np.ascontiguousarray(np.moveaxis(a, -1, 0)), 0, -1) if a.ndim > 1 else l_strided(a)


def l_readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def l_swapped(a):
    """ as read from a file of a machine with the other byte order """
    return a.astype(a.dtype.newbyteorder()) if a.dtype.kind in 'fc' else a


LAYOUTS = {'fortran': l_fortran, 'strided': l_strided, 'reversed': l_reversed, 'last first': l_last, 'read-only': l_readonly, 'byte order': l_swapped}
OWN = {'frozen'}        # calls whose purpose is to change arrays of their own object


def relay(x, f, memo=None, depth=0):
    """ the same object with all its arrays in another layout """
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)][1]
    if isinstance(x, np.ndarray):
        if x.dtype == object or x.size == 0:
            return x
        y = f(x)
        assert y.shape == x.shape and np.array_equal(y, x, equal_nan=x.dtype.kind in 'fc')
    elif isinstance(x, dict):
        y = {k: relay(v, f, memo, depth + 1) for k, v in x.items()}
    elif isinstance(x, (list, tuple)):
        y = type(x)(relay(v, f, memo, depth + 1) for v in x)
    elif type(x).__module__.startswith(('dga', 'ana_cont')) and hasattr(x, '__dict__') and depth < 6:
        memo[id(x)] = (x, x)
        for k, v in vars(x).items():
            x.__dict__[k] = relay(v, f, memo, depth + 1)
        return x
    else:
        return x
    memo[id(x)] = (x, y)
    return y


class Seen(dict):
    """ remembers which of the shared objects a call uses """

    def __init__(self, *a):
        super().__init__(*a)
        self.used = []

    def __getitem__(self, k):
        if k not in self.used:
            self.used.append(k)
        return super().__getitem__(k)


def layout_case(name, lay):
    def go():
        s = Seen(c39.world())
        ref = c39.plain(c39.call(name, s))
        w = c39.world()
        for k in w:
            w[k] = relay(w[k], LAYOUTS[lay])
        c39.compare(c39.plain(c39.call(name, w)), ref, f'{name} with arrays in layout {lay}', TOL)
        if len(s.used) > 1:
            for k in s.used:
                w = c39.world()
                w[k] = relay(w[k], LAYOUTS[lay])
                c39.compare(c39.plain(c39.call(name, w)), ref, f'{name} with {k} in layout {lay}', TOL)
    c39.isolated(go)


# -------------------------------------------------------- number types --------------------------------------------------------------

SCALARS = {'int': int, 'int64': np.int64, 'int32': np.int32, 'float': float, 'float64': np.float64, 'array': lambda x: np.array(float(x)), 'int array': np.array}
ARRAYS = {'int64': np.int64, 'int32': np.int32, 'complex': complex}
RAW = ('siw', 'siwk', 'x0', 'm2', 'm4', 'k3', 'kirr', 'fbz', 'gap', 'gkpp', 'chimat', 'gmat', 'giw', 'gk', 'dc', 'x0q', 'aux', 'fcond', 'swk', 'gz', 'ek', 'chi_dens', 'chi_magn',
       'chiq_dens', 'chiq_magn', 'vrgq_dens', 'vrgq_magn', 'pair')
SKIP_COMPLEX = set()


def whole_world(beta, u, dtype=None, keys=RAW, vertices=True):
    """ the shared objects at whole-numbered temperature and interaction; optionally with whole-numbered arrays of a type """
    c39.BETA, c39.U = beta, u
    w = c39.world()
    if dtype is not None:
        for k in keys:
            w[k] = whole(w[k], dtype)
        w['ddict'] = dict(w['ddict'], **{k: whole(w['ddict'][k], dtype) for k in ('g4iw_dens', 'g4iw_magn')})
        if vertices:
            from dga import local_four_point as lfp, wannier
            for ch in ('dens', 'magn'):
                for k, cls in (('gchi_', lfp.LocalFourPoint), ('gam_', lfp.LocalFourPoint), ('lam_', lfp.LocalThreePoint), ('vrg_', lfp.LocalThreePoint)):
                    o = w[k + ch]
                    w[k + ch] = cls(ch, whole(o.mat, dtype), beta, u, wn=np.array(o.wn))
            t = [dtype(x) for x in (1, -1, 2)]
            w['hr'] = wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(*t))
    return w


def whole(a, dtype):
    """ whole numbers between -9 and 9 of comparable structure """
    x = np.round(4 * np.real(a)) % 10
    x = np.where(x == 0, 3, x)
    return np.ascontiguousarray(x).astype(dtype)


def outcome(name, w):
    try:
        with np.errstate(all='ignore'):
            return c39.plain(c39.call(name, w)), None
    except Fail:
        raise
    except Exception as e:      # pylint: disable=broad-except
        return None, e


def scalar_case(name, kind):
    """ temperature and interaction as another number type """
    def go():
        ref, e = outcome(name, whole_world(3.0, 2.0))
        if e is not None:
            return
        for b, u in ((3, 2.0), (3.0, 2), (3, 2)):
            w = whole_world(SCALARS[kind](b) if isinstance(b, int) else b, SCALARS[kind](u) if isinstance(u, int) else u)
            got, e = outcome(name, w)
            expect(e is None, f'{name} with beta, u = {c39.BETA!r}, {c39.U!r}: {type(e).__name__}: {e}')
            c39.compare(numbers(got), numbers(ref), f'{name} with beta, u = {c39.BETA!r}, {c39.U!r}', TOL)
    c39.isolated(go)


def array_case(name, kind):
    def go():
        s = Seen(whole_world(3.0, 2.0, float))
        ref, e = outcome(name, s)
        if e is not None:
            return
        got, e = outcome(name, whole_world(3.0, 2.0, ARRAYS[kind]))
        expect(e is None, f'{name} with {kind} data: {type(e).__name__}: {e}')
        c39.compare(numbers(got), numbers(ref), f'{name} with {kind} data', TOL)
        for k in s.used:
            if k in RAW and kind != 'complex':
                w = whole_world(3.0, 2.0, float)
                w[k] = w[k].astype(ARRAYS[kind])
                got, e = outcome(name, w)
                expect(e is None, f'{name} with {kind} {k}: {type(e).__name__}: {e}')
                c39.compare(numbers(got), numbers(ref), f'{name} with {kind} {k}', TOL)
    c39.isolated(go)


def numbers(x):
    """ values without their number type """
    if isinstance(x, np.ndarray) and x.dtype.kind in 'iufcb':
        return x.astype(complex)
    if isinstance(x, dict):
        return {k: numbers(v) for k, v in x.items()}
    if isinstance(x, list):
        return [numbers(v) for v in x]
    if isinstance(x, (int, float, complex, np.number)) and not isinstance(x, bool):
        return complex(x)
    return x


# ------------------------------------------------------- complete runs --------------------------------------------------------------

def run_data(hr):
    from mc import c03
    kw, _ = c03.CFG['full']
    cfg = pipe.conf(**kw)
    cfg['lattice']['hr_input'] = list(hr)
    b = cfg['box_sizes']
    return cfg, pipe.model(b['niv_core'] + 1, b['niw_core'] + 1, 60, beta=4.0, u=2.0, n=1.0, mu=1.0, hr=tuple(float(x) for x in hr))


def program(kind, which):
    cfg, data = run_data([1.0, -1.0, 0.0])
    for k in which:
        if k == 'hr':
            cfg['lattice']['hr_input'] = [int(x) for x in cfg['lattice']['hr_input']]
        elif k in LAYOUTS:
            for a in ('siw', 'giw', 'g4iw_dens', 'g4iw_magn'):
                data[a] = LAYOUTS[k](data[a])
        else:
            data[k] = SCALARS[kind](data[k])
    out = pipe.execute(cfg, data, 1)[0]
    out['wannier_hr.dat'] = np.array([float(x) for x in out['wannier_hr.dat'].split(b'\n', 1)[1].split()])     # without the sign of zeros
    return out


REF = {}


def run_case(kind, which):
    from mc import c03
    got = c39.isolated(lambda: program(kind, which))
    c03.compare(got, REF['run'], f'run with {kind} {which}')


def run(ck):
    th = ck.thorough
    ck.assumptions.append('results are compared up to the accuracy of the arithmetic (1e-7 relative to the largest entry)')
    c39.register()
    names = list(c39.OPS)
    ck.count('calls', len(names))
    ck.pcases(layout_case, [(f'layout:{n},{k}', (n, k)) for n in names for k in LAYOUTS], chunk=8)
    ck.pcases(scalar_case, [(f'scalar:{n},{k}', (n, k)) for n in names for k in (SCALARS if th else ('int', 'int64', 'array'))], chunk=8, trivial=lambda n, k: k == 'float')
    ck.pcases(array_case, [(f'array:{n},{k}', (n, k)) for n in names for k in ARRAYS], chunk=8)
    REF['run'] = c39.isolated(lambda: program('float', ()))
    runs = [('float', (k,)) for k in LAYOUTS if k in ('fortran', 'byte order')]
    for kind in SCALARS if th else ('int', 'int64', 'array'):
        runs += [(kind, k) for k in (('n',), ('beta',), ('u',), ('mu_dmft',), ('n', 'beta', 'u', 'mu_dmft', 'hr'))]
    runs.append(('int', ('hr',)))
    ck.pcases(run_case, [(f'run:{k},{"+".join(w)}', (k, w)) for k, w in runs], chunk=1)
