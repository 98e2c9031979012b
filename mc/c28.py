"""C28: batches of analytic continuations: a failing momentum never affects the others, whatever the distribution or history."""
import contextlib
import itertools

import numpy as np

from mc.common import close, det, expect, prod, same, Fail
from mc.simmpi import SimComm, explore
from mc.bench import P

LEVEL = 'fault_enumeration'
RULE = ('kernel x number of rows x every subset of failing rows x kind of failure x number of processes x schedules (preemption '
        'bounded) x sequences of batches on one controller; the solver is real or replaced by a recording stand-in, failures are '
        'injected at the solver; settings and frequencies handed to the solver compared with the configuration')

SET = {'nwr': 11, 'wmax': 4.0, 'wmin': -4.0, 'n_fit': 4, 'err': 1e-2, 'mesh_type': 'linear', 'bw': 0.0}
FAULTS = {'value': ValueError('x'), 'linalg': np.linalg.LinAlgError('svd'), 'runtime': RuntimeError('no convergence'),
          'zero': ZeroDivisionError(), 'float': FloatingPointError('overflow'), 'memory': MemoryError(), 'assert': AssertionError()}


class Sol:
    def __init__(self, a, chi2=1.0):
        self.A_opt = a
        self.chi2 = chi2
        self.backtransform = a


@contextlib.contextmanager
def solver(bad=(), exc=None, real=False, where='solve', log=None):
    """ the solver underneath, with injected failures for the rows in `bad` (recognised by their data) """
    from ana_cont import continuation as cont
    cls = cont.AnalyticContinuationProblem
    oi, os_ = cls.__init__, cls.solve
    badkeys = [np.asarray(b) for b in bad]

    def isbad(data):
        data = np.asarray(data).ravel()
        return any(abs(data[0] - b) < 1e-9 for b in badkeys)

    def init(self, im_axis=None, re_axis=None, im_data=None, kernel_mode=None, beta=1.0, **kw):
        self._rec = dict(im_axis=np.array(im_axis), re_axis=np.array(re_axis), im_data=np.array(im_data), kernel_mode=kernel_mode, beta=beta)
        if where == 'init' and isbad(im_data):
            raise exc
        if real:
            oi(self, im_axis=im_axis, re_axis=re_axis, im_data=im_data, kernel_mode=kernel_mode, beta=beta, **kw)

    def solve(self, **kw):
        if log is not None:
            log.append((self._rec, dict(kw)))
        if where == 'solve' and isbad(self._rec['im_data']):
            raise exc
        if real:
            return os_(self, **kw)
        r = self._rec
        a = np.array([np.sum(np.abs(r['im_data']) * np.cos((j + 1) * np.arange(1, len(r['im_data']) + 1))) for j in range(len(r['re_axis']))])
        return Sol(a), [Sol(a)]

    cls.__init__, cls.solve = init, solve
    try:
        yield
    finally:
        cls.__init__, cls.solve = oi, os_


def data(kernel, rows, real=False):
    """ Matsubara data of every row over the full symmetric range """
    n = 6
    if not real:
        m = 2 * n if kernel == 'freq_fermionic' else 2 * n + 1
        x = det((rows, m), 5)
        return x
    out = []
    w = np.linspace(-4, 4, 201)
    for i in range(rows):
        a = np.exp(-(w - 0.3 * i + 0.5) ** 2) + 0.4 * np.exp(-(w + 1 + 0.2 * i) ** 2 / 0.5)
        a /= np.trapz(a, w)
        if kernel == 'freq_fermionic':
            iv = 1j * np.pi / 3.0 * (2 * np.arange(-n, n) + 1)
            out.append(np.trapz(a / (iv[:, None] - w), w, axis=-1))
        else:
            iw = 2 * np.pi / 3.0 * np.arange(-n, n + 1)
            p = w[w >= 0]
            b = np.exp(-(p - 1 - 0.2 * i) ** 2)
            k = np.where((p ** 2 + iw[:, None] ** 2) > 0, p ** 2 / np.maximum(p ** 2 + iw[:, None] ** 2, 1e-300), 1.0)
            out.append(np.trapz(k * b, p, axis=-1).astype(complex))
    return np.array(out)


def ctrl(kernel, comm, **kw):
    from dga import analytic_continuation as ac
    s = dict(SET)
    s.update(kw)
    return ac.MaxEnt(3.0, kernel, comm=comm, me_config=s)


def first(kernel, x):
    """ value by which the injected failure recognises a row """
    return x[np.size(x) // 2]


def singles(kernel, mat, real):
    with solver(real=real):
        m = ctrl(kernel, P())
        return [np.array(m.cont_single_ind(x)) for x in mat]


def check_rows(res, kernel, bad, ref, nw, what):
    expect(isinstance(res, np.ndarray) and res.shape == (len(ref), nw), f'{what}: shape {np.shape(res)}, expected {(len(ref), nw)}')
    want = complex if kernel == 'freq_fermionic' else float
    expect(res.dtype == np.dtype(want), f'{what}: type {res.dtype}, expected {np.dtype(want)}')
    for i, r in enumerate(ref):
        if i in bad:
            expect(not np.any(res[i]), f'{what}: failing row {i} is not zero: {res[i][:3]}')
        else:
            close(res[i], r, f'{what}: row {i} (failing rows: {sorted(bad)})', rtol=1e-10)


def serial_case(kernel, rows, bad, kind, where, real):
    mat = data(kernel, rows, real)
    ref = singles(kernel, mat, real)
    keep = mat.copy()
    with solver([first(kernel, mat[i]) for i in bad], FAULTS[kind], real, where):
        m = ctrl(kernel, P())
        res = m.analytic_continuation(mat)
        check_rows(res, kernel, bad, ref, 11, 'batch')
        res2 = m.analytic_continuation(mat)
        same(res2, res, 'repeated batch')
    same(mat, keep, 'input')


def history_case(kernel, perm, bad):
    """ batches of one controller in any order: every row only depends on its own data """
    mat = data(kernel, 4)
    ref = singles(kernel, mat, False)
    with solver([first(kernel, mat[i]) for i in bad], FAULTS['value']):
        m = ctrl(kernel, P())
        for batch in perm:
            res = m.analytic_continuation(mat[list(batch)])
            check_rows(res, kernel, {j for j, i in enumerate(batch) if i in bad}, [ref[i] for i in batch], 11, f'batch {batch}')


def mpi_case(kernel, rows, size, bad, bound, sync, real=False, kind='value'):
    """ bound None: the two schedules run-to-block and round-robin """
    from dga import analytic_continuation as ac, mpi_aux
    mat = data(kernel, rows, real)
    ref = singles(kernel, mat, real)

    def progs(w):
        out = []
        for c in SimComm.create(w, size):
            def body(c=c):
                d = mpi_aux.MpiDistributor(ntasks=rows, comm=c, name='MaxEntIrrk')
                m = ctrl(kernel, c)
                r = ac.mpi_ana_cont(mat.copy() if c.rank == 0 else None, m, d, 'x')
                r2 = ac.mpi_ana_cont(mat[::-1].copy() if c.rank == 0 else None, m, d, 'y')
                return (r, r2) if c.rank == 0 else None
            out.append(body)
        return out

    def done(w, res):
        check_rows(res[0][0], kernel, bad, ref, 11, f'{size} processes')
        check_rows(res[0][1], kernel, {rows - 1 - i for i in bad}, ref[::-1], 11, f'{size} processes, second batch')

    with solver([first(kernel, mat[i]) for i in bad], FAULTS[kind], real):
        if bound is None:
            r, s = 0, 0
            for rr in (False, True):
                a = explore(progs, size, bound=0, sync=sync, on_run=done, rr=rr, max_runs=1)
                r, s = r + a[0], s + a[1]
        else:
            r, s = explore(progs, size, bound=bound, sync=sync, on_run=done)
    with open(CNT, 'a', encoding='utf-8') as f:
        f.write(f'{r} {s}\n')


def lengths_case(kernel, n_fit, lens):
    """ data over different numbers of frequencies on one controller: every batch as with a controller of its own """
    with solver():
        m = ctrl(kernel, P(), n_fit=n_fit)
        for n in lens:
            x = data_len(kernel, n)
            keep = x.copy()
            ref = np.array([ctrl(kernel, P(), n_fit=n_fit).cont_single_ind(r) for r in x])
            res = m.analytic_continuation(x)
            expect(np.any(res), 'batch failed')
            check_rows(res, kernel, (), ref, 11, f'data with {n} frequencies')
            same(x, keep, 'input')
            got = m.cut_matrix(x[0])
            k = min(n_fit, n)
            same(got, x[0][n:n + k + (kernel == 'freq_bosonic')], f'fitted frequencies of data with {n} frequencies')


def data_len(kernel, n):
    return det((2, 2 * n if kernel == 'freq_fermionic' else 2 * n + 1), 3 + n)


def settings_case(kernel, over, n_data):
    """ what reaches the solver """
    n = n_data
    mat = det((2 * n if kernel == 'freq_fermionic' else 2 * n + 1,), 9)
    log = []
    with solver(log=log):
        m = ctrl(kernel, P(), **over)
        m.cont_single_ind(mat)
    s = dict(SET)
    s.update({'cut': 0.04, 'alpha_det_method': 'chi2kink', 'optimizer': 'newton', 'method': 'maxent_svd', 'alpha_start': 1e9,
              'alpha_end': 1e-3, 'fit_position': 2.5, 'alpha_div': 10.})
    s.update(over)
    expect(len(log) == 1, 'one solver call')
    rec, kw = log[0]
    expect(rec['kernel_mode'] == kernel and rec['beta'] == 3.0, 'kernel, beta')
    nf = min(s['n_fit'], n)
    if kernel == 'freq_fermionic':
        iw, lo, dat = np.pi / 3.0 * (2 * np.arange(nf) + 1), s['wmin'], mat[n:n + nf]
    else:
        iw, lo, dat = 2 * np.pi / 3.0 * np.arange(nf + 1), max(s['wmin'], 0.0), mat[n:n + nf + 1]
        if not s.get('force_preblur', False):
            s['bw'] = 0.0
    close(rec['im_axis'], iw, 'Matsubara frequencies')
    close(rec['im_data'], dat, 'data')
    expect(rec['re_axis'].shape == (s['nwr'],), 'number of real frequencies')
    close(rec['re_axis'][[0, -1]], [lo, s['wmax']], 'real-frequency range', atol=1e-9)
    close(kw['stdev'], np.full(len(iw), s['err']), 'error')
    for k, v in (('method', 'method'), ('alpha_determination', 'alpha_det_method'), ('optimizer', 'optimizer'), ('blur_width', 'bw'),
                 ('alpha_start', 'alpha_start'), ('alpha_end', 'alpha_end'), ('alpha_div', 'alpha_div'), ('fit_position', 'fit_position')):
        expect(kw[k] == s[v], f'{k} = {kw[k]!r}, configured {s[v]!r}')
    expect(bool(kw['preblur']) == (s['bw'] != 0), 'preblur flag')
    w = rec['re_axis']
    area = np.trapz(kw['model'], w)
    close(area, 1.0 if kernel == 'freq_fermionic' else dat[0].real, 'weight of the default model')
    expect(np.ptp(kw['model']) <= 1e-12 * abs(area) + 1e-14, 'default model is flat')


class Conf:
    """ the settings of the local continuation """
    def __init__(self, **kw):
        self.mesh, self.beta, self.n_fit, self.alpha_det_method = np.linspace(-4, 5, 13), 3.0, 4, 'chi2kink'
        self.err, self.use_preblur, self.bw_range_loc, self.bw_fit_position = 1e-2, True, np.array([0.01, 0.1, 0.5]), 10
        self.__dict__.update(kw)


def kkt_ref(a, w):
    cell = np.gradient(w)
    cell[[0, -1]] *= 0.5
    r = [sum(cell[i] * a[i] / (w[j] - w[i]) for i in range(len(w)) if i != j) for j in range(len(w))]
    return np.array(r) - 1j * np.pi * a


def local_case(n_data, over, bw):
    """ continuation of one local function, also with fewer data than frequencies to fit """
    from dga import analytic_continuation as ac
    mat = det((2 * n_data,), 4)
    keep = mat.copy()
    conf = Conf(**over)
    log = []
    with solver(log=log):
        res, chi2 = ac.max_ent_loc(mat, conf, bw)
    same(mat, keep, 'data')
    expect(len(log) == 1 and chi2 == 1.0, 'one solver call')
    rec, kw = log[0]
    nf = min(conf.n_fit, n_data)
    close(rec['im_axis'], np.pi / 3.0 * (2 * np.arange(nf) + 1), 'Matsubara frequencies')
    close(rec['im_data'], mat[n_data:n_data + nf], 'data')
    same(rec['re_axis'], conf.mesh, 'real frequencies')
    expect(rec['kernel_mode'] == 'freq_fermionic' and rec['beta'] == 3.0, 'kernel, beta')
    close(kw['stdev'], np.full(nf, conf.err), 'errors')
    close(kw['model'], np.full(13, 1 / 9.0), 'default model')
    expect(kw['alpha_determination'] == conf.alpha_det_method and kw['preblur'] == conf.use_preblur and kw['blur_width'] == bw
           and kw['method'] == 'maxent_svd', f'settings {kw}')
    a = np.array([np.sum(np.abs(rec['im_data']) * np.cos((j + 1) * np.arange(1, nf + 1))) for j in range(13)])
    close(res, kkt_ref(a, conf.mesh), 'continued function')


def width_case(n_data, bws, c, pos):
    """ every blur width is continued and stored under its own name, the optimal one follows from the fit of chi-squared """
    import os
    from ana_cont import continuation as cont
    from dga import analytic_continuation as ac
    from dga import plotting
    from mc.common import scratch
    mat = det((2 * n_data,), 4)
    conf = Conf(bw_range_loc=np.array(bws), bw_fit_position=pos)
    chis = [np.exp(0.5 + 4.0 / (1 + np.exp(-2.0 * (np.log(b) - c)))) for b in bws]
    log, calls = [], []
    old = {k: getattr(plotting, k) for k in ('plot_aw_loc', 'plot_bw_fit')}
    for k in old:
        setattr(plotting, k, lambda _k=k, **kw: calls.append((_k, kw)))
    try:
        with scratch() as d, solver(log=log):
            cls = cont.AnalyticContinuationProblem
            inner = cls.solve

            def solve(self, **kw):
                s, arr = inner(self, **kw)
                s.chi2 = chis[bws.index(kw['blur_width'])]
                s.A_opt = s.A_opt + kw['blur_width']
                return s, arr

            cls.solve = solve
            opt = ac.max_ent_loc_bw_range(mat, conf, name='loc', out_dir=d)
            files = {f: (np.load(d + f) if f.endswith('npy') else np.loadtxt(d + f)) for f in os.listdir(d)}
    finally:
        for k, v in old.items():
            setattr(plotting, k, v)
    expect([kw['blur_width'] for _, kw in log] == list(bws), 'blur widths')
    want = {f'loc_cont_bw{b}.npy' for b in np.array(bws)} | {'w.npy', 'bw_opt_loc.txt'}
    expect(set(files) == want, f'files {sorted(files)}')
    same(files['w.npy'], conf.mesh, 'frequencies')
    nf = min(4, n_data)
    dat = mat[n_data:n_data + nf]
    a = np.array([np.sum(np.abs(dat) * np.cos((j + 1) * np.arange(1, nf + 1))) for j in range(13)])
    for b in np.array(bws):
        close(files[f'loc_cont_bw{b}.npy'], kkt_ref(a + b, conf.mesh), f'continuation with blur width {b}')
    close(np.log(opt), c - pos / 2.0, 'optimal blur width', rtol=1e-3, atol=1e-3)
    close(float(files['bw_opt_loc.txt']), opt, 'stored optimal blur width', atol=1e-9)


CNT = None


def subsets(n):
    for m in range(1 << n):
        yield tuple(i for i in range(n) if m >> i & 1)


def run(ck):
    import os
    import tempfile
    global CNT
    import dga.analytic_continuation  # noqa: F401
    import dga.mpi_aux  # noqa: F401
    th = ck.thorough
    fd, CNT = tempfile.mkstemp(prefix='verif_mc_')
    os.close(fd)
    K = ('freq_fermionic', 'freq_bosonic')
    items = []
    for kernel in K:
        for rows in range(0, 6 if not th else 8):
            for bad in subsets(rows):
                for kind, where in prod(FAULTS, ('solve', 'init')):
                    if kind != 'value' and len(bad) not in (1, rows) and not th:
                        continue
                    items.append((f'serial:{kernel},rows={rows},fail={bad},{kind}@{where}', (kernel, rows, bad, kind, where, False)))
        for bad in subsets(3):
            items.append((f'real:{kernel},rows=3,fail={bad}', (kernel, 3, bad, 'linalg', 'solve', True)))
    ck.pcases(serial_case, items)

    items = []
    batches = [b for r in (0, 1, 2, 3) for b in itertools.permutations(range(4), r)] if th else [(), (0,), (3,), (1, 2), (2, 1), (0, 1, 2, 3), (3, 0, 1)]
    for kernel in K:
        for a, b in prod(batches, batches):
            for bad in ((), (1,), (0, 3), (0, 1, 2, 3)):
                items.append((f'history:{kernel},{a}->{b}->{a},fail={bad}', (kernel, (a, b, a), bad)))
    ck.pcases(history_case, items)

    items = []
    for kernel in K:
        for rows in range(1, 6 if not th else 8):
            for size in range(1, rows + 3):
                for bad in subsets(rows):
                    items.append((f'mpi:{kernel},rows={rows},n={size},fail={bad},two schedules,weak', (kernel, rows, size, bad, None, False)))
                    items.append((f'mpi:{kernel},rows={rows},n={size},fail={bad},two schedules,sync', (kernel, rows, size, bad, None, True)))
        for rows, size in ((1, 2), (2, 2), (3, 2)):
            for bad in subsets(rows):
                items.append((f'mpi:{kernel},rows={rows},n={size},fail={bad},preemptions<={2 if th else 1},weak', (kernel, rows, size, bad, 2 if th else 1, False)))
        for size in (1, 2, 3, 5):
            items.append((f'mpireal:{kernel},rows=3,n={size}', (kernel, 3, size, (1,), None, False, True, 'linalg')))
        if th:
            items.append((f'mpi:{kernel},rows=4,n=3,fail=(1,),preemptions<=0,weak', (kernel, 4, 3, (1,), 0, False)))
            items.append((f'mpi:{kernel},rows=2,n=3,fail=(0,),preemptions<=0,sync', (kernel, 2, 3, (0,), 0, True)))
    ck.pcases(mpi_case, items, chunk=1, trivial=lambda k, rows, size, bad, *a: size == 1)
    for line in open(CNT, encoding='utf-8'):
        r, s = map(int, line.split())
        ck.count('schedules', r)
        ck.count('transitions', s)
    os.remove(CNT)

    items = []
    for kernel, n_fit in prod(K, (1, 3, 5, 50)):
        for lens in itertools.product((1, 2, 4, 7), repeat=3 if not th else 4):
            items.append((f'lengths:{kernel},n_fit={n_fit},{lens}', (kernel, n_fit, lens)))
    ck.pcases(lengths_case, items)

    overs = [{}, {'n_fit': 1}, {'n_fit': 3}, {'n_fit': 50}, {'nwr': 7}, {'wmax': 9.0}, {'wmin': -1.0}, {'wmin': 0.5}, {'err': 1e-4},
             {'mesh_type': 'tan'}, {'mesh_type': 'lorentzian'}, {'mesh_type': 'lorentzian', 'cut': 0.1}, {'mesh_type': 'hyperbolic'},
             {'bw': 0.3}, {'bw': 0.3, 'force_preblur': True}, {'alpha_start': 1e5}, {'alpha_end': 1.0}, {'alpha_div': 3.0},
             {'fit_position': 1.5}, {'optimizer': 'bfgs'}, {'alpha_det_method': 'historic'}, {'method': 'maxent_plain'}]
    for kernel, n in prod(K, (1, 2, 4, 6)):
        for i, o in enumerate(overs):
            for j, p in enumerate(overs):
                if j < i:
                    continue
                ck.case(f'settings:{kernel},n={n},{o},{p}', settings_case, kernel, {**o, **p}, n)
    for n, o, bw in prod((1, 2, 4, 7), ({}, {'n_fit': 1}, {'n_fit': 50}, {'err': 1e-4}, {'use_preblur': False}, {'alpha_det_method': 'historic'},
                                        {'alpha_det_method': 'classic', 'n_fit': 2}), (0.1, 0.0, 0.7)):
        ck.case(f'local:n={n},{o},bw={bw}', local_case, n, o, bw)
    for n, bws, c, pos in prod((2, 6), ([0.001, 0.01, 0.05, 0.1, 0.15, 0.2, 0.25, 0.35, 0.5, 0.75, 1], [1, 0.5, 0.2, 0.1, 0.05, 0.01, 0.001],
                                        [0.02, 0.05, 0.1, 0.3, 0.6, 2.0]), (-2.0, -1.5), (10, 3.0, 1.0)):
        ck.case(f'widths:n={n},{len(bws)},{bws[0]},c={c},{pos}', width_case, n, bws, c, pos)
