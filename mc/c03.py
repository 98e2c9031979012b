"""C03: what a complete run leaves behind does not depend on the number of processes nor on their interleaving."""
import os
import pickle
import shutil
import subprocess
import tempfile

import numpy as np

from mc import common, pipe
from mc.common import close, expect, scratch

LEVEL = 'model_checking'
RULE = ('the complete main program under the controlled scheduler: feature sets of the config file x every number of processes up to the number of '
        'irreducible momenta x collective semantics (weakest allowed / synchronising) x schedules (run-to-block, round-robin, and every schedule '
        'that deviates a bounded number of times from them); all files of all runs compared with the single-process run and the set of files '
        'with the one the config asks for; non-trivial: more than one process')

FULL = dict(pairing={'do_pairing_vertex': True, 'do_eliash': True}, optics={'do_bubble': True, 'do_vertex': True},
            output={'save_vrg': True, 'save_fq': True}, poly_fitting={'n_fit': 4, 'o_fit': 3})
BIG = dict(niw=4, niv=6, nsh=5)
CFG = {
    'minimal': ({}, {}),
    'quiet': (dict(output={'verbosity': 0}), {}),
    'full': (dict(BIG, **FULL), {}),
    'nosym': (dict(sym='none', niw=1, niv=4, nsh=3, output={'save_vrg': True}), {}),
    'coarseq': (dict(BIG, nq=(2, 2, 1), output={'save_vrg': True, 'save_fq': True}, lam='sp'), {}),
    'inv': (dict(sym='inv', niw=1, niv=4, nsh=0, lam='none', output={'save_vrg': True}), {}),
    'pairing': (dict(niw=4, niv=6, nsh=2, pairing={'do_pairing_vertex': True, 'do_eliash': True}, output={'keep_pairing_vertex': False},
                     debug={'keep_rank_files': True}), {}),
    'vertexonly': (dict(niw=4, niv=6, nsh=2, pairing={'do_pairing_vertex': True}, optics={'do_vertex': True}, output={'keep_pairing_vertex': False}), {}),
    'optics': (dict(BIG, sym='q1d', optics={'do_bubble': True, 'do_vertex': True}), {}),
    'coarseopt': (dict(niw=3, niv=4, nsh=2, nq=(2, 2, 1), optics={'do_bubble': True, 'do_vertex': True}, pairing={'do_pairing_vertex': True}), {}),
    'fq': (dict(niw=2, niv=4, nsh=2, nk=(6, 4, 1), nq=(6, 4, 1), sym='q1d', output={'save_fq': True, 'save_vrg': True}), {}),
}


def setup(name):
    kw, mod = CFG[name]
    cfg = pipe.conf(**kw)
    b = cfg['box_sizes']
    return cfg, pipe.model(b['niv_core'] + 1, b['niw_core'] + 1, 60, **mod)


def expected_files(cfg, verbosity=1):
    """ files (outside the folder of figures) that the manual and the config ask for """
    pair, opt, out = cfg.get('pairing', {}), cfg.get('optics', {}), cfg.get('output', {})
    f = {'dmft_input.npy', 'siwk_dga.npy', 'giwk_dga.npy', 'chi_dens_lam.npy', 'chi_magn_lam.npy', 'lambda.txt', 'mu.txt',
         'UniformStaticSusceptibility.txt', 'energies.txt', 'wannier_hr.dat', 'dga_config.yaml', 'dga.log', 'oz_coeff.txt'}
    if out.get('save_vrg'):
        f |= {'vrg_q_dens.npy', 'vrg_q_magn.npy'}
    if out.get('save_fq'):
        f |= {'F_dens.npy', 'F_magn.npy'}
    if pair.get('do_eliash'):
        f |= {'Eliashberg/' + x for x in ('eliashberg.npy', 'eigenvalues.txt', 'eigenvalues_s.txt', 'eliashberg_config.yaml')}
    if pair.get('do_pairing_vertex') and (not pair.get('do_eliash') or out.get('keep_pairing_vertex', True)):
        f |= {'Eliashberg/F_sing_pp.npy', 'Eliashberg/F_trip_pp.npy'}
    if 'optics' in cfg:
        f |= {'Optics/optics_config.yaml'}
    if opt.get('do_bubble'):
        f |= {'Optics/chijj_bubble.npy'}
    if opt.get('do_vertex'):
        f |= {'Optics/chijj_vert.npy', 'Optics/F_cond.npy'}
    return f


def compare(got, ref, what):
    a, b = set(got), set(ref)
    expect(a == b, f'{what}: missing {sorted(b - a)[:6]}, additional {sorted(a - b)[:6]}')
    for k in sorted(ref):
        cmp(got[k], ref[k], f'{what}: {k}', 1e-6 if 'eigenvalues' in k else 1e-9)


def cmp(g, r, what, tol):
    if isinstance(r, dict):
        expect(isinstance(g, dict) and set(g) == set(r), f'{what}: keys differ')
        for k in r:
            if k in ('input_path', 'output_path', 'pdir'):
                continue
            cmp(g[k], r[k], f'{what}[{k}]', tol)
    elif isinstance(r, (str, bytes, bool, type(None))):
        expect(g == r, f'{what}: {g!r:.80} instead of {r!r:.80}')
    elif isinstance(r, (list, tuple)) and (not r or isinstance(r[0], (str, dict, list))):
        expect(len(g) == len(r), f'{what}: lengths')
        for x, y in zip(g, r):
            cmp(x, y, what, tol)
    else:
        tol = 1e-5 if 'eliashberg' in what else tol
        close(g, r, what, rtol=tol, atol=2e-6 if what.endswith('.txt') else 1e-10)


STORE = None


def names(files):
    """ without figures, folders and the temporary rank files """
    return {f for f in files if not f.endswith(('/', '.png', '.pdf')) and not f.endswith('.hdf5')}


def reference(name):
    cfg, data = setup(name)
    out, w = pipe.execute(cfg, data, 1)
    with open(f'{STORE}/{name}', 'wb') as f:
        pickle.dump((out, len(w.choices)), f)
    got = {k for k in names(out) if not k.startswith(('Plots', 'PolyFits'))}
    want = expected_files(cfg)
    optional = {f'{a}{b}.npy' for a in ('gamma_', 'chi_', 'F_', 'vrg_', 'siw_') for b in ('dens', 'magn', 'dens_loc', 'magn_loc', 'sde_full')}
    expect(want <= got, f'not written: {sorted(want - got)}')
    expect(got <= want | optional, f'written without being asked for: {sorted(got - want - optional)}')
    for x in ('F_dens.npy', 'F_magn.npy', 'vrg_q_dens.npy', 'vrg_q_magn.npy'):
        expect(x in want or x not in got, f'{x} written without being asked for')
    rank = [x for x in out if x.endswith('.hdf5')]
    keep = cfg.get('debug', {}).get('keep_rank_files', False)
    expect(bool(rank) == keep, f'rank files: {rank}')
    again, _ = pipe.execute(cfg, data, 1)
    compare(again, out, 'second run')


def ref(name):
    with open(f'{STORE}/{name}', 'rb') as f:
        return pickle.load(f)[0]


def without_ranks(o):
    return {k: v for k, v in o.items() if not k.endswith('.hdf5')}


def one(name, n, kw):
    cfg, data = setup(name)
    out, w = pipe.execute(cfg, data, n, **kw)
    note(1, len(w.choices), len(w.choices))
    if cfg.get('debug', {}).get('keep_rank_files', False):
        expect(len([x for x in out if x.endswith('.hdf5')]) == n, 'one file per process')
    compare(without_ranks(out), without_ranks(ref(name)), f'{n} processes')


def deviating(name, n, kw, depth, prefix):
    """ all schedules that leave the given prefix at most depth times """
    cfg, data = setup(name)
    out, w = pipe.execute(cfg, data, n, prefix=prefix, **kw)
    note(1, len(w.choices), len(w.choices) - len(prefix) + 1)
    compare(without_ranks(out), without_ranks(ref(name)), f'schedule {"".join(str(c[0]) for c in w.choices)}')
    if depth > 0:
        for p in pipe.deviations(w, len(prefix)):
            deviating(name, n, kw, depth - 1, p)


def note(r, s, nodes):
    with open(f'{STORE}/.count', 'a', encoding='utf-8') as f:
        f.write(f'{r} {s} {nodes}\n')


def real(name, n):
    """ the unmodified program under mpiexec """
    cfg, data = setup(name)
    with scratch() as d:
        d += 'in/'
        pipe.prepare(d, cfg, data)
        env = dict(common.ENV0, OMP_NUM_THREADS='1', MPLBACKEND='agg', PYTHONDONTWRITEBYTECODE='1', MPLCONFIGDIR=os.environ.get('MPLCONFIGDIR', d))
        code = ('import matplotlib; matplotlib.use("agg"); import numpy as np; np.random.seed(11); from matplotlib.figure import Figure; '
                'Figure.savefig = lambda *a, **k: None; Figure.tight_layout = lambda *a, **k: None; from dga import dga_main; dga_main.main()')
        import sys
        r = subprocess.run(['mpiexec', '-n', str(n), sys.executable, '-W', 'ignore', '-c', code, '-c', 'conf.yaml', '-p', d],
                           env=env, capture_output=True, text=True, timeout=600, cwd=d)
        expect(r.returncode == 0, lambda: f'mpiexec -n {n}: exit {r.returncode}: {r.stderr[-400:]}')
        out = pipe.collect(d)[0]
    compare({k: v for k, v in without_ranks(out).items() if not k.endswith(('.png', '.pdf'))},
            {k: v for k, v in without_ranks(ref(name)).items() if not k.endswith(('.png', '.pdf'))}, f'mpiexec -n {n}')
    note(1, 0, 0)


def run(ck):
    global STORE
    t = ck.thorough
    STORE = tempfile.mkdtemp(prefix='verif_mc_')
    try:
        only, common.ONLY = common.ONLY, ''
        ck.pcases(reference, [(f'reference:{k}', (k,)) for k in CFG], chunk=1, trivial=lambda *a: True)
        common.ONLY = only
        have = [k for k in CFG if os.path.exists(f'{STORE}/{k}')]
        items, dev = [], []
        for name in have:
            cfg, _ = setup(name)
            from dga import config as conf
            from mc.bench import P
            nirr = conf.DgaConfig(cfg, comm=P()).lattice.q_grid.nk_irr
            sizes = range(1, nirr + 1)
            if not t and nirr > 6:
                sizes = [2, 3, nirr // 2 + 1, nirr]
            for n in sizes:
                for rr in (False, True):
                    for sync in (False, True):
                        if not t and n > 2 and rr == sync:
                            continue
                        items.append((f'size:{name},n={n},{"rr" if rr else "rtb"},{"sync" if sync else "weak"}', (name, n, {'rr': rr, 'sync': sync})))
        ck.pcases(one, items[::-1], chunk=1, trivial=lambda name, n, kw: n == 1)
        plan = [('minimal', 2, {}, 1), ('quiet', 2, {'rr': True}, 1), ('minimal', 3, {}, 0 if not t else 1)]
        plan += [('full', 2, {}, 1), ('full', 2, {'rr': True}, 1), ('quiet', 2, {}, 2), ('full', 3, {'sync': True}, 1), ('coarseq', 3, {}, 1)] if t else []
        for name, n, kw, depth in plan:
            if name not in have:
                continue
            cfg, data = setup(name)
            if depth == 0:
                continue
            try:
                _, w = pipe.execute(cfg, data, n, **kw)
            except Exception:
                ck.case(f'schedule:{name},n={n},{kw},default', one, name, n, kw)
                continue
            for p in pipe.deviations(w):
                k = f'{len(p) - 1}->{p[-1]}'
                dev.append((f'schedule:{name},n={n},{",".join(kw) or "rtb"},deviation {k},further<={depth - 1}', (name, n, kw, depth - 1, p)))
        ck.pcases(deviating, dev, chunk=1)
        for name, n in (('full', 2), ('nosym', 3), ('coarseq', 3)) if not t else [(k, n) for k in have for n in (1, 2, 3)]:
            if name in have:
                ck.case(f'mpiexec:{name},n={n}', real, name, n)
        runs = steps = nodes = 0
        for line in open(f'{STORE}/.count', encoding='utf-8') if os.path.exists(f'{STORE}/.count') else ():
            r, s, n = map(int, line.split())
            runs, steps, nodes = runs + r, steps + s, nodes + n
        ck.count('states', nodes)
        ck.count('transitions', steps)
        ck.count('traces_validated_against_impl', runs)
        ck.assumptions += ['every simulated process shares one Python interpreter; only one runs at a time and it can only be suspended at '
                           'communication calls and at opening of hdf5 files', 'figures are drawn but not written']
    finally:
        shutil.rmtree(STORE, ignore_errors=True)
