"""C27: the settings a run works with follow from the configuration file."""
import io
import os
import sys

import numpy as np

from mc.common import expect, same, close, raises, prod, scratch, Fail
from mc.simmpi import World, SimComm, explore
from mc.bench import P

LEVEL = 'exploration'
RULE = ('every combination of given/omitted settings within the listed value grids (box sizes, lattice, symmetries, gap '
        'symmetry, optics frequencies, optional sections, process numbers, continuation settings) compared with the documented '
        'inference rules written independently; distribution of the file from the root under every schedule of 3 processes')

LAT = {'type': 't_tp_tpp', 'hr_input': [1.0, -0.2, 0.1], 'nk': [4, 4, 1], 'symmetries': 'none'}


class Lfp:
    """ four-point object as far as the box inference looks at it """

    def __init__(self, niv, niw):
        self.niv = niv
        self.wn = np.arange(-niw, niw + 1)


def box_case(niw, niv, nsh, nas, avail):
    from dga import config as conf
    d = {}
    if niw is not None:
        d['niw_core'] = niw
    if niv is not None:
        d['niv_core'] = niv
    if nsh is not None:
        d['niv_shell'] = nsh
    if nas is not None:
        d['niv_asympt'] = nas
    b = conf.BoxSizes(d) if d else conf.BoxSizes()
    w, v = (-1 if niw is None else niw), (-1 if niv is None else niv)
    s = nsh or 0
    a = -1 if nas is None else nas
    if a == -1 and w != -1 and v != -1:
        a = v + s + 2 * w
    expect((b.niw_core, b.niv_core, b.niv_shell, b.niv_asympt) == (w, v, s, a), f'{vars(b)} expected {(w, v, s, a)}')
    if avail is None:
        return
    nva, nwa = avail
    if v > nva or w > nwa:
        expect(raises(lambda: b.set_from_lfp(Lfp(nva, nwa)), ValueError), 'a box larger than the vertex must be refused')
        return
    b.set_from_lfp(Lfp(nva, nwa))
    v = nva if v == -1 else v
    w = nwa if w == -1 else w
    if a <= 0:
        a = v + s + 2 * w
    expect((b.niw_core, b.niv_core, b.niv_shell, b.niv_asympt) == (w, v, s, a), f'{vars(b)} expected {(w, v, s, a)}')
    expect(b.niv_full == v + s, 'full fermionic range')
    same(b.vn_full, np.arange(-(v + s), v + s), 'vn_full')
    same(b.wn, np.arange(-w, w + 1), 'wn')
    expect(b.niv_pp == min(w // 2, v // 2), 'pairing range')


def symset(s):
    return {'two_dimensional_square': {'x-inv', 'y-inv', 'x-y-sym'}, 'quasi_one_dimensional_square': {'x-inv', 'y-inv'},
            'simultaneous_x_y_inversion': {'x-y-inv'}, 'none': set()}[s]


def lattice_case(nk, nq, sym, hr, typ):
    from dga import config as conf
    with scratch() as d:
        t, tp, tpp = hr
        if typ == 'from_wannier90':
            from dga import wannier
            wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(*hr)).save_hr(d)
            inp = d + 'wannier_hr.dat'
        else:
            inp = list(hr)
        c = {'type': typ, 'hr_input': inp}
        if nk is not None:
            c['nk'] = list(nk)
        if nq is not None:
            c['nq'] = list(nq)
        if sym is not None:
            c['symmetries'] = sym
        lat = conf.LatticeConfig(c)
    nk_ = tuple(nk or (16, 16, 1))
    nq_ = tuple(nq or nk_)
    expect(lat.nk == nk_ and lat.nq == nq_, f'meshes {lat.nk} {lat.nq}, expected {nk_} {nq_}')
    expect(lat.nk_tot == int(np.prod(nk_)) and lat.nq_tot == int(np.prod(nq_)), 'number of points')
    expect(tuple(lat.k_grid.nk) == nk_ and tuple(lat.q_grid.nk) == nq_, 'grids')
    want = set(sym) if isinstance(sym, tuple) else symset(sym or 'none')
    expect(set(lat.symmetries) == want, f'symmetries {lat.symmetries} expected {want}')
    kx = 2 * np.pi * np.arange(nk_[0]) / nk_[0]
    ky = 2 * np.pi * np.arange(nk_[1]) / nk_[1]
    kx, ky = kx[:, None, None], ky[None, :, None]
    ek = -2 * t * (np.cos(kx) + np.cos(ky)) - 4 * tp * np.cos(kx) * np.cos(ky) - 2 * tpp * (np.cos(2 * kx) + np.cos(2 * ky))
    ek = np.broadcast_to(ek, nk_)
    close(lat.get_ek(), ek, 'dispersion', atol=1e-5 if typ == 'from_wannier90' else 1e-11)


def refuse_case(c, exc):
    from dga import config as conf
    expect(raises(lambda: conf.LatticeConfig(c), exc), f'{c} must be refused')


GAP = {'d-wave': ('even', 'odd'), 'p-wave-x': ('odd', 'even'), 'p-wave-y': ('odd', 'even'), 'random': ('random', 'random'),
       None: ('random', 'random')}


def eliash_case(ksym, given):
    from dga import config as conf
    ref = dict(do_pairing_vertex=False, do_eliash=False, n_eig=2, sym_sing=True, sym_trip=True, eps=1e-6, max_count=10000)
    over = dict(do_pairing_vertex=True, do_eliash=True, n_eig=5, sym_sing=False, sym_trip=False, eps=1e-3, max_count=7)
    c = {k: over[k] for k in given}
    if ksym:
        c['k_sym'] = ksym
    cfg = conf.DgaConfig({'lattice': LAT, 'pairing': c} if c else {'lattice': LAT}, comm=P()).eliash
    ref.update(c)
    ref['k_sym'] = ksym or 'random'
    for k, v in ref.items():
        expect(getattr(cfg, k) == v, f'{k} = {getattr(cfg, k)!r}, expected {v!r}')
    s, t = GAP[ksym]
    expect(cfg.gap0_sing == {'k': ref['k_sym'], 'v': s}, f'singlet start gap {cfg.gap0_sing}')
    expect(cfg.gap0_trip == {'k': ref['k_sym'], 'v': t}, f'triplet start gap {cfg.gap0_trip}')


def optics_case(box, given):
    from dga import config as conf
    niw, niv, nsh, nas = box
    c = {'lattice': LAT, 'box_sizes': {'niw_core': niw, 'niv_core': niv, 'niv_shell': nsh, 'niv_asympt': nas}}
    o = {k: v for k, v in zip(('niw_cond', 'niw_vert', 'niw_bubble', 'niv_bubble', 'niv_vert'), given) if v is not None}
    if o:
        c['optics'] = dict(o, der_a=1, do_bubble=True)
    cfg = conf.DgaConfig(c, comm=P())
    cfg.box.set_from_lfp(Lfp(niv, niw))
    a = nas if nas > 0 else niv + nsh + 2 * niw
    bad = (o.get('niw_vert', -1) > niw) or (o.get('niw_cond', -1) >= niv)
    if bad:
        expect(raises(lambda: cfg.optics.set_frequency_ranges(cfg), AssertionError), 'must be refused')
        return
    cfg.optics.set_frequency_ranges(cfg)
    get = lambda k, dflt: dflt if o.get(k, -1) == -1 else o[k]
    cond = get('niw_cond', niw // 2)
    vert = get('niw_vert', niw)
    nvb = get('niv_bubble', a - 2 * cond)
    nwb = get('niw_bubble', cond)
    got = cfg.optics
    ref = dict(niw_cond=cond, niw_vert=vert, niv_bubble=nvb, niw_bubble=nwb, niv_vert=niv - cond)
    for k, v in ref.items():
        expect(getattr(got, k) == v, f'{k} = {getattr(got, k)} expected {v}')
    a = max(a, nvb + nwb)
    expect(cfg.box.niv_asympt == a, f'niv_asympt {cfg.box.niv_asympt} expected {a}')
    same(got.wn_cond(), np.arange(-cond, cond + 1), 'wn_cond')
    same(got.wn_cond(pos=True), np.arange(0, cond + 1), 'wn_cond>=0')
    same(got.wn_bubble(pos=True), np.arange(0, nwb + 1), 'wn_bubble>=0')
    same(got.wn_vert(), np.arange(-vert, vert + 1), 'wn_vert')
    expect((got.do_bubble, got.der_a) == ((True, 1) if o else (False, 0)), 'flags')


SECT = {
    'poly_fitting': ({'n_fit': 7, 'o_fit': 2}, ''),
    'dmft_input': ({'type': 'default', 'input_path': '/x/', 'fname_1p': 'a', 'fname_2p': 'b', 'do_sym_v_vp': False}, ''),
    'output': ({'save_vrg': True, 'save_fq': True, 'keep_fq_optics': True, 'keep_pairing_vertex': False, 'verbosity': 2}, ''),
    'dga': ({'lambda_corr': 'sp'}, ''),
    'debug': ({'keep_rank_files': True}, 'debug'),
    'pairing': ({'do_eliash': True, 'n_eig': 3}, 'eliash'),
    'optics': ({'do_vertex': True, 'der_b': 2}, 'optics'),
    'box_sizes': ({'niw_core': 3, 'niv_core': 4}, 'box'),
}
DEFAULT = {
    'poly_fitting': {'n_fit': 4, 'o_fit': 3},
    'dmft_input': {'type': 'w2dyn', 'input_path': './', 'fname_1p': '1p-data.hdf5', 'fname_2p': 'g4iw_sym.hdf5', 'do_sym_v_vp': True},
    'output': {'save_vrg': False, 'save_fq': False, 'keep_fq_optics': False, 'keep_pairing_vertex': True, 'verbosity': 1},
    'dga': {'lambda_corr': 'spch'},
    'debug': {'keep_rank_files': False},
    'pairing': {'do_eliash': False, 'n_eig': 2},
    'optics': {'do_vertex': False, 'der_b': 0},
    'box_sizes': {'niw_core': -1, 'niv_core': -1},
}


def check_sections(cfg, present):
    for s, (over, attr) in SECT.items():
        o = getattr(cfg, attr) if attr else cfg
        want = dict(DEFAULT[s])
        want.update(present.get(s, {}))
        for k, v in want.items():
            expect(getattr(o, k) == v, f'[{s}] {k} = {getattr(o, k)!r} expected {v!r}')
    expect(bool(cfg.do_poly_fitting) == ('poly_fitting' in present), 'poly fitting is switched on by its section')


def sections_case(names):
    from dga import config as conf
    c = {'lattice': dict(LAT)}
    present = {n: dict(SECT[n][0]) for n in names}
    c.update({n: dict(v) for n, v in present.items()})
    check_sections(conf.DgaConfig(c, comm=P()), present)


def single_key_case(sec, key):
    from dga import config as conf
    present = {sec: {key: SECT[sec][0][key]}}
    check_sections(conf.DgaConfig({'lattice': dict(LAT), sec: dict(present[sec])}, comm=P()), present)


def procs_case(nk, nq, sym, size):
    from dga import config as conf
    c = {'lattice': dict(LAT, nk=list(nk), nq=list(nq), symmetries=sym)}

    def irr(n):
        """ orbits under the point group, counted directly """
        ops = symset(sym)
        seen, cnt = set(), 0
        for p in np.ndindex(*n):
            if p in seen:
                continue
            cnt += 1
            todo = [p]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if 'x-inv' in ops:
                    todo.append(((-x[0]) % n[0], x[1], x[2]))
                if 'y-inv' in ops:
                    todo.append((x[0], (-x[1]) % n[1], x[2]))
                if 'x-y-sym' in ops:
                    todo.append((x[1], x[0], x[2]))
        return cnt
    lim = min(irr(nk), irr(nq))
    r = raises(lambda: conf.DgaConfig(c, comm=P(0, size)), ValueError)
    expect(r == (size > lim), f'{size} processes for {lim} irreducible points: ' + ('refused' if r else 'accepted'))


YAMLS = {
    'lists': "lattice:\n  type: t_tp_tpp\n  hr_input: [1.0, -0.2, 0.1]\n  nk: [4, 4, 1]\n  symmetries: two_dimensional_square\n"
             "box_sizes:\n  niw_core: 3\n  niv_core: 4\n  niv_shell: 2\ndga:\n  lambda_corr: 'sp'\n"
             "dmft_input:\n  type: default\n  input_path: '/in/'\noutput:\n  save_fq: True\npairing:\n  k_sym: d-wave\n",
    'minimal': "lattice:\n  type: t_tp_tpp\n  hr_input: [1, 0, 0]\n  nk: [3, 3, 1]\n  nq: [2, 2, 1]\n",
}


def file_check(name, cfgs, files):
    for cfg, cf in zip(cfgs, files):
        if name == 'lists':
            expect(cfg.lattice.nk == (4, 4, 1) and cfg.lattice.nq == (4, 4, 1), 'mesh')
            expect((cfg.box.niw_core, cfg.box.niv_core, cfg.box.niv_shell, cfg.box.niv_asympt) == (3, 4, 2, 12), 'box')
            expect(cfg.lambda_corr == 'sp' and cfg.type == 'default' and cfg.input_path == '/in/', 'strings')
            expect(cfg.save_fq is True and cfg.save_vrg is False, 'flags')
            expect(cfg.eliash.gap0_sing == {'k': 'd-wave', 'v': 'even'}, 'gap')
        else:
            expect(cfg.lattice.nk == (3, 3, 1) and cfg.lattice.nq == (2, 2, 1), 'mesh')
            expect(cfg.box.niw_core == -1 and cfg.lambda_corr == 'spch', 'defaults')
        expect(cf == files[0], 'all processes get the same file')


def parse_case(name, opts, ck_counts):
    from dga import config as conf
    with scratch() as d:
        fn = 'dga_config.yaml' if 'c' not in opts else 'my.yaml'
        with open(d + fn, 'w', encoding='utf-8') as f:
            f.write(YAMLS[name])
        argv = ['dga_main', '-p', d] + (['-c', 'my.yaml'] if 'c' in opts else [])
        if opts == 'clong':
            argv = ['dga_main', '--path', d, '--config', 'my.yaml']
        old = sys.argv
        sys.argv = argv
        try:
            def progs(w):
                comms = SimComm.create(w, 3)
                return [lambda c=c: conf.parse_config_file(c) for c in comms]

            def done(w, res):
                for r, (cfg, _) in enumerate(res):
                    expect(cfg.comm.rank == r, 'communicator of the process')
                file_check(name, [x[0] for x in res], [x[1] for x in res])
            explore(progs, 3, bound=3, on_run=done)
        finally:
            sys.argv = old
        # the stored copy reproduces the settings
        cfg, cf = None, None
        sys.argv = argv
        try:
            cfg, cf = conf.parse_config_file(P())
        finally:
            sys.argv = old
        os.mkdir(d + 'out')
        conf.save_config_file(cf, d + 'out')
        sys.argv = ['dga_main', '-p', d + 'out/']
        try:
            cfg2, cf2 = conf.parse_config_file(P())
        finally:
            sys.argv = old
        file_check(name, [cfg2], [cf2])
        expect(cf2 == cf, 'the stored configuration file differs from the original')


def template_case(path):
    """ the configuration files that are shipped can be used """
    from dga import config as conf
    from ruamel.yaml import YAML
    from dga import wannier
    with open(path, encoding='utf-8') as f:
        c = YAML().load(f)
    with scratch() as d:
        wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(1, -0.2, 0.1)).save_hr(d)
        if isinstance(c['lattice']['hr_input'], str):
            c['lattice']['hr_input'] = d + 'wannier_hr.dat'
        conf.DgaConfig(c, comm=P())


def default_dict_case():
    from dga import config as conf
    c = conf.get_default_config_dict()
    cfg = conf.DgaConfig(c, comm=P())
    expect(cfg.lattice.nk == (24, 24, 1) and cfg.lattice.nq == (24, 24, 1), 'mesh')
    expect(set(cfg.lattice.symmetries) == symset('two_dimensional_square'), 'symmetry')
    for s in ('dmft_input', 'dga', 'pairing', 'debug'):
        o = getattr(cfg, SECT[s][1]) if SECT[s][1] else cfg
        for k, v in DEFAULT[s].items():
            expect(getattr(o, k) == v, f'[{s}] {k}')
    expect(not cfg.save_vrg and not cfg.save_fq, 'output')
    c2 = conf.get_default_config_dict()
    c['box_sizes']['niv_core'] = 99
    expect(conf.get_default_config_dict() == c2, 'defaults are not shared between calls')


def folder_case(lam, nk, nq, niw, niv, nsh):
    from dga import config as conf
    with scratch() as d:
        c = {'lattice': dict(LAT, nk=list(nk), nq=list(nq)), 'dga': {'lambda_corr': lam}, 'dmft_input': {'input_path': d},
             'box_sizes': {'niw_core': niw, 'niv_core': niv, 'niv_shell': nsh}, 'poly_fitting': {'n_fit': 4}}
        cfg = conf.DgaConfig(c, comm=P())
        cfg.create_folders()
        want = f'LDGA_{lam}_Nk{np.prod(nk)}_Nq{np.prod(nq)}_wc{niw}_vc{niv}_vs{nsh}'
        got = os.path.relpath(cfg.output_path, d)
        expect(got == want, f'output folder {got} expected {want}')
        for p, n in ((cfg.pdir, 'Plots'), (cfg.poly_fit_dir, 'PolyFits'), (cfg.eliash.output_path, 'Eliashberg'),
                     (cfg.optics.output_path, 'Optics')):
            expect(os.path.isdir(p), f'{n} not created')
            expect(os.path.realpath(os.path.dirname(p.rstrip('/'))) == os.path.realpath(cfg.output_path), f'{n}: {p} outside the output folder')
            expect(os.path.basename(p.rstrip('/')).startswith(n), f'{n}: {p}')
        expect(len({os.path.realpath(p) for p in (cfg.pdir, cfg.poly_fit_dir, cfg.eliash.output_path, cfg.optics.output_path)}) == 4, 'folders coincide')


def maxent_case(beta, t, given):
    from dga import config as conf
    ref = dict(cut=0.04, nwr=501, wmax=15, use_preblur=True, err=1e-3, alpha_det_method='chi2kink', optimizer='newton',
               mesh_type='tan', n_fit=int(beta * 3 + 10), bw_fit_position=10)
    over = dict(cut=0.1, nwr=51, wmax=7, mesh_type='linear', n_fit=17, err=0.1, optimizer='bfgs')
    c = {k: over[k] for k in given}
    m = conf.MaxEntConfig(t, beta, dict(c))
    ref.update(c)
    for k, v in ref.items():
        expect(getattr(m, k) == v, f'{k} = {getattr(m, k)!r} expected {v!r}')
    expect(m.beta == beta and m.t == t, 'beta, t')
    w = np.asarray(m.mesh)
    expect(w.shape == (ref['nwr'],), f'mesh has {w.shape} points, expected {ref["nwr"]}')
    close([w[0], w[-1]], [-ref['wmax'], ref['wmax']], 'mesh end points', rtol=1e-6)
    if ref['mesh_type'] == 'linear':
        close(np.diff(w), np.full(ref['nwr'] - 1, 2 * ref['wmax'] / (ref['nwr'] - 1)), 'linear mesh')
    close(m.get_bw_opt(), np.pi / (beta * t), 'blur width')
    for lo, hi in prod((1, 5, 20, 60), (1, 6, 30, 1000)):
        want = min(max(lo, int(beta * 4 * t)), hi)
        expect(m.get_n_fit_opt(lo, hi) == want, f'n_fit_opt({lo},{hi}) = {m.get_n_fit_opt(lo, hi)} expected {want}')


def subsets(keys):
    keys = list(keys)
    for m in range(1 << len(keys)):
        yield tuple(k for i, k in enumerate(keys) if m >> i & 1)


def run(ck):
    th = ck.thorough
    v = (None, -1, 1, 2, 3, 5) + ((4, 6) if th else ())
    items = []
    for niw, niv, nsh, nas in prod(v, v, (None, 0, 1, 3), (None, -1, 1, 7, 40)):
        for av in (None, (3, 2), (5, 5), (1, 1)) + (((6, 3), (2, 6)) if th else ()):
            items.append((f'box:{niw},{niv},{nsh},{nas},avail={av}', (niw, niv, nsh, nas, av)))
    ck.pcases(box_case, items)

    syms = [None, '', 'none', 'two_dimensional_square', 'quasi_one_dimensional_square', 'simultaneous_x_y_inversion', ('x-inv',),
            ('y-inv', 'x-inv'), ('z-inv',), ('x-y-sym',), ('x-y-inv',)]
    items = []
    for nk, nq, sym, hr, typ in prod((None, (4, 4, 1), (6, 6, 1), (2, 2, 2)), (None, (2, 2, 1), (4, 4, 1)), syms,
                                     ((1.0, -0.2, 0.1), (0.5, 0.0, 0.0)), ('t_tp_tpp', 'from_wannier90')):
        items.append((f'lattice:{nk},{nq},{sym},{hr},{typ}', (nk, nq, sym, hr, typ)))
    ck.pcases(lattice_case, items)
    base = dict(LAT)
    for sym in ('square', ('x-inv', 'foo'), ['x-inv', 'nope'], {'x-inv': 1}, 3):
        ck.case(f'refuse:symmetry {sym}', refuse_case, dict(base, symmetries=sym), NotImplementedError)
    for t in ('t', 'from_file', 5):
        ck.case(f'refuse:type {t}', refuse_case, dict(base, type=t), NotImplementedError)
    ck.case('refuse:no type', refuse_case, {k: x for k, x in base.items() if k != 'type'}, ValueError)
    ck.case('refuse:no lattice', lambda: expect(raises(
        lambda: __import__('dga.config', fromlist=['x']).DgaConfig({'box_sizes': {'niw_core': 1}}, comm=P()), ValueError)))

    keys = ('do_pairing_vertex', 'do_eliash', 'n_eig', 'sym_sing', 'sym_trip', 'eps', 'max_count')
    ck.pcases(eliash_case, [(f'eliash:{k},{"+".join(s)}', (k, s)) for k in GAP for s in subsets(keys)])

    boxes = [(4, 5, 0, -1), (4, 5, 3, -1), (2, 4, 2, 7), (6, 6, 2, 40), (3, 2, 0, -1), (1, 1, 0, -1)]
    o = (None, -1, 1, 2, 3, 5)
    items = [(f'optics:{b},{g}', (b, g)) for b, g in
             prod(boxes, prod(o, o + (7,), (None, -1, 0, 4), (None, -1, 2, 30), (None, -1, 2)))]
    ck.pcases(optics_case, items)

    ck.pcases(sections_case, [(f'sections:{"+".join(s)}', (s,)) for s in subsets(SECT)])
    for s in SECT:
        for k in SECT[s][0]:
            ck.case(f'single:{s}.{k}', single_key_case, s, k)

    items = []
    for nk, nq, sym in prod(((2, 2, 1), (3, 3, 1), (4, 4, 1)), ((2, 2, 1), (4, 4, 1), (3, 3, 2)),
                            ('none', 'two_dimensional_square', 'quasi_one_dimensional_square')):
        for size in range(1, 20):
            items.append((f'procs:{nk},{nq},{sym},{size}', (nk, nq, sym, size)))
    ck.pcases(procs_case, items)

    for name, opts in prod(YAMLS, ('', 'c', 'clong')):
        ck.case(f'parse:{name},{opts}', parse_case, name, opts, None)
    repo = os.environ.get('VERIF_REPO', '/repo')
    for p in ('config_templates/dga_config.yaml', 'src/dga/dga_config.yaml'):
        if os.path.exists(os.path.join(repo, p)):
            ck.case(f'template:{p}', template_case, os.path.join(repo, p))
    ck.case('template:default dictionary', default_dict_case)
    for a in prod(('spch', 'sp', 'none'), ((4, 4, 1), (2, 3, 1)), ((2, 2, 1),), (1, 4), (2, 3), (0, 2)):
        ck.case(f'folder:{a}', folder_case, *a)
    mk = ('cut', 'nwr', 'wmax', 'mesh_type', 'n_fit', 'err', 'optimizer')
    ck.pcases(maxent_case, [(f'maxent:{b},{t},{"+".join(s)}', (b, t, s)) for b, t in prod((1, 2.7, 12.5, 40), (0.25, 1.0)) for s in subsets(mk)])
