"""C32: what a run stores (results, settings, log) is read back as it was written."""
import contextlib
import io
import itertools
import multiprocessing as mp
import os
import re
import time
from unittest import mock

import numpy as np

from mc.common import expect, scratch, raises
from mc.simmpi import SimComm, explore

LEVEL = 'model_checking'
RULE = ('every state of a store of two directories x two names x stored values and every operation in it, against a dictionary; '
        'every kind of value; every sequence of log operations up to the stated length with every choice of elapsed times, on '
        'several processes under every schedule; every combination of settings through the settings files')


# ------------------------------------------------------------------------------------------------- stored results
def kinds():
    r = np.arange(24, dtype=float) * 0.37 - 1
    return {
        'float': r, 'complex': (r + 1j * r[::-1]).reshape(2, 3, 4), 'int': np.arange(6).reshape(3, 2), 'bool': np.array([True, False]),
        'fortran': np.asfortranarray(r.reshape(4, 6)), 'view': r.reshape(4, 6)[::-1, ::2], 'single': r.astype(np.float32), 'csingle': r.astype(np.complex64),
        'one1d': np.array([1.5]), 'one3d': np.array([[[2.5 - 1j]]]), 'empty': np.zeros((0, 3)), 'nan': np.array([np.nan, np.inf, -0.0]),
        'scalar': 3.25, 'complexscalar': 1 - 2j, 'npscalar': np.float64(0.1), '0d': np.array(7.5),
        'dict': {'a': r, 'b': 2, 'c': {'d': r[:3] * 1j}, 'e': None, 1: 'x'}, 'emptydict': {},
        'objects': np.array([None, {'k': r}, 'txt'], dtype=object), 'strings': np.array(['a', 'bc']),
    }


def equal(a, b):
    """ exact equality of value, shape and type; numbers without axes are numbers """
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in b)
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b.item()
    if isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype):
            return False
        if b.dtype == object:
            return all(equal(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return a.tobytes() == b.tobytes()
    if isinstance(a, np.ndarray) and a.ndim:
        return False
    return bool(a == b)


def store(path):
    from dga import config
    o = config.OutputConfig()
    o.output_path = path
    return o


def kind(name, slash, owner):
    from dga import config
    v = kinds()[name]
    with scratch() as d:
        o = {'base': config.OutputConfig, 'eliash': config.EliashbergConfig, 'optics': config.OpticsConfig}[owner]()
        p = o.set_output_path(d + 'Out')
        expect(os.path.isdir(p) and os.path.realpath(p) == os.path.realpath(d + 'Out'), f'output directory {p}')
        if not slash:
            o.output_path = o.output_path.rstrip('/')
        o.save_data(v, 'quantity')
        expect(sorted(os.listdir(d + 'Out')) == ['quantity.npy'], f'files {os.listdir(d + "Out")}')
        got = o.load_data('quantity')
        ref = kinds()[name]
        expect(equal(got, ref), f'saved {ref!r}, loaded {got!r}')
        expect(equal(v, ref), 'saving changed the value')
        # files are plain numpy files for post-processing
        raw = np.load(d + 'Out/quantity.npy', allow_pickle=True)
        expect(equal(raw if raw.ndim else raw.item(), ref), 'the file does not contain the value')
        # what was stored is a snapshot and what was loaded is a copy
        if isinstance(v, np.ndarray) and v.size and v.dtype != object:
            v.ravel()[...] = 0
            v[...] = v.dtype.type(0) if v.dtype.kind != 'U' else ''
            expect(equal(o.load_data('quantity'), ref), 'changing the value afterwards changed the stored one')
        if isinstance(got, np.ndarray) and got.size and got.dtype.kind in 'fc':
            got[...] = 0
            expect(equal(o.load_data('quantity'), ref), 'changing the loaded value changed the stored one')
        o.clean_data('quantity')
        expect(os.listdir(d + 'Out') == [], 'clean_data leaves the file')
        o.clean_data('quantity')


STATES, TRANS = mp.Value('l'), mp.Value('l')
VALS = {'a': np.arange(4.), 'b': np.arange(6).reshape(2, 3) * 1j, 'c': {'x': np.arange(2), 'y': 1}}
NAMES = ['F_sing', 'F_sing_pp']  # one name is the beginning of the other one
SLOTS = [(i, n) for i in range(2) for n in NAMES]


def transitions(*state):
    """ all operations in one state of the store """
    with scratch() as d:
        os.mkdir(d + 'A')
        os.mkdir(d + 'A/B')
        obj = [store(d + 'A/'), store(d + 'A/B/')]
        for d_ in ('A/', 'A/B/'):
            with open(d + d_ + 'dga_config.yaml', 'w', encoding='utf-8') as f:
                f.write('x')

        def put(slot, val):
            o, nm = obj[slot[0]], slot[1]
            if val is None:
                o.clean_data(nm)
            else:
                o.save_data(VALS[val], nm)

        def compare(model, what):
            for (i, nm), val in model.items():
                if val is None:
                    expect(raises(lambda: obj[i].load_data(nm), FileNotFoundError), f'{what}: {nm} in directory {i} can be loaded')
                else:
                    got = obj[i].load_data(nm)
                    expect(equal(got, VALS[val]), f'{what}: {nm} in directory {i} is {got!r}, expected {VALS[val]!r}')
            for i, d_ in enumerate(('A/', 'A/B/')):
                have = sorted(x for x in os.listdir(d + d_) if os.path.isfile(d + d_ + x))
                want = sorted([k[1] + '.npy' for k, v in model.items() if k[0] == i and v is not None] + ['dga_config.yaml'])
                expect(have == want, f'{what}: files {have}, expected {want}')
        model = dict(zip(SLOTS, state))
        for s, v in model.items():
            put(s, v)
        compare(model, f'state {state}')
        with STATES.get_lock():
            STATES.value += 1
        for s in SLOTS:
            for v in [None, *VALS]:
                new = dict(model)
                new[s] = v
                put(s, v)
                with TRANS.get_lock():
                    TRANS.value += 1
                compare(new, f'state {state}, then {"clean" if v is None else "save " + v} {s}')
                put(s, model[s])


# ------------------------------------------------------------------------------------------------- settings
ELIASH = {'do_pairing_vertex': [True], 'do_eliash': [False, True], 'n_eig': [1, 3], 'k_sym': ['random', 'd-wave', 'p-wave-x', 'p-wave-y'], 'sym_sing': [True, False],
          'eps': [1e-6, 1e-9], 'max_count': [10000, 5]}
OPTICS = {'do_bubble': [False, True], 'do_vertex': [False, True], 'der_a': [0, 1], 'der_b': [0, 2], 'niw_cond': [-1, 3], 'niw_bubble': [-1, 2], 'niv_bubble': [-1, 7],
          'max_ent': [None, {'nwr': 51, 'wmax': 15.5, 'loc': {'do_cont': True, 'bw': [0.1, 0.2]}}]}


def settings(section, i, kw):
    from dga import config
    from ruamel.yaml import YAML
    cls = {'pairing': config.EliashbergConfig, 'optics': config.OpticsConfig}[section]
    kw = {k: v for k, v in kw.items() if v is not None}
    with scratch() as d:
        text = io.StringIO()
        YAML().dump({section: kw}, text)
        given = YAML().load(text.getvalue())[section]
        o = cls(given)
        o.set_output_path(d + 'Out/')
        o.to_yaml('settings_' + str(i % 3))
        expect(os.listdir(d + 'Out') == [f'settings_{i % 3}.yaml'], f'files {os.listdir(d + "Out")}')
        with open(d + f'Out/settings_{i % 3}.yaml', encoding='utf-8') as f:
            got = plain(YAML(typ='safe').load(f))
        attrs = {k: v for k, v in vars(o).items() if not k.startswith('_')}
        expect(set(got) == set(attrs), f'settings in the file {sorted(got)}, used {sorted(attrs)}')
        for k, v in attrs.items():
            expect(got[k] == plain(v), f'{k} in the file: {got[k]}, used: {v}')
        for k, v in kw.items():
            if k not in ('gap0_sing', 'gap0_trip'):
                expect(got[k] == v, f'{k} in the file: {got[k]}, given: {v}')
        # the file starts an identical object
        again = cls({k: v for k, v in got.items() if k in kw or k not in ('output_path', 'gap0_sing', 'gap0_trip')})
        for k, v in attrs.items():
            if k != 'output_path':
                expect(plain(getattr(again, k)) == plain(v), f'{k} after reading the file: {getattr(again, k)}, before: {v}')


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


SECTIONS = {
    'box_sizes': ['', 'box_sizes:\n  niw_core: 4 # comment\n  niv_core: 5\n', 'box_sizes: {niw_core: 3, niv_core: -1, niv_shell: 7, niv_asympt: 50}\n'],
    'lattice': ['lattice:\n  symmetries: "two_dimensional_square"\n  type: "t_tp_tpp"\n  hr_input: [1.0, -0.2, 0.1]\n  nk: [ 4, 4, 1 ]\n',
                "lattice:\n  # a comment\n  symmetries: 'none'\n  type: t_tp_tpp\n  hr_input: [1.0, 1.e-3, 0]\n  nk: [4, 2, 3]\n  nq: [2, 2, 3]\n"],
    'dga': ['', 'dga:\n  lambda_corr: "sp"\n  gui: False\n'],
    'dmft_input': ['', "dmft_input: {type: default, input_path: './x y/', fname_1p: 'a#b.npy', do_sym_v_vp: false}\n"],
    'poly_fitting': ['', 'poly_fitting:\n  n_fit: 6\n  o_fit: 2\n'],
    'optics': ['', 'optics:\n  do_bubble: True\n  niw_cond: 3\n  max_ent: # optional\n    nwr: 51\n    n_fit: -1\n'],
    'pairing': ['', "pairing:\n  do_eliash: yes\n  k_sym: 'p-wave-x'\n  eps: 1.0e-9\n"],
    'debug': ['', 'debug: # [optional]\n  keep_rank_files: True\n'],
    'output': ['', 'output: {save_vrg: True, verbosity: 0}\n\n\n'],
    'max_ent': ['', "max_ent:\n  nwr: 501\n  bw: 0.01\n  chi_d:\n    do_cont: False\n    bw: [0.1, 1.]\n"],
}


def flat(d_cfg):
    out = {}
    for k, v in vars(d_cfg).items():
        if k == 'comm':
            continue
        if k in ('box', 'lattice', 'eliash', 'optics', 'debug'):
            for kk, vv in vars(v).items():
                if kk not in ('k_grid', 'q_grid', 'hr'):
                    out[k + '.' + kk] = plain(vv)
            if k == 'lattice':
                out['ek'] = v.get_ek().tobytes()
                out['nk_irr'] = (v.k_grid.nk_irr, v.q_grid.nk_irr)
        else:
            out[k] = plain(v)
    return out


def saved_config(old, *pick):
    from dga import config
    from ruamel.yaml import YAML
    text = ''.join(SECTIONS[k][i] for k, i in zip(SECTIONS, pick))
    conf = YAML().load(text)
    with contextlib.redirect_stdout(io.StringIO()):
        d_cfg = config.DgaConfig(conf)
        with scratch() as d:
            if old:
                with open(d + 'dga_config.yaml', 'w', encoding='utf-8') as f:
                    f.write('debug:\n  keep_rank_files: True\n' * 50)
            config.save_config_file(conf, d if old != 2 else d.rstrip('/'))
            expect(os.listdir(d) == ['dga_config.yaml'], f'files {os.listdir(d)}')
            with open(d + 'dga_config.yaml', encoding='utf-8') as f:
                again = YAML().load(f)
        expect(plain(again) == plain(YAML(typ='safe').load(text)), f'the saved config file differs: {plain(again)}')
        one, two = flat(d_cfg), flat(config.DgaConfig(again))
    expect(one == two, f'a run with the saved file differs in {[k for k in one if one[k] != two.get(k)]}')


def template(dirname):
    """ the command-line tool provides the documented template """
    import importlib.util
    from mc.common import REPO
    from ruamel.yaml import YAML
    from dga import config
    spec = importlib.util.spec_from_file_location('dga_config_generator', REPO + '/src/cli/dga_config_generator.py')
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    here = os.getcwd()
    with scratch() as d:
        w = d + dirname
        os.makedirs(w, exist_ok=True)
        with open(w + '/keep', 'w', encoding='utf-8') as f:
            f.write('x')
        os.chdir(w)
        try:
            m.main()
            expect(os.path.realpath(os.getcwd()) == os.path.realpath(w), 'the working directory was changed')
            expect(sorted(os.listdir('.')) == ['dga_config.yaml', 'keep'], f'files {os.listdir(".")}')
            with open('dga_config.yaml', 'rb') as f, open(REPO + '/config_templates/dga_config.yaml', 'rb') as g:
                expect(f.read() == g.read(), 'not the template')
            conf = YAML().load(open('dga_config.yaml', encoding='utf-8'))
            conf['lattice']['type'], conf['lattice']['hr_input'] = 't_tp_tpp', [1., 0, 0]
            conf['lattice']['nk'] = [4, 4, 1]
            with contextlib.redirect_stdout(io.StringIO()):
                d_cfg = config.DgaConfig(conf)
            for part, o in (('box_sizes', d_cfg.box), ('optics', d_cfg.optics), ('pairing', d_cfg.eliash), ('debug', d_cfg.debug), ('output', d_cfg), ('dga', d_cfg),
                            ('dmft_input', d_cfg), ('poly_fitting', d_cfg)):
                for k, v in conf[part].items():
                    if (part, k) != ('box_sizes', 'niv_asympt'):
                        expect(plain(getattr(o, k)) == plain(v), f'{part}.{k} of the template: {v}, used: {getattr(o, k)}')
            ref = config.get_default_config_dict()
            for part in ref:
                expect(part in conf, f'section {part} is missing in the template')
        finally:
            os.chdir(here)


# ------------------------------------------------------------------------------------------------- log
class Clock:
    def __init__(self):
        self.t = 1e6

    def __call__(self):
        return self.t


class Arr:
    size, itemsize = 3 * 10 ** 6, 16


def td(s):
    s = round(s)
    days, s = divmod(s, 86400)
    return (f'{days} day{"s" if days != 1 else ""}, ' if days else '') + f'{s // 3600}:{s // 60 % 60:02d}:{s % 60:02d}'


SCHED = [0, 0, 0]
OPS = ['event', 'message', 'memory', 'cpu']
STEPS = [0.2, 59.7, 3600 * 25]


def apply(log, op, i):
    if op == 'event':
        log.log_event(f'event {i}')
    elif op == 'message':
        log.log_message(f'message : {i}')
    elif op == 'memory':
        log.log_memory_usage(f'array {i}', Arr, n_exists=i + 1)
    else:
        log.log_cpu_time(task=f' task {i} ')


def expected(seq):
    """ independent model of the log file: list of (total, task, text) or (text) """
    t = last = 0.
    out = []
    for i, (op, dt) in enumerate(seq):
        t += dt
        if op in ('event', 'cpu'):
            out.append((td(t), td(t - last), f'event {i}' if op == 'event' else f' task {i} '))
            last = t
        elif op == 'message':
            out.append((f'message : {i}',))
        else:
            out.append((f'array {i} uses (GB): {Arr.size * Arr.itemsize * (i + 1) / 1e9:.6f}',))
    return out


def check_log(text, seq):
    lines = text.split('\n')
    expect(lines[-1] == '', 'the last line is not complete')
    expect(lines[0] == ' Local-T : Total-T : Ctask-T :  Comment ', f'header {lines[0]!r}')
    want = expected(seq)
    expect(len(lines) - 2 == len(want), f'{len(lines) - 2} entries instead of {len(want)}: {lines}')
    for line, w in zip(lines[1:], want):
        expect(re.match(r'\d\d:\d\d:\d\d : ', line), f'no time in {line!r}')
        expect(line[11:] == ' : '.join(w), f'entry {line[11:]!r} instead of {" : ".join(w)!r}')


@contextlib.contextmanager
def clocked():
    c = Clock()
    with contextlib.ExitStack() as st:
        for name in ('time', 'monotonic', 'perf_counter'):
            st.enter_context(mock.patch.object(time, name, c))
        yield c


def log_seq(*seq):
    from dga import loggers

    class Comm:
        rank = 0
        size = 1
        Get_rank = staticmethod(lambda: 0)
    with scratch() as d:
        with open(d + 'dga.log', 'w', encoding='utf-8') as f:
            f.write('of an earlier run\n' * 3)
        with clocked() as c:
            log = loggers.MpiLogger(logfile=d + 'dga.log', comm=Comm(), output_path=d)
            for i, (op, dt) in enumerate(seq):
                c.t += dt
                apply(log, op, i)
                with open(d + 'dga.log', encoding='utf-8') as f:  # complete after each entry, a crash loses nothing
                    check_log(f.read(), seq[:i + 1])
        with open(d + 'dga.log', encoding='utf-8') as f:
            check_log(f.read(), seq)
        expect(os.listdir(d) == ['dga.log'], f'files {os.listdir(d)}')


def log_ranks(n, ops, bound):
    """ all processes log; only the root writes, under every schedule """
    from dga import loggers
    with scratch() as d:
        seq = [(op, 0.) for op in ops]

        def mk(w):
            comms = SimComm.create(w, n)

            def prog(r):
                def f():
                    log = loggers.MpiLogger(logfile=d + 'dga.log', comm=comms[r], output_path=d)
                    comms[r].barrier()
                    for i, op in enumerate(ops):
                        w.point('log')
                        apply(log, op, i)
                    comms[r].barrier()
                return f
            return [prog(r) for r in range(n)]

        def done(w, res):
            with open(d + 'dga.log', encoding='utf-8') as f:
                text = f.read()
            lines = text.split('\n')
            expect(len(lines) == len(ops) + 2, f'{len(lines) - 2} entries of {n} processes: {lines}')
            for line, w in zip(lines[1:], expected(seq)):
                expect(line.endswith(w[-1]), f'entry {line!r}')
        with clocked():
            runs, steps = explore(mk, n, bound=bound, on_run=done)
        SCHED[0] += runs
        SCHED[1] += steps
        SCHED[2] += explore.nodes


def stopwatch(*seq):
    """ RealTime: times of tasks written to a file """
    from dga import loggers
    with scratch() as d:
        with clocked() as c:
            rt = loggers.RealTime()
            with open(d + 't.txt', 'w', encoding='utf-8') as f:
                f.write('before\n')
            rt.create_file(d + 't.txt')
            want = ['before']
            t = last = 0.
            for i, (dt, rank) in enumerate(seq):
                c.t += dt
                t += dt
                rt.write_time_to_file(f'task {i}', rank=rank)
                if rank == 0:
                    want.append((f'task {i} took ', t - last, ' seconds'))
                    last = t
                expect(rt.tot_time() == td(t), f'total time {rt.tot_time()} instead of {td(t)}')
        with open(d + 't.txt', encoding='utf-8') as f:
            lines = f.read().split('\n')
        expect(lines[0] == 'before' and lines[-1] == '' and len(lines) == len(want) + 1, f'lines {lines}')
        for line, w in zip(lines[1:], want[1:]):
            expect(line.startswith(w[0]) and line.endswith(w[2]), f'line {line!r}')
            expect(abs(float(line[len(w[0]):-len(w[2])]) - w[1]) < 1e-6, f'line {line!r}, expected {w[1]} s')


def run(ck):
    t = ck.thorough
    ck.pcases(kind, [(f'kind:{k},slash={s},{o}', (k, s, o)) for k in kinds() for s in (True, False) for o in ('base', 'eliash', 'optics')])
    states = [s for s in itertools.product([None, *VALS], repeat=len(SLOTS))]
    ck.pcases(transitions, [(f'store:{"/".join(str(x) for x in s)}', s) for s in states])
    for section, grid in (('pairing', ELIASH), ('optics', OPTICS)):
        ck.pcases(settings, [(f'settings:{section},{"/".join(str(v) for v in vals)}', (section, i, dict(zip(grid, vals))))
                             for i, vals in enumerate(itertools.product(*grid.values()))])
    picks = itertools.product(*[range(len(v)) for v in SECTIONS.values()])
    ck.pcases(saved_config, [(f'config:{"".join(map(str, p))},old={sum(p) % 3}', (sum(p) % 3, *p)) for p in picks])
    for x in ('', 'a b', 'deep/er'):
        ck.case(f'template:{x}', template, x)
    n = 4 if t else 3
    ck.pcases(log_seq, [(f'log:{"/".join(f"{o}+{dt}" for o, dt in s)}', s) for m in range(n + 1)
                        for s in itertools.product(list(itertools.product(OPS, STEPS)), repeat=m)],
              trivial=lambda *s: not s)
    ck.pcases(stopwatch, [(f'stopwatch:{s}', s) for m in range(5 if t else 4) for s in itertools.product([(x, r) for x in STEPS for r in (0, 1)], repeat=m)],
              trivial=lambda *s: not s)
    for size, bound in ((2, 2), (3, 1)) if not t else ((2, 3), (3, 2), (4, 1)):
        for ops in itertools.product(OPS, repeat=2):
            ck.case(f'ranks:{size},{"/".join(ops)}', log_ranks, size, ops, bound)
    ck.count('states', STATES.value + SCHED[2])     # of the store, and nodes of the trees of schedules
    ck.count('transitions', TRANS.value + SCHED[1])
    ck.count('traces_validated_against_impl', TRANS.value + SCHED[0])
    ck.assumptions += ['arrays without axes and numbers are the same value', 'a write of one log entry is atomic with respect to other entries of the same process']
