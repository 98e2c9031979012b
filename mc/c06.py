"""C06: concurrent and repeated runs never share or overwrite an output directory."""
import contextlib
import io
import os
import stat


from mc.common import expect, scratch, Fail
from mc.simmpi import FsHooks, SimComm, explore
from mc.bench import P

LEVEL = 'model_checking'
RULE = ('process layout of the concurrent runs x pre-existing directory tree x requested name x entry point, each under every '
        'interleaving of file-system operations and messages with at most the stated number of preemptions; non-trivial: more '
        'than one process')

LAT = {'type': 't_tp_tpp', 'hr_input': [1.0, -0.2, 0.1], 'nk': [2, 2, 1], 'symmetries': 'none'}
HIST = {
    'empty': [],
    'dir': ['{b}/'],
    'gap': ['{b}/', '{b}_2/'],
    'two': ['{b}/', '{b}_1/'],
    'file': ['{b}'],
    'filedir': ['{b}', '{b}_1/', '{b}_2'],
}


def tree(d):
    """ every path below d with its content """
    out = {}
    for root, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(root, x), d)] = None
        for x in fs:
            with open(os.path.join(root, x), 'rb') as f:
                out[os.path.relpath(os.path.join(root, x), d)] = f.read()
    return out


def populate(d, base, hist):
    for h in HIST[hist]:
        p = d + h.format(b=base)
        if p.endswith('/'):
            os.makedirs(p)
            with open(p + 'old', 'w', encoding='utf-8') as f:
                f.write('old')
        else:
            with open(p, 'w', encoding='utf-8') as f:
                f.write('old')


def isdir(p):
    """ not a scheduling point """
    try:
        return stat.S_ISDIR(os.stat(p).st_mode)
    except OSError:
        return False


def get_dir(entry, base, comm):
    from dga import config as conf, dga_io, util
    if entry == 'util':
        return util.create_unique_dir_mpi(base, comm)
    if entry == 'io':
        return dga_io.set_output_path(base, comm=comm)
    o = conf.OutputConfig()
    p = o.set_output_path(base, comm)
    expect(o.output_path == p, 'path of the output object')
    return p


def folders(d, comm, sections):
    from dga import config as conf
    c = {'lattice': dict(LAT), 'box_sizes': {'niw_core': 1, 'niv_core': 2}, 'dmft_input': {'input_path': d}}
    if 'p' in sections:
        c['poly_fitting'] = {'n_fit': 2}
    with contextlib.redirect_stdout(io.StringIO()):
        cfg = conf.DgaConfig(c, comm=comm)
    cfg.create_folders()
    cfg.create_logger()
    cfg.logger.log_event('hello')
    paths = [cfg.output_path, cfg.pdir, cfg.eliash.output_path, cfg.optics.output_path]
    if 'p' in sections:
        paths.append(cfg.poly_fit_dir)
    for p in paths:
        expect(isdir(p), f'{p} does not exist when the process continues')
    return paths


def explore_case(runs, hist, base, entry, bound, sync):
    """ runs: number of processes of each concurrently started run (0: a serial run without communicator) """
    total = {'states': 0, 'transitions': 0}
    n = sum(max(r, 1) for r in runs)
    with scratch() as top:
        cur = {}

        def make(w):
            d = f'{top}{total["states"]}/'
            os.mkdir(d)
            populate(d, base, hist)
            cur['d'], cur['before'] = d, tree(d)
            total['states'] += 1
            progs = []
            for i, r in enumerate(runs):
                comms = [None] if r == 0 else SimComm.create(w, r)
                for c in comms:
                    progs.append(lambda c=c, i=i: body(d, c, i))
            return progs

        def body(d, c, i):
            rank = 0 if c is None else c.rank
            if entry.startswith('folders'):
                paths = folders(d, c, entry[8:])
            else:
                paths = [get_dir(entry, d + base, c)]
                expect(isdir(paths[0]), f'{paths[0]} does not exist when the process continues')
            with open(f'{paths[0]}/data{rank}', 'w', encoding='utf-8') as f:
                f.write(f'run {i}')
            return i, paths

        def done(w, res):
            d = cur['d']
            after = tree(d)
            for p, c in cur['before'].items():
                expect(p in after and after[p] == c, f'pre-existing {p} was changed')
            byrun = {}
            for i, paths in res:
                byrun.setdefault(i, []).append([os.path.realpath(p) for p in paths])
            seen = {}
            for i, lst in byrun.items():
                expect(all(x == lst[0] for x in lst), f'the processes of one run use different directories: {lst}')
                for p in lst[0]:
                    expect(p not in seen, f'runs {seen.get(p)} and {i} share {os.path.relpath(p, d)}')
                    seen[p] = i
                    rel = os.path.relpath(p, os.path.realpath(d))
                    expect(rel not in cur['before'], f'run {i} uses the pre-existing {rel}')
                main = lst[0][0]
                got = sorted(f for f in os.listdir(main) if f.startswith('data'))
                expect(got == [f'data{r}' for r in range(max(runs[i], 1))], f'run {i} finds {got} in its directory')
                for f in got:
                    with open(os.path.join(main, f), encoding='utf-8') as h:
                        expect(h.read() == f'run {i}', f'the data of run {i} was overwritten')
            new = {p for p in after if p not in cur['before'] and after[p] is None}
            want = {os.path.relpath(p, os.path.realpath(d)) for p in seen}
            expect(new == want, f'directories created: {sorted(new)}, returned: {sorted(want)}')
            import shutil
            shutil.rmtree(d)

        with FsHooks():
            r, s = explore(make, n, bound=bound, on_run=done, sync=sync)
    return r, s, explore.nodes


_RES = {}


def pcase(runs, hist, base, entry, bound, sync, path):
    r, s, n = explore_case(runs, hist, base, entry, bound, sync)
    with open(path, 'a', encoding='utf-8') as f:
        f.write(f'{r} {s} {n}\n')


def repeat_case(base, entry, k):
    """ k runs one after another, each leaving its data behind """
    with scratch() as d:
        seen = []
        for i in range(k):
            if entry.startswith('folders'):
                p = folders(d, P(), entry[8:])[0]
            else:
                p = get_dir(entry, d + base, P() if i % 2 else None)
            expect(isdir(p) and not os.listdir(p) or entry.startswith('folders'), f'{p} is not a fresh directory')
            p = os.path.realpath(p)
            expect(p not in seen, f'directory {p} used again')
            for q in seen:
                with open(q + '/x', encoding='utf-8') as f:
                    expect(f.read() == q, 'data of an earlier run changed')
            seen.append(p)
            with open(p + '/x', 'w', encoding='utf-8') as f:
                f.write(p)


def run(ck):
    th = ck.thorough
    import dga.config  # noqa: F401  (imports are not part of the explored executions)
    import dga.dga_io  # noqa: F401
    items = []
    with scratch() as d:
        log = d + 'counts'
        open(log, 'w', encoding='utf-8').close()

        def add(runs, hist, base, entry, bound, sync=False):
            items.append((f'conc:{"+".join(map(str, runs))},{hist},{base},{entry},preemptions<={bound},{"sync" if sync else "weak"}',
                          (runs, hist, base, entry, bound, sync, log)))
        full = 99
        for hist in HIST:
            for base, entry in [('LDGA', 'util'), ('LDGA', 'io'), ('LDGA', 'cfg'), ('a.b', 'util')] + ([('a.b', 'io'), ('a.b', 'cfg')] if th else []):
                add((0, 0), hist, base, entry, full)
                add((1, 1), hist, base, entry, 3 if not th else full)
                add((2, 1), hist, base, entry, 1 if not th else 3)
                add((2, 0), hist, base, entry, 1 if not th else 3)
            if th or hist in ('empty', 'filedir'):
                add((2, 2), hist, 'LDGA', 'util', 1 if not th else 2)
                add((0, 0, 0), hist, 'LDGA', 'util', 2 if not th else 3)
                add((1, 1, 1), hist, 'LDGA', 'cfg', 1 if not th else 2)
                add((3,), hist, 'LDGA', 'io', 2 if not th else 5)
                add((3,), hist, 'LDGA', 'io', 2 if not th else 3, True)
        for sec in ('', 'p'):
            add((1,), 'empty', 'x', 'folders:' + sec, full)
            add((2,), 'empty', 'x', 'folders:' + sec, 1 if not th else 2)
            add((1, 1), 'empty', 'x', 'folders:' + sec, 1 if not th else 2)
            add((2, 1), 'empty', 'x', 'folders:' + sec, 0 if not th else 1)
            add((3,), 'empty', 'x', 'folders:' + sec, 0 if not th else 1)
            add((2,), 'empty', 'x', 'folders:' + sec, 1, True)
        ck.pcases(pcase, items, chunk=1, trivial=lambda runs, *a: sum(max(r, 1) for r in runs) < 2)
        for line in open(log, encoding='utf-8'):
            r, s, n = map(int, line.split())
            ck.count('states', n)
            ck.count('transitions', s)
            ck.count('traces_validated_against_impl', r)
    for base in ('LDGA', 'LDGA_1', 'a.b', 'a.b_1', 'x/'):
        for entry in ('util', 'io', 'cfg', 'folders:', 'folders:p'):
            ck.case(f'repeat:{base},{entry}', repeat_case, base.rstrip('/'), entry, 12 if not th else 40)
