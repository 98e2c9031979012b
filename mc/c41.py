"""C41: a failing file operation is never swallowed: the run ends with an error or with complete, correct results."""
import contextlib
import io
import os
import shutil
import tempfile

from mc import common, c03, c04, c28, c36, c37, pipe, simmpi
from mc.common import expect, scratch

LEVEL = 'fault_enumeration'
RULE = ('feature sets of the config (and the continuation stage) x number of processes x every file operation (open, read, write, create, delete, write and close of per-process '
        'files) x kind of fault (refused once, refused from then on, device full while writing): the run either ends with an error or leaves exactly the files of an undisturbed '
        'run; non-trivial: the fault was injected')

CFG = {
    'minimal': ({}, 1),
    'hrfile': (dict(nk=(4, 4, 1), hr={k: complex(v) for k, v in c04.HS.items()}, output={'save_vrg': True}), 1),
    'full': (dict(niw=4, niv=6, nsh=5, **c03.FULL), 1),
    'clean': (dict(niw=4, niv=6, nsh=2, pairing={'do_pairing_vertex': True, 'do_eliash': True}, output={'verbosity': 0, 'keep_pairing_vertex': False}), 1),
}
NOSPACE = 28, 'No space left on device'


class Faulty(c36.Killer):
    """ refuses file operation number `at` (`for_ever`: and all later ones that write); `full`: what is written to the file is refused """

    def __init__(self, root, at=None, kind='once'):
        super().__init__(root, at)
        self.kind = kind
        self.hit = None
        self.ops = []

    def fault(self, name, path):
        """ -> whether this operation fails """
        i = len(self.ops)
        self.ops.append((name, path))
        if self.at is None:
            return False
        if i == self.at or (self.kind == 'forever' and i > self.at and name not in ('read', 'close')):
            self.hit = self.hit or (name, path)
            return True
        return False

    def inside(self, path):
        if simmpi.World.here() is None or getattr(self.busy, 'in_', False):
            return None
        try:
            path = os.path.realpath(os.fspath(path))
        except TypeError:
            return None
        return path if isinstance(path, str) and path.startswith(self.root) else None

    @contextlib.contextmanager
    def installed(self):
        import builtins
        import h5py
        saved = []

        def patch(mod, name, new):
            saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, new)

        def fs(fn, name):
            def hooked(*a, **k):
                p = self.inside(a[0]) if a else None
                if p is None:
                    return fn(*a, **k)
                if self.fault(name, p):
                    raise OSError(*NOSPACE)
                self.busy.in_ = True
                try:
                    return fn(*a, **k)
                finally:
                    self.busy.in_ = False
            return hooked
        for name in ('mkdir', 'makedirs', 'remove', 'unlink', 'rename', 'replace', 'rmdir', 'truncate'):
            patch(os, name, fs(getattr(os, name), name))
        for name in ('rmtree', 'copy', 'copyfile', 'move'):
            patch(shutil, name, fs(getattr(shutil, name), name))
        bopen = builtins.open

        def opened(file, mode='r', *a, **k):
            p = self.inside(file) if isinstance(file, (str, bytes, os.PathLike)) else None
            if p is None:
                return bopen(file, mode, *a, **k)
            w = any(c in mode for c in 'wax+')
            if self.fault('write' if w else 'read', p):
                if self.kind == 'full' and w and '+' not in mode:
                    return bopen('/dev/full', mode, *a, **k)
                raise OSError(*NOSPACE)
            return bopen(file, mode, *a, **k)
        patch(builtins, 'open', opened)
        patch(io, 'open', opened)
        hinit, hclose = h5py.File.__init__, h5py.File.close
        hset, hcreate = h5py.Group.__setitem__, h5py.Group.create_dataset

        def h5(me, name, *a, **k):
            p = self.inside(name) if isinstance(name, (str, bytes, os.PathLike)) else None
            if p is not None and self.fault('h5py', p):
                raise OSError(*NOSPACE)
            hinit(me, name, *a, **k)

        def data(fn):
            def hooked(me, name, *a, **k):
                p = self.inside(me.file.filename)
                if p is None:
                    return fn(me, name, *a, **k)
                if self.fault('data', p):
                    raise OSError(*NOSPACE)
                self.busy.in_ = True
                try:
                    return fn(me, name, *a, **k)
                finally:
                    self.busy.in_ = False
            return hooked

        def close(me):
            p = self.inside(me.filename) if me.id.valid else None
            if p is not None and self.fault('close', p):
                size = os.path.getsize(p)
                hclose(me)
                with bopen(p, 'r+b') as f:      # what was not on disk before is lost
                    f.truncate(min(size, os.path.getsize(p)) // 2)
                raise OSError(*NOSPACE)
            return hclose(me)
        patch(h5py.File, '__init__', h5)
        patch(h5py.File, 'close', close)
        patch(h5py.Group, '__setitem__', data(hset))
        patch(h5py.Group, 'create_dataset', data(hcreate))
        try:
            yield self
        finally:
            for mod, name, old in reversed(saved):
                setattr(mod, name, old)


def launch(d, n, k):
    """ -> error of the run or None """
    with pipe.environment(d):
        w = simmpi.World(n, rr=n > 1)
        pipe.WORLD.comms = simmpi.SimComm.create(w, n)
        try:
            with k.installed():
                w.run([pipe.program(d) for _ in range(n)])
        except (Exception, SystemExit) as e:    # pylint: disable=broad-except
            return e
        finally:
            pipe.WORLD.comms = None
    return None


def continuation(d, n, k):
    w = simmpi.World(n, rr=n > 1)
    comms = simmpi.SimComm.create(w, n)

    def prog(c):
        from dga import dga_max_ent
        dga_max_ent.main(path=d, comm=c)
    try:
        with c28.solver(), pipe.quiet_plots(), contextlib.redirect_stdout(io.StringIO()), k.installed():
            w.run([lambda c=c: prog(c) for c in comms])
    except (Exception, SystemExit) as e:        # pylint: disable=broad-except
        return e
    return None


def make(name, top):
    """ input of a run -> directory """
    if name.startswith('cont'):
        d = top + 'run/'
        os.mkdir(d)
        cfg = pipe.conf(nk=(4, 4, 1), niw=2, niv=4, nsh=20)
        cfg['max_ent'] = {**c37.ME, 's_dga': {'do_cont': True}, 'g_dga': {'do_cont': True}, 'chi_d': {'do_cont': True}, 'chi_m': {'do_cont': True}}
        del cfg['dmft_input']
        with contextlib.redirect_stdout(io.StringIO()):
            c37.stored(d, cfg, 24, 5, 40, 5.0, 0.9, False)
        return d
    cfg, data = c36setup(name)
    d = top + 'in/'
    pipe.prepare(d, cfg, data)
    return d


def c36setup(name):
    cfg = pipe.conf(**CFG[name][0])
    b = cfg['box_sizes']
    return cfg, pipe.model(b['niv_core'] + 1, b['niw_core'] + 1, 60)


def files(name, d):
    if name.startswith('cont'):
        return pipe.collect_run(d)
    return pipe.collect(d)[0]


def go(name, d, n, k):
    return continuation(d, n, k) if name.startswith('cont') else launch(d, n, k)


def leftovers(name, x):
    """ failing to delete a temporary file may leave it behind """
    out = {f: v for f, v in x.items() if 'Rank' not in f}
    for f, v in out.items():
        if f.endswith('.yaml') and isinstance(v.get('lattice', {}).get('hr_input'), str):     # the scratch directories differ
            v['lattice']['hr_input'] = os.path.basename(v['lattice']['hr_input'])
    return out


REF = {}


def fault(name, n, at, kind):
    ref, ops = REF[name, n]
    with scratch() as top:
        d = make(name, top)
        k = Faulty(d, at, kind)
        err = go(name, d, n, k)
        what = f'{ops[at][0]} {ops[at][1]} (operation {at}) fails ({kind})'
        expect(k.hit is not None, f'{what}: only {len(k.ops)} operations')
        if err is None:
            got = files(name, d)
            c03.compare(leftovers(name, got), leftovers(name, ref), f'{what}, no error reported')
    with open(LOG, 'a', encoding='utf-8') as f:
        f.write('1\n' if err is not None else '0\n')


LOG = None


def run(ck):
    global LOG
    import dga.dga_main  # noqa: F401
    import dga.dga_max_ent  # noqa: F401
    t = ck.thorough
    top = tempfile.mkdtemp(prefix='verif_mc_')
    LOG = top + '/log'
    open(LOG, 'w', encoding='utf-8').close()
    try:
        items = []
        plan = [('minimal', 1), ('hrfile', 1), ('full', 2), ('clean', 1), ('cont', 1)] if not t else [(k, n) for k in list(CFG) + ['cont'] for n in (1, 2, 3)]
        for name, n in plan:
            here = f'{top}/{name}{n}/'
            os.mkdir(here)
            d = make(name, here)
            k = Faulty(d)
            err = go(name, d, n, k)
            if err is not None:
                ck.record(f'undisturbed:{name},n={n}', f'{type(err).__name__}: {err}')
                continue
            REF[name, n] = files(name, d), [(o, os.path.relpath(p, os.path.realpath(d))) for o, p in k.ops]
            ck.count('fault_points', len(k.ops))
            for at, (o, p) in enumerate(REF[name, n][1]):
                kinds = ['once'] + (['full'] if o == 'write' and (t or not p.endswith('dga.log')) else []) + (['forever'] if o not in ('read', 'close') and (t or at % 9 == 0) else [])
                if not t and (p.endswith('dga.log') and at % 5 and at > 40 or name == 'clean' and o in ('h5py', 'data', 'close') and at % 3):
                    continue
                for kind in kinds:
                    items.append((f'fault:{name},n={n},operation={at}:{o} {os.path.basename(p)},{kind}', (name, n, at, kind)))
        ck.pcases(fault, items, chunk=2)
        lines = open(LOG, encoding='utf-8').read().split('\n')
        ck.count('runs_ending_with_an_error', sum(x == '1' for x in lines))
        ck.assumptions += ['figures are drawn but not written', 'an error on one process ends the job, as mpirun does when a process fails']
    finally:
        shutil.rmtree(top, ignore_errors=True)
