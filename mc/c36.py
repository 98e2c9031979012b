"""C36: a run killed at any point leaves its input, earlier results and later runs intact."""
import contextlib
import io
import os
import shutil
import tempfile
import threading
import builtins

from mc import c03, pipe, simmpi
from mc.common import expect, scratch

LEVEL = 'fault_enumeration'
RULE = ('feature sets of the config x number of processes x every operation that changes files, before which the whole job is '
        'killed (kills in between leave the same files) x state of the file written last (complete / cut in half) x an earlier run present or not; after each kill the input and the '
        'earlier run are compared byte by byte and a new run is compared with the undisturbed one; non-trivial: the killed run had created files')

CFG = {
    'minimal': ({}, 1),
    'pairing': (dict(niw=4, niv=6, nsh=2, pairing={'do_pairing_vertex': True, 'do_eliash': True}, output={'verbosity': 0}), 1),
    'full': (dict(niw=4, niv=6, nsh=5, **c03.FULL), 1),
    'keep': (dict(niw=4, niv=6, nsh=2, pairing={'do_pairing_vertex': True}, output={'verbosity': 0}, debug={'keep_rank_files': True}), 1),
}


class Killed(BaseException):
    pass


class Killer:
    """ counts the operations of all processes and kills the job before operation number `at` """

    def __init__(self, root, at):
        self.root, self.at = os.path.realpath(root), at
        self.n = 0
        self.dead = False
        self.last = None
        self.log = []
        self.busy = threading.local()

    def op(self, name, path=None):
        if simmpi.World.here() is None:
            return
        if path is not None:
            try:
                path = os.path.realpath(os.fspath(path))
            except TypeError:
                return
            if isinstance(path, bytes):
                path = path.decode()
            if not path.startswith(self.root):
                return
        if self.dead:
            raise Killed()
        self.log.append((name, path))
        if self.n == self.at:
            self.dead = True
            raise Killed()
        self.n += 1

    def wrote(self, path):
        if simmpi.World.here() is not None:
            self.last = os.fspath(path)

    @contextlib.contextmanager
    def installed(self):
        import h5py
        saved = []

        def patch(mod, name, new):
            saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, new)

        def fs(fn, name):
            def hooked(*a, **k):
                if getattr(self.busy, 'in_', False):
                    return fn(*a, **k)
                self.op(name, a[0] if a else None)
                self.busy.in_ = True
                try:
                    return fn(*a, **k)
                finally:
                    self.busy.in_ = False
            return hooked
        for name in ('mkdir', 'makedirs', 'remove', 'unlink', 'rename', 'replace', 'rmdir', 'truncate'):
            patch(os, name, fs(getattr(os, name), name))
        for name in ('rmtree', 'copy', 'copyfile', 'move'):
            patch(shutil, name, fs(getattr(shutil, name), name))
        bopen = builtins.open

        def opened(file, mode='r', *a, **k):
            w = any(c in mode for c in 'wax+')
            if isinstance(file, (str, bytes, os.PathLike)):
                self.op('write' if w else 'read', file)
            f = bopen(file, mode, *a, **k)
            if w and isinstance(file, (str, bytes, os.PathLike)):
                self.wrote(file)
            return f
        patch(builtins, 'open', opened)
        patch(io, 'open', opened)
        hinit = h5py.File.__init__

        def h5(me, name, *a, **k):
            self.op('h5py', name)
            hinit(me, name, *a, **k)
            if isinstance(name, (str, bytes, os.PathLike)):
                self.wrote(name)
        patch(h5py.File, '__init__', h5)
        point = simmpi.World.point

        def pt(me, label, cond=None):
            if not me.aborting and not label.startswith('wait'):
                self.op(label)
            return point(me, label, cond)
        patch(simmpi.World, 'point', pt)
        try:
            yield self
        finally:
            for mod, name, old in reversed(saved):
                setattr(mod, name, old)


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(r + '/' + x, d)] = None
        for x in fs:
            with open(r + '/' + x, 'rb') as f:
                out[os.path.relpath(r + '/' + x, d)] = f.read()
    return out


def launch(d, n, killer=None, rr=False):
    with pipe.environment(d):
        w = simmpi.World(n, rr=rr)
        pipe.WORLD.comms = simmpi.SimComm.create(w, n)
        try:
            if killer is None:
                w.run([pipe.program(d) for _ in range(n)])
            else:
                with killer.installed():
                    try:
                        w.run([pipe.program(d) for _ in range(n)])
                    except BaseException:  # a killed process may die of consequences of the kill, e.g. in a half-opened file
                        if not killer.dead:
                            raise
        finally:
            pipe.WORLD.comms = None
    return w


def runs(d):
    return sorted(x for x in os.listdir(d) if os.path.isdir(d + x))


def setup(name):
    kw, _ = CFG[name]
    cfg = pipe.conf(**kw)
    b = cfg['box_sizes']
    return cfg, pipe.model(b['niv_core'] + 1, b['niw_core'] + 1, 60)


def undisturbed(name, n, top):
    """ -> results, number of operations, tree of a complete run """
    cfg, data = setup(name)
    d = top + 'in/'
    pipe.prepare(d, cfg, data)
    k = Killer(d, None)
    launch(d, n, k, rr=n > 1)
    # killing before a message or a read leaves the same files as killing before the next operation that changes files
    return pipe.collect(d)[0], [i for i, (name, path) in enumerate(k.log) if path is not None and name != 'read'], d


REF = {}


def kill(name, n, at, torn, earlier):
    ref, _, old = REF[name, n]
    cfg, data = setup(name)
    with scratch() as top:
        d = top + 'in/'
        pipe.prepare(d, cfg, data)
        if earlier:
            for x in runs(old):
                shutil.copytree(old + x, d + x)
        before = tree(d)
        k = Killer(d, at)
        launch(d, n, k, rr=n > 1)
        expect(k.dead, f'only {k.n} operations in this run')
        what = f'killed before operation {at} ({k.log[-1][0]} {os.path.relpath(k.log[-1][1], d) if k.log[-1][1] else ""})'
        if torn and k.last and os.path.isfile(k.last) and os.path.realpath(k.last).startswith(os.path.realpath(d)):
            rel = os.path.relpath(k.last, d)
            expect(rel not in before, f'{what}: {rel} existed before this run and was opened for writing')
            os.truncate(k.last, os.path.getsize(k.last) // 2)
            what += f', {rel} incomplete'
        after = tree(d)
        for f, c in before.items():
            expect(f in after, f'{what}: {f} is gone')
            expect(after[f] == c, f'{what}: {f} was changed')
        mine = {f for f in after if f not in before}
        roots = {f.split('/')[0] for f in mine}
        expect(len(roots) <= 1 and not any(after[r] is not None for r in roots), f'{what}: leaves {sorted(roots)} next to the input')
        have = set(runs(d))
        launch(d, n, rr=n > 1)
        new = set(runs(d)) - have
        expect(len(new) == 1, f'{what}: the next run used the directories {sorted(new)}')
        final = tree(d)
        for f, c in after.items():
            expect(f in final and final[f] == c, f'{what}: the next run changed {f}')
        c03.compare(c03.without_ranks(pipe.collect_run(d + new.pop() + '/')), c03.without_ranks(ref), f'{what}: the next run')
    with open(LOG, 'a', encoding='utf-8') as f:
        f.write(f'{int(bool(mine))} {int(torn)}\n')


LOG = None


def run(ck):
    global LOG
    import dga.dga_main  # noqa: F401
    t = ck.thorough
    top = tempfile.mkdtemp(prefix='verif_mc_')
    LOG = top + '/log'
    open(LOG, 'w', encoding='utf-8').close()
    try:
        items = []
        plan = [('minimal', 2), ('pairing', 1), ('full', 2)] if not t else [(k, n) for k in CFG for n in (1, 2, 3)]
        for name, n in plan:
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    REF[name, n] = undisturbed(name, n, f'{top}/{name}{n}/')
                except Exception as e:
                    ck.record(f'undisturbed:{name},n={n}', f'{type(e).__name__}: {e}')
                    continue
            total = REF[name, n][1]
            ck.count('kill_points', len(total))
            for at in total:
                for torn in (False, True):
                    for earlier in (False, True):
                        if not t and (torn, earlier) != ((at // 2) % 2 == 1, at % 2 == 1):
                            continue
                        items.append((f'kill:{name},n={n},operation={at},{"torn" if torn else "complete"},{"second" if earlier else "first"} run',
                                      (name, n, at, torn, earlier)))
        ck.pcases(kill, items, chunk=2, trivial=lambda name, n, at, *a: at == REF[name, n][1][0])
        lines = open(LOG, encoding='utf-8').read().split('\n')
        ck.count('kills_with_partial_output', sum(x.startswith('1') for x in lines))
        ck.assumptions += ['a kill ends all processes of the job at once; the file written last may be incomplete, earlier ones are on disk', 'figures are drawn but not written']
    finally:
        shutil.rmtree(top, ignore_errors=True)
