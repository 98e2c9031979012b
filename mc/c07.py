"""C07: life cycle of the per-process files through which the processes hand over vertex data."""
import gc
import os

import h5py
import numpy as np

from mc.common import expect, scratch, Fail, raises
from mc.bench import P

LEVEL = 'model_checking'
RULE = ('all sequences of file operations (create, write, failing write, read, delete, drop) by two processes and two file names up to '
        'the depth bound, then breadth-first over the states of the reference model; every step compared with the model: contents, '
        'closed handles, propagated errors, files of others; non-trivial: at least one operation after a creation')


class Boom(Exception):
    pass


FILES = [('Q', 0), ('Q', 1), ('fq_', 0)]
OPS = ['create', 'write', 'fail', 'read', 'delete', 'drop']


def fname(f):
    return f'{f[0]}Rank{f[1]:05d}.hdf5'


def step_model(state, f, op):
    """ reference model: state[f] = (contents or None, object alive) -> new state, enabled """
    content, alive = state[f]
    if op == 'create':
        new = ((content if content is not None else 0), True)
    elif not alive:
        return None
    elif op in ('write', 'fail'):
        new = (content + 1 if content is not None else None, True)
    elif op == 'read':
        new = (content, True)
    elif op == 'delete':
        new = (None, True)
    else:
        new = (content, False)
    s = dict(state)
    s[f] = new
    return s


def payload(f, n):
    return np.arange(3) + 10 * n + 1000 * FILES.index(f) + 1j


class Sys:
    """ the real objects """

    def __init__(self, d, slash, size):
        self.d, self.path, self.size = d, d if slash else d.rstrip('/'), size
        self.obj = {}

    def do(self, f, op, n):
        from dga import mpi_aux
        if op == 'create':
            self.obj.pop(f, None)
            gc.collect(0)
            self.obj[f] = mpi_aux.create_distributor(self.size + 1, P(f[1], self.size), self.path, f[0]) if n is None else \
                mpi_aux.MpiDistributor(ntasks=self.size + 1, comm=P(f[1], self.size), output_path=self.path, name=f[0])
            return
        if op == 'drop':
            del self.obj[f]
            return
        d = self.obj[f]
        if op == 'delete':
            d.delete_file()
        elif op == 'write':
            if n is None:     # the file was deleted: writing must not pretend to succeed
                def w():
                    with d as h:
                        h['/g0/x'] = payload(f, 0)
                expect(raises(w), 'writing to a deleted file reports success')
            else:
                with d as h:
                    h[f'/g{n}/x'] = payload(f, n)
        elif op == 'fail':
            ok = False
            try:
                with d as h:
                    if n is not None:
                        h[f'/g{n}/x'] = payload(f, n)
                    raise Boom()
            except Boom:
                ok = True
            expect(ok, 'an error inside the block must reach the caller')
        elif op == 'read':
            if n is None:
                return
            with d as h:
                got = sorted(h.keys())
                expect(got == [f'g{i}' for i in range(n)], f'file lists {got}, expected {n} groups')

    def check(self, state):
        want = {fname(f) for f, (c, a) in state.items() if c is not None}
        got = set(os.listdir(self.d))
        expect(got == want, f'files {sorted(got)}, expected {sorted(want)}')
        for f, (c, _) in state.items():
            if c is None:
                continue
            with h5py.File(self.d + fname(f), 'r+') as h:   # refused if somebody still holds it open read-only or is writing
                keys = sorted(h.keys())
                expect(keys == sorted(f'g{i}' for i in range(c)), f'{fname(f)}: groups {keys}, expected {c}')
                for i in range(c):
                    x = h[f'g{i}/x'][()]
                    expect(np.array_equal(x, payload(f, i)), f'{fname(f)}: g{i} = {x}')
        for f, o in self.obj.items():
            expect(not o.file, f'{fname(f)} is left open')


INIT = {f: (None, False) for f in FILES}


def replay(seq, slash):
    with scratch() as d:
        s = Sys(d, slash, 2)
        state = dict(INIT)
        for k, (f, op) in enumerate(seq):
            new = step_model(state, f, op)
            expect(new is not None, 'sequence not enabled in the model')
            try:
                s.do(f, op, 0 if op == 'create' else state[f][0])
                s.check(new)
            except Fail as e:
                raise Fail(f'step {k} {op} {fname(f)}: {e}') from None
            state = new


def seqs(depth, start=(), state=None, files=FILES, ops=OPS):
    """ all maximal enabled sequences """
    state = INIT if state is None else state
    if depth == 0:
        yield start
        return
    for f in files:
        for op in ops:
            n = step_model(state, f, op)
            if n is not None:
                yield from seqs(depth - 1, start + ((f, op),), n, files, ops)


def batch(lst, slash):
    for s in lst:
        replay(s, slash)


def zero_tasks(size, ntasks):
    """ every process has a file, also one without tasks """
    from dga import mpi_aux
    with scratch() as d:
        ds = [mpi_aux.MpiDistributor(ntasks=ntasks, comm=P(r, size), output_path=d, name='Q') for r in range(size)]
        expect(sorted(os.listdir(d)) == [fname(('Q', r)) for r in range(size)], 'one file per process')
        for r, x in enumerate(ds):
            with x as h:
                for i in x.my_tasks:
                    h[f'/t{i}'] = i
        seen = []
        for r in range(size):
            with h5py.File(d + fname(('Q', r)), 'r') as h:
                seen += sorted((int(k[1:]) for k in h), key=int)
        expect(seen == list(range(ntasks)), f'tasks in the files: {seen}')
        for k, x in enumerate(ds):
            x.delete_file()
            expect(sorted(os.listdir(d)) == [fname(('Q', r)) for r in range(k + 1, size)], 'only the own file is deleted')
        for x in ds:
            x.delete_file()     # twice: no error
        x = mpi_aux.MpiDistributor(ntasks=ntasks, comm=P(0, size))
        x.delete_file()
        expect(os.listdir(d) == [], 'a distributor without path creates no file')


def run(ck):
    import dga.mpi_aux  # noqa: F401
    th = ck.thorough
    depth = 5 if th else 4
    trans = 0
    items = []
    for slash in (True, False):
        lst = list(seqs(depth if slash else depth - 1))
        trans += sum(len(s) for s in lst)
        for i in range(0, len(lst), 50):
            items.append((f'seq:{"slash" if slash else "plain"},depth={depth if slash else depth - 1},block={i}', (lst[i:i + 50], slash)))
        ck.count('traces_validated_against_impl', len(lst))
        one = list(seqs(depth + 2, files=FILES[:1], ops=OPS))
        trans += sum(len(s) for s in one)
        for i in range(0, len(one), 50):
            items.append((f'one:{"slash" if slash else "plain"},depth={depth + 2},block={i}', (one[i:i + 50], slash)))
        ck.count('traces_validated_against_impl', len(one))
    # breadth-first over model states: every transition of every reachable state (at most 2 groups per file)
    seen = {tuple(sorted(INIT.items())): ()}
    front = [INIT]
    walks = []
    while front:
        nxt = []
        for st in front:
            path = seen[tuple(sorted(st.items()))]
            for f in FILES:
                for op in OPS:
                    n = step_model(st, f, op)
                    if n is None or (n[f][0] or 0) > (2 if th else 1):
                        continue
                    walks.append(path + ((f, op),))
                    k = tuple(sorted(n.items()))
                    if k not in seen:
                        seen[k] = path + ((f, op),)
                        nxt.append(n)
        front = nxt
    for i in range(0, len(walks), 50):
        items.append((f'bfs:block={i}', (walks[i:i + 50], True)))
    ck.count('states', len(seen))
    ck.count('transitions', len(walks) + trans)
    ck.count('traces_validated_against_impl', len(walks))
    ck.pcases(batch, items, chunk=1)
    for size in range(1, 8):
        for nt in range(0, 10):
            ck.case(f'tasks:{size},{nt}', zero_tasks, size, nt, trivial=(nt == 0))
