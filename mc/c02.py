"""C02: collective operations move array data faithfully for every rank count, layout, dtype, root and schedule."""
import multiprocessing as mp
import os
import pickle
import subprocess
import sys

import numpy as np

from mc.common import ENV0, Fail, NPROC, ONLY, _guard, expect, same, scratch
from mc.simmpi import SimComm, explore

LEVEL = 'model_checking'
RULE = ('program x ranks x tasks x inner shape x dtype x memory layout x root, each under every schedule with at most the '
        'stated number of preemptions and under weakest and synchronising collectives; the same programs run under real mpirun; '
        'non-trivial: more than one rank')

DTYPES = ['complex128', 'float64', 'int64', 'complex64', 'float32', 'int32']
LAYOUTS = ['C', 'F', 'T', 'strided', 'neg']


def full(ntasks, inner, dtype, seed=0):
    n = ntasks * int(np.prod(inner, dtype=int))
    a = np.arange(1, n + 1).astype(dtype) + np.array(seed).astype(dtype)
    if np.dtype(dtype).kind == 'c':
        a = a + (1j * (3 * n + np.arange(n)[::-1])).astype(dtype)
    return a.reshape((ntasks,) + tuple(inner))


def lay(a, layout):
    """ same values, other memory layout """
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'T':
        return np.ascontiguousarray(a.T).T
    if layout == 'strided':
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if layout == 'neg':
        return np.ascontiguousarray(a[::-1])[::-1]
    return a.copy()


def program(comm, spec):
    """ runs on one rank; returns the list of observed results (real or simulated communicator) """
    from dga import mpi_aux
    op, ntasks, inner, dtype, layout, root, garbage = spec
    d = mpi_aux.MpiDistributor(ntasks=ntasks, comm=comm)
    me = comm.Get_rank()
    a = full(ntasks, inner, dtype)
    mine = lay(a[d.my_slice], layout)
    keep = mine.copy()
    out = []
    if op == 'allgather':
        out.append(('all', d.allgather(mine)))
    elif op == 'gather':
        r = d.gather(mine, root=root)
        out.append(('all', r) if me == root else None)
    elif op == 'gather0':
        r = d.gather(mine)
        out.append(('all', r) if me == 0 else None)
    elif op in ('scatter', 'scatter0'):
        src = lay(a, layout)
        rt = root if op == 'scatter' else 0
        arg = src
        if me != rt:
            arg = {'none': None, 'same': src, 'shape': np.full((1, 7), 1.5), 'dtype': np.zeros(a.shape, 'int16')}[garbage]
        r = d.scatter(arg, root=rt) if op == 'scatter' else d.scatter(arg)
        out.append(('mine', r))
        if me == rt:
            same(src, a, 'scatter changes its input')
    elif op == 'bcast':
        obj = {'a': lay(a, layout), 'n': 3} if me == root else 'nothing'
        r = d.bcast(obj, root=root)
        expect(r['n'] == 3, 'bcast object differs')
        out.append(('all', r['a']))
    elif op == 'bcast0':
        out.append(('all', d.bcast(lay(a, layout) if me == 0 else None)))
    elif op == 'allreduce':
        r = d.allreduce(lay(full(ntasks, inner, dtype, me), layout))
        out.append(('sum', r))
    elif op == 'chain':        # a typical sequence: distribute, work, collect, reduce; a second distributor interleaved
        d2 = mpi_aux.MpiDistributor(ntasks=ntasks + 1, comm=comm)
        loc = d.scatter(lay(a, layout) if me == root else None, root=root)
        out.append(('mine', loc))
        b = d2.allgather(d2.my_tasks.astype(float)[:, None] * np.ones((1, 2)))
        same(b, np.arange(ntasks + 1)[:, None] * np.ones((1, 2)), 'second distributor')
        out.append(('all', d.allgather(lay(loc, layout))))
        s = d2.allreduce(np.array([[1.0, me + 1.0]]))
        n = comm.Get_size()
        same(s, np.array([[n, n * (n + 1) / 2.]]), 'allreduce')
        g = d.gather(loc, root=root)
        out.append(('all', g) if me == root else None)
        out.append(('all', d.bcast(g if me == root else None, root=root)))
    same(mine, keep, 'the input array is changed')
    return out


def oracle(spec, me, size, out):
    op, ntasks, inner, dtype, layout, root, garbage = spec
    a = full(ntasks, inner, dtype)
    base, ex = divmod(ntasks, size)
    sizes = [base + (1 if r >= size - ex else 0) for r in range(size)]
    lo = sum(sizes[:me])
    for o in out:
        if o is None:
            continue
        kind, val = o
        want = {'all': a, 'mine': a[lo:lo + sizes[me]]}.get(kind)
        if kind == 'sum':
            want = sum(full(ntasks, inner, dtype, r) for r in range(size))
        if not isinstance(val, np.ndarray):
            raise Fail(f'{op}: rank {me} gets {type(val)}')
        if val.dtype != want.dtype:
            raise Fail(f'{op}: rank {me} gets dtype {val.dtype} instead of {want.dtype}')
        same(val, want, f'{op} on rank {me} of {size}')


def simulate(size, spec, bound, sync, rr=False):
    """ bound -1: the one canonical schedule (run each rank until it blocks, or round robin) """
    def make(w):
        comms = SimComm.create(w, size)
        return [lambda c=c: program(c, spec) for c in comms]

    def check(w, res):
        for r, out in enumerate(res):
            oracle(spec, r, size, out)

    try:
        runs, steps = explore(make, size, bound=bound, sync=sync, on_run=check, rr=rr)
    except Exception as e:
        raise Fail(f'{type(e).__name__}: {e}; schedule {getattr(e, "schedule", None)}'[:1500])
    SPACE['runs'] = SPACE.get('runs', 0) + runs
    SPACE['steps'] = SPACE.get('steps', 0) + steps
    SPACE['nodes'] = SPACE.get('nodes', 0) + explore.nodes


SPACE = {}


def values(size, spec):
    simulate(size, spec, -1, False)
    simulate(size, spec, -1, True)
    simulate(size, spec, -1, False, rr=True)


MPI_MAIN = r"""
import pickle, sys
import numpy as np
from mpi4py import MPI
from mc.c02 import program, oracle
from mc.common import Fail
specs = pickle.load(open(sys.argv[1], 'rb'))
comm = MPI.COMM_WORLD
bad = None
n = 0
for s in specs:
    try:
        oracle(s, comm.rank, comm.size, program(comm, s))
        n += 1
    except Fail as e:
        bad = (s, str(e))
        open(sys.argv[2] + '.bad%d' % comm.rank, 'w').write('%r: %s' % bad)
        break
    except Exception as e:
        open(sys.argv[2] + '.bad%d' % comm.rank, 'w').write('%r: %s: %s' % (s, type(e).__name__, e))
        break
open(sys.argv[2] + '.done%d' % comm.rank, 'w').write(str(n))
if bad is not None or n < len(specs):
    comm.Abort(3)
"""


def real(size, specs):
    """ number of programs which behaved under real MPI; None if mpirun cannot be started """
    with scratch() as d:
        pickle.dump(specs, open(d + 'specs', 'wb'))
        open(d + 'main.py', 'w').write(MPI_MAIN)
        probe = subprocess.run(['mpirun', '-n', str(size), sys.executable, '-c', 'from mpi4py import MPI; MPI.COMM_WORLD.Barrier()'],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120, check=False, env=ENV0)
        if probe.returncode != 0:
            return None
        try:
            subprocess.run(['mpirun', '-n', str(size), sys.executable, '-W', 'ignore', d + 'main.py', d + 'specs', d + 'out'],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240, check=False, env=ENV0)
        except subprocess.TimeoutExpired as e:
            raise Fail(f'hang under mpirun -n {size}') from e
        bads = [d + f'out.bad{r}' for r in range(size) if os.path.exists(d + f'out.bad{r}')]
        if bads:
            raise Fail(f'under mpirun -n {size}: ' + open(bads[0]).read()[:800])
        done = [int(open(d + f'out.done{r}').read()) for r in range(size) if os.path.exists(d + f'out.done{r}')]
        if len(done) != size or min(done) != len(specs):
            raise Fail(f'mpirun -n {size} ended early: {done} of {len(specs)}')
        return len(specs)


def specs_for(size, thorough):
    out = []
    inners = [(), (3,), (2, 3)] + ([(1,), (2, 2, 3), (0,)] if thorough else [(1,)])
    for op in ('allgather', 'gather', 'scatter', 'bcast', 'allreduce'):
        for nt in sorted({size, size + 1, 2 * size - 1, 2 * size + 1, 1, max(0, size - 1)} | ({0, 3 * size} if thorough else set())):
            for inner in inners:
                for root in (range(size) if op in ('gather', 'scatter', 'bcast') else [0]):
                    out.append((op, nt, inner, 'complex128', 'C', root, 'none'))
    nt = 2 * size + 1
    for op in ('allgather', 'gather', 'scatter', 'allreduce', 'chain', 'bcast0', 'gather0', 'scatter0', 'bcast'):
        for dt in DTYPES:
            for layout in LAYOUTS:
                out.append((op, nt, (2, 3), dt, layout, size - 1, 'none'))
    for root in range(size):
        for g in ('none', 'same', 'shape', 'dtype'):
            for layout in LAYOUTS:
                out.append(('scatter', nt, (2, 3), 'complex128', layout, root, g))
        out.append(('chain', nt, (2,), 'complex128', 'F', root, 'none'))
    return sorted(set(out), key=repr)


def run(ck):
    jobs = []
    for size in (1, 2, 3, 4) + ((5, 6) if ck.thorough else ()):
        for s in specs_for(size, ck.thorough):
            jobs.append((f'{s[0]}:ranks={size},tasks={s[1]},inner={s[2]},{s[3]},{s[4]},root={s[5]},nonroot={s[6]}', values, (size, s)))
    # schedules: every interleaving within the preemption bound, per operation and root
    sched = []
    for size in (2, 3, 4):
        for op in ('allgather', 'allreduce', 'bcast', 'gather', 'scatter', 'chain'):
            if ck.thorough:
                bound = {2: 8, 3: 3, 4: 1}[size] if op != 'chain' else {2: 3, 3: 1, 4: -1}[size]
            else:
                bound = {2: 5, 3: 2, 4: 0}[size] if op != 'chain' else {2: 2, 3: 0, 4: -1}[size]
            for root in range(size):
                if root and op in ('allgather', 'allreduce'):
                    continue
                for sync in (False, True):
                    if sync and size == 3 and op == 'scatter' and not ck.thorough:
                        bound = 1
                    s = (op, 2 * size + 1, (2,), 'complex128', 'F', root, 'none')
                    sched.append((f'schedules_{op}:ranks={size},root={root},preemptions<={bound},sync={sync}', simulate, (size, s, bound, sync)))
    jobs = sched[::-1] + jobs
    with mp.get_context('fork').Pool(NPROC) as pool:
        for key, msg, runs, steps, nodes in pool.imap(_job, [j for j in jobs if not ONLY or j[0] == ONLY], chunksize=4):
            ck.record(key, msg, trivial='ranks=1,' in key)
            ck.count('schedules', runs)
            ck.count('states', nodes)
            ck.count('transitions', steps)
    validated = 0
    sizes = (1, 2, 3, 4) + ((5, 6, 8) if ck.thorough else ())
    res = {}
    for size in sizes:
        def conf(n=size):
            res[n] = real(n, specs_for(n, False))
        ck.case(f'mpirun:ranks={size}', conf)
        if res.get(size) is None:
            ck.assumptions.append(f'mpirun -n {size}: conformance with real MPI not replayed in this run')
        else:
            validated += res[size]
    ck.count('traces_validated_against_impl', validated)
    ck.assumptions.append('simulated communicator: weakest blocking MPI permits (and fully synchronising as the other extreme), raw memory moved')


def _job(job):
    key, fn, args = job
    SPACE.clear()
    msg = _guard(fn, args)
    return key, msg, SPACE.get('runs', 0), SPACE.get('steps', 0), SPACE.get('nodes', 0)
