"""C01: every task belongs to exactly one rank, in rank order, with balanced load."""
import numpy as np

from mc.common import expect, scratch, same
from mc.simmpi import SimComm, World

LEVEL = 'exploration'
RULE = ('all (number of ranks, number of tasks) pairs in the stated box; every rank of each pair is instantiated; '
        'non-trivial: more than one rank and at least one task')


def split(size, ntasks):
    from dga import mpi_aux
    comms = SimComm.create(None, size)
    ds = [mpi_aux.MpiDistributor(ntasks=ntasks, comm=c) for c in comms]
    seen = []
    for r, d in enumerate(ds):
        expect(d.ntasks == ntasks and d.mpi_size == size and d.my_rank == r, 'rank/size/ntasks attributes wrong')
        expect(d.is_root == (r == 0), 'is_root wrong')
        same(d.sizes, ds[0].sizes, 'sizes differ between ranks')
        expect(len(d.sizes) == size and int(np.sum(d.sizes)) == ntasks, f'sizes {d.sizes} do not add up to {ntasks}')
        expect(int(d.sizes[r]) == int(d.my_size) == len(d.my_tasks), 'my_size, my_tasks and sizes disagree')
        same(np.arange(ntasks)[d.my_slice], d.my_tasks, 'my_slice')
        # a slice must select whole entries from any array of the tasks, including nested ones
        same(np.arange(2 * ntasks).reshape(ntasks, 2)[d.my_slice], np.arange(2 * ntasks).reshape(ntasks, 2)[list(d.my_tasks)].reshape(-1, 2))
        seen += [int(t) for t in d.my_tasks]
    expect(seen == list(range(ntasks)), f'tasks in rank order are {seen[:40]}, not 0..{ntasks - 1} once each')
    expect(max(ds[0].sizes) - min(ds[0].sizes) <= 1, f'load differs by more than one: {ds[0].sizes}')


def factory(size, ntasks):
    """ create_distributor is the same thing, and one rank file per rank, whose names differ """
    from dga import mpi_aux
    with scratch() as d:
        for variant, path in (('slash', d), ('noslash', d[:-1])):
            comms = SimComm.create(None, size)
            ds = [mpi_aux.create_distributor(ntasks=ntasks, comm=c, output_path=path, name=variant) for c in comms]
            names = {x.fname for x in ds}
            expect(len(names) == size, 'two ranks share a file')
            expect(sum(([int(t) for t in x.my_tasks] for x in ds), []) == list(range(ntasks)), 'factory splits differently')


def run(ck):
    nr, nt = (48, 160) if ck.thorough else (24, 64)
    ck.pcases(split, [(f'split:size={s},ntasks={n}', (s, n)) for s in range(1, nr + 1) for n in range(0, nt + 1)],
              trivial=lambda s, n: s == 1 or n == 0)
    big = [(1, 10 ** 5), (7, 10 ** 5), (64, 10 ** 5 + 1), (128, 4097), (257, 1024), (1000, 999), (1000, 1001)]
    ck.pcases(split, [(f'split:size={s},ntasks={n}', (s, n)) for s, n in big])
    ck.pcases(factory, [(f'factory:size={s},ntasks={n}', (s, n)) for s in range(1, 7) for n in range(0, 10)])
    ck.assumptions.append('communicator reduced to Get_rank/Get_size (all that the split uses)')
