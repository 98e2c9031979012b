"""
Controlled scheduler + simulated MPI communicator.

Every rank is a thread, but only one runs at a time: a rank announces each communication call or hooked file operation
to the scheduler and is suspended until the scheduler picks it. The explorer enumerates the scheduler's picks
(stateless model checking of the real code, depth-first over schedules, bounded by the number of preemptions).
Collectives have the weakest semantics MPI permits: nobody waits longer than data dependency demands (bcast/scatter root
and gather non-roots do not block), or, with sync=True, every collective synchronises. Payloads are moved as raw memory,
as MPI does: no dtype conversion, no reordering of Fortran-ordered buffers, truncation is an error.
"""
import builtins
import os
import pickle
import threading

import numpy as np
from mpi4py import MPI as mpi


class Deadlock(Exception):
    pass


class CommError(Exception):
    pass


class _Abort(BaseException):
    pass


class _Proc:
    def __init__(self, idx):
        self.idx = idx
        self.sem = threading.Semaphore(0)
        self.cond = None
        self.label = 'start'
        self.done = False
        self.error = None
        self.result = None


class World:
    """ one controlled execution """
    _tls = threading.local()

    def __init__(self, n, prefix=(), sync=False, max_steps=20000, rr=False):
        self.n = n
        self.procs = [_Proc(i) for i in range(n)]
        self.ctrl = threading.Semaphore(0)
        self.prefix = list(prefix)
        self.choices = []        # (chosen, enabled, previous)
        self.trace = []
        self.sync = sync
        self.rr = rr             # default policy: round robin instead of run-to-block
        self.max_steps = max_steps
        self.aborting = False

    # ---- called from rank threads
    @classmethod
    def here(cls):
        return getattr(cls._tls, 'cur', None)

    def point(self, label, cond=None):
        cur = self._tls.cur
        assert cur[0] is self
        p = self.procs[cur[1]]
        p.label, p.cond = label, cond
        self.ctrl.release()
        p.sem.acquire()
        if self.aborting:
            raise _Abort()
        p.cond = None

    # ---- controller
    def run(self, programs):
        def body(p, prog):
            self._tls.cur = (self, p.idx)
            p.sem.acquire()
            try:
                if not self.aborting:
                    p.result = prog()
            except _Abort:
                pass
            except BaseException as e:  # pylint: disable=broad-except
                p.error = e
            p.done = True
            self.ctrl.release()

        threads = [threading.Thread(target=body, args=(p, prog), daemon=True) for p, prog in zip(self.procs, programs)]
        for t in threads:
            t.start()
        last = -1
        err = None
        while True:
            if any(p.error is not None for p in self.procs):
                bad = next(p for p in self.procs if p.error is not None)
                err = bad.error
                break
            live = [p for p in self.procs if not p.done]
            if not live:
                break
            enabled = [p.idx for p in live if p.cond is None or p.cond()]
            if not enabled:
                err = Deadlock('deadlock: ' + ', '.join(f'rank{p.idx} waits at {p.label}' for p in live))
                break
            k = len(self.choices)
            if k < len(self.prefix):
                pick = self.prefix[k]
                if pick not in enabled:
                    err = CommError(f'schedule replay diverged at step {k}: {pick} not in {enabled}')
                    break
            elif self.rr:
                pick = next((i for i in enabled if i > last), enabled[0])
            else:
                pick = last if last in enabled else enabled[0]
            self.choices.append((pick, tuple(enabled), last))
            self.trace.append((pick, self.procs[pick].label))
            if len(self.choices) > self.max_steps:
                err = CommError('step bound exceeded (livelock?)')
                break
            last = pick
            self.procs[pick].sem.release()
            self.ctrl.acquire()
        if err is not None:
            self.aborting = True
            for p in self.procs:
                if not p.done:
                    p.sem.release()
                    self.ctrl.acquire()
        for t in threads:
            t.join(10)
        if err is not None:
            raise err
        return [p.result for p in self.procs]


def explore(make_programs, n, bound=2, max_runs=None, sync=False, on_run=None, rr=False):
    """ enumerate all schedules with at most `bound` preemptions; make_programs(world) -> list of callables.
        on_run(world, results) is called after each execution. Returns (runs, steps). """
    stack = [[]]
    runs = steps = 0
    explore.nodes = 1        # distinct nodes of the scheduling tree (executed steps minus replayed prefixes, plus the root)
    while stack:
        prefix = stack.pop()
        w = World(n, prefix, sync=sync, rr=rr)
        try:
            res = w.run(make_programs(w))
            if on_run is not None:
                on_run(w, res)
        except Exception as e:
            e.schedule = list(w.trace)
            raise
        runs += 1
        steps += len(w.choices)
        explore.nodes += len(w.choices) - max(len(prefix) - 1, 0)
        pre = 0
        costs = []
        for pick, enabled, last in w.choices:
            costs.append(pre)
            if last in enabled and pick != last:
                pre += 1
        for i in range(len(w.choices) - 1, len(prefix) - 1, -1):
            pick, enabled, last = w.choices[i]
            for alt in enabled:
                if alt == pick:
                    continue
                c = costs[i] + (1 if (last in enabled and alt != last) else 0)
                if c <= bound:
                    stack.append([x[0] for x in w.choices[:i]] + [alt])
        if max_runs is not None and runs >= max_runs:
            break
    return runs, steps


# ---------------------------------------------------------------------------------------------- communicator
def _flat(a, write=False):
    """ raw memory of a buffer as a flat view, like MPI sees it """
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    if a.flags.c_contiguous:
        v = a.reshape(-1)
    elif a.flags.f_contiguous:
        v = a.reshape(-1, order='F')
    else:
        raise ValueError('ndarray is not contiguous')
    if write and not v.flags.writeable:
        raise ValueError('buffer is read-only')
    return v


def _spec(buf, size=None, vector=False):
    """ -> (flat array, counts, displs) in elements """
    if buf is None:
        return None, None, None
    counts = displs = None
    if isinstance(buf, (list, tuple)):
        arr = buf[0]
        rest = [x for x in buf[1:] if not isinstance(x, (mpi.Datatype, str))]
        if arr is None:
            return None, None, None
        if rest:
            counts = rest[0]
            if isinstance(counts, tuple) and len(counts) == 2 and np.ndim(counts[0]) > 0:
                counts, displs = counts
            elif len(rest) > 1:
                displs = rest[1]
    else:
        arr = buf
    flat = _flat(arr)
    if vector:
        if counts is None:
            base, ex = divmod(flat.size, size)
            counts = [base + (1 if i < ex else 0) for i in range(size)]
        counts = [int(c) for c in np.atleast_1d(counts)]
        if len(counts) != size:
            raise CommError(f'counts has {len(counts)} entries for {size} ranks')
        if displs is None:
            displs = [int(x) for x in np.concatenate(([0], np.cumsum(counts)[:-1]))]
        if max(d + c for d, c in zip(displs, counts)) > flat.size:
            raise CommError('buffer overrun: counts exceed the buffer (memory corruption under real MPI)')
        return flat, counts, displs
    if counts is not None:
        flat = flat[:int(np.atleast_1d(counts)[0])]
    return flat, None, None


def _put(dst, raw):
    """ receive raw bytes into the flat view dst """
    v = dst.view(np.uint8) if dst.size else np.zeros(0, np.uint8)
    if len(raw) > v.size:
        raise CommError('MPI_ERR_TRUNCATE: message truncated')
    v[:len(raw)] = np.frombuffer(raw, np.uint8)


class SimComm:
    def __init__(self, world, size, base=0, shared=None, rank=None, poison=True):
        self._w, self._size, self._base = world, size, base
        self._sh = {'slots': [], 'mail': {}} if shared is None else shared
        self._rank = rank
        self._n = 0

    @classmethod
    def create(cls, world, size, base=0):
        sh = {'slots': [], 'mail': {}}
        return [cls(world, size, base, sh, r) for r in range(size)]

    rank = property(lambda s: s._rank)
    size = property(lambda s: s._size)
    name = 'SIM'

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._size

    def Dup(self):
        return self

    def Abort(self, errorcode=0):
        raise CommError('MPI_Abort')

    def _enter(self, kind, root, data):
        slots = self._sh['slots']
        i = self._n
        self._n += 1
        self._w.point(f'{kind}#{i}')
        while len(slots) <= i:
            slots.append({'kind': None, 'data': {}, 'left': set()})
        s = slots[i]
        if s['kind'] is None:
            s['kind'] = (kind, root)
        elif s['kind'] != (kind, root):
            raise CommError(f'mismatched collectives: rank {self._rank} calls {(kind, root)} where others call {s["kind"]}')
        s['data'][self._rank] = data
        return s, i

    def _wait(self, s, i, ranks):
        if self._w.sync:
            ranks = range(self._size)
        ranks = [r for r in ranks if r not in s['data']]
        if ranks:
            self._w.point(f'wait {s["kind"][0]}#{i}', lambda: all(r in s['data'] for r in ranks))

    def _all(self):
        return range(self._size)

    # --- synchronisation
    def Barrier(self):
        s, i = self._enter('barrier', 0, None)
        self._wait(s, i, self._all())

    barrier = Barrier

    # --- pickled objects
    def bcast(self, obj=None, root=0):
        s, i = self._enter('bcast', root, pickle.dumps(obj) if self._rank == root else None)
        self._wait(s, i, () if self._rank == root else (root,))
        return obj if self._rank == root else pickle.loads(s['data'][root])

    def gather(self, sendobj, root=0):
        s, i = self._enter('gather', root, pickle.dumps(sendobj))
        if self._rank != root:
            self._wait(s, i, ())
            return None
        self._wait(s, i, self._all())
        return [pickle.loads(s['data'][r]) for r in self._all()]

    def allgather(self, sendobj):
        s, i = self._enter('allgather', 0, pickle.dumps(sendobj))
        self._wait(s, i, self._all())
        return [pickle.loads(s['data'][r]) for r in self._all()]

    def scatter(self, sendobj=None, root=0):
        s, i = self._enter('scatter', root, [pickle.dumps(x) for x in sendobj] if self._rank == root else None)
        if self._rank == root and len(s['data'][root]) != self._size:
            raise CommError('scatter: wrong number of objects')
        self._wait(s, i, (root,))
        return pickle.loads(s['data'][root][self._rank])

    def reduce(self, sendobj, op=mpi.SUM, root=0):
        r = self._reduce_obj('reduce', sendobj, op, root, (self._rank == root))
        return r

    def allreduce(self, sendobj, op=mpi.SUM):
        return self._reduce_obj('allreduce_obj', sendobj, op, 0, True)

    def _reduce_obj(self, kind, obj, op, root, get):
        s, i = self._enter(kind, root, pickle.dumps(obj))
        self._wait(s, i, self._all() if get else ())
        if not get:
            return None
        vals = [pickle.loads(s['data'][r]) for r in self._all()]
        return _red(vals, op)

    # --- buffers
    def Bcast(self, buf, root=0):
        flat, _, _ = _spec(buf)
        s, i = self._enter('Bcast', root, flat.tobytes() if self._rank == root else None)
        if self._rank != root:
            self._wait(s, i, (root,))
            _put(flat, s['data'][root])
        else:
            self._wait(s, i, ())

    def Gatherv(self, sendbuf, recvbuf=None, root=0):
        flat, _, _ = _spec(sendbuf)
        s, i = self._enter('Gatherv', root, flat.tobytes())
        if self._rank != root:
            return self._wait(s, i, ())
        self._wait(s, i, self._all())
        self._collect(s, recvbuf)

    Gather = Gatherv

    def Allgatherv(self, sendbuf, recvbuf):
        flat, _, _ = _spec(sendbuf)
        s, i = self._enter('Allgatherv', 0, flat.tobytes())
        self._wait(s, i, self._all())
        self._collect(s, recvbuf)

    Allgather = Allgatherv

    def _collect(self, s, recvbuf):
        flat, counts, displs = _spec(recvbuf, self._size, vector=True)
        for r in self._all():
            _put(flat[displs[r]:displs[r] + counts[r]], s['data'][r])

    def Scatterv(self, sendbuf, recvbuf, root=0):
        data = None
        if self._rank == root:
            flat, counts, displs = _spec(sendbuf, self._size, vector=True)
            if flat is None:
                raise CommError('Scatterv: root passes no data')
            data = [flat[displs[r]:displs[r] + counts[r]].tobytes() for r in self._all()]
        s, i = self._enter('Scatterv', root, data)
        self._wait(s, i, (root,))
        if recvbuf is not mpi.IN_PLACE:
            _put(_spec(recvbuf)[0], s['data'][root][self._rank])

    Scatter = Scatterv

    def Allreduce(self, sendbuf, recvbuf, op=mpi.SUM):
        if sendbuf is mpi.IN_PLACE:
            sendbuf = recvbuf
        flat, _, _ = _spec(sendbuf)
        s, i = self._enter('Allreduce', 0, flat.copy())
        self._wait(s, i, self._all())
        self._fold(s, recvbuf, op)

    def Reduce(self, sendbuf, recvbuf=None, op=mpi.SUM, root=0):
        if sendbuf is mpi.IN_PLACE:
            sendbuf = recvbuf
        flat, _, _ = _spec(sendbuf)
        s, i = self._enter('Reduce', root, flat.copy())
        if self._rank != root:
            return self._wait(s, i, ())
        self._wait(s, i, self._all())
        self._fold(s, recvbuf, op)

    def _fold(self, s, recvbuf, op):
        flat, _, _ = _spec(recvbuf)
        vals = [s['data'][r] for r in self._all()]
        if len({(v.size, v.dtype.str) for v in vals}) != 1:
            raise CommError('reduction over buffers of different size or type')
        out = _red(vals, op)
        if out.size > flat.size or out.dtype != flat.dtype:
            raise CommError('reduction result does not fit the receive buffer')
        flat[:out.size] = out

    # --- point to point (buffered)
    def send(self, obj, dest, tag=0):
        self._w.point(f'send->{dest}')
        self._sh['mail'].setdefault((self._rank, dest, tag), []).append(pickle.dumps(obj))

    def recv(self, buf=None, source=0, tag=0, status=None):
        box = self._sh['mail'].setdefault((source, self._rank, tag), [])
        self._w.point(f'recv<-{source}', lambda: len(box) > 0)
        return pickle.loads(box.pop(0))

    def Send(self, buf, dest, tag=0):
        self.send(_spec(buf)[0].tobytes(), dest, tag)

    def Recv(self, buf, source=0, tag=0, status=None):
        _put(_spec(buf)[0], self.recv(None, source, tag))


def _red(vals, op):
    out = vals[0]
    for v in vals[1:]:
        if op == mpi.SUM:
            out = out + v
        elif op == mpi.MAX:
            out = np.maximum(out, v)
        elif op == mpi.MIN:
            out = np.minimum(out, v)
        elif op == mpi.PROD:
            out = out * v
        else:
            raise CommError('unsupported reduction')
    return out


# ---------------------------------------------------------------------------------------------- file system hooks
class FsHooks:
    """ make file-system operations of ranks scheduling points (only for threads run by a World) """
    NAMES = [(os, 'mkdir'), (os, 'makedirs'), (os, 'remove'), (os, 'rename'), (os, 'rmdir'), (os, 'listdir'),
             (os.path, 'exists'), (os.path, 'isdir'), (os.path, 'isfile')]

    def __init__(self, h5=False, opens=False):
        self.h5, self.opens = h5, opens

    def __enter__(self):
        self.saved = []
        depth = threading.local()

        def wrap(fn, name):
            def hooked(*a, **k):
                cur = World.here()
                if cur is not None and not getattr(depth, 'in_', False) and not cur[0].aborting:
                    cur[0].point(name + '(' + os.path.basename(str(a[0]).rstrip('/')) + ')' if a else name)
                    depth.in_ = True
                    try:
                        return fn(*a, **k)
                    finally:
                        depth.in_ = False
                return fn(*a, **k)
            return hooked

        for mod, name in self.NAMES:
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, wrap(getattr(mod, name), name))
        if self.opens:
            self.saved.append((builtins, 'open', builtins.open))
            builtins.open = wrap(builtins.open, 'open')
        return self

    def __exit__(self, *exc):
        for mod, name, fn in reversed(self.saved):
            setattr(mod, name, fn)
