"""Shared machinery of all checks: enumeration bookkeeping, violation / known-finding reporting, evidence."""
import contextlib
import fnmatch
import hashlib
import io
import itertools
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

ENV0 = dict(os.environ)      # before any MPI library adds to it
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_NPROC', '8'))
EVERY = int(os.environ.get('VERIF_EVERY', '1'))    # development only: explore every n-th case
ONLY = os.environ.get('VERIF_ONLY', '').replace('[', '[[]')
KNOWN_FILE = os.path.join(VERIF, 'known_findings.txt')


def load_known(prop):
    """ lines: 'finding: property=<id> key=<glob> <text>' (and 'fixed: ...', which suppress nothing) """
    out = []
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE, encoding='utf-8'):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            parts = line.split(None, 3)
            if parts[1] == f'property={prop}':
                out.append((parts[2][len('key='):], parts[3] if len(parts) > 3 else ''))
    return out


class Fail(Exception):
    """ raised by a case when the property does not hold """


def expect(cond, msg='property violated'):
    if not cond:
        raise Fail(msg if isinstance(msg, str) else msg())


def brief(a, n=8):
    a = np.asarray(a)
    return f'shape={a.shape} {np.array2string(a.ravel()[:n], precision=6)}'


def same(a, b, what='arrays'):
    """ exact equality including the shape """
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Fail(f'{what}: shape {a.shape} != expected {b.shape}')
    if not np.array_equal(a, b):
        bad = np.argwhere(a != b)
        i = tuple(bad[0])
        raise Fail(f'{what}: differs at {len(bad)} of {a.size} places, first {tuple(int(x) for x in i)}: {a[i]!r} != expected {b[i]!r}')


def close(a, b, what='arrays', rtol=1e-9, atol=1e-11):
    """ numerical equality (relative to the largest expected entry) including the shape """
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Fail(f'{what}: shape {a.shape} != expected {b.shape}')
    if a.size == 0:
        return
    scale = np.max(np.abs(b))
    d = np.abs(a - b)
    if not np.all(d <= atol + rtol * scale):
        i = np.unravel_index(np.argmax(np.where(np.isfinite(d), d, np.inf)), d.shape)
        raise Fail(f'{what}: max deviation {d[i]:.3e} (scale {scale:.3e}) at {tuple(int(x) for x in i)}: {a[i]!r} != expected {b[i]!r}')


def raises(fn, exc=Exception):
    try:
        fn()
    except exc:
        return True
    return False


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif_mc_')
    try:
        yield d + '/'
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Hang(BaseException):
    """ a case exceeded its processor time """


LIMIT = float(os.environ.get('VERIF_LIMIT', '0')) or (180 if os.environ.get('VERIF_TIER', 'quick') != 'thorough' else 1800)


def _alarm(*_):
    raise Hang()


def _guard(fn, args):
    """ run one case; None if the property held, else a message """
    t0 = time.process_time()
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, LIMIT, 2.0)    # processor time; repeated, because code under test may swallow exceptions
    try:
        try:
            return _guarded(fn, args)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            if SLOW:
                with open(SLOW, 'a', encoding='utf-8') as f:
                    f.write(f'{time.process_time() - t0:.2f} {fn.__module__}.{fn.__name__} {args}\n'[:200].rstrip() + '\n')
    except Hang:
        return HANG


HANG = f'did not terminate within {LIMIT:g} s of processor time'
SLOW = os.environ.get('VERIF_SLOW')      # development only: file collecting the time of every case


class Abort(Exception):
    """ nothing is explored behind a case that does not terminate """


def _guarded(fn, args):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
                fn(*args)
        return None
    except Fail as e:
        return str(e)
    except Exception as e:  # the code under test must not fail on an in-bounds input
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}' for f in reversed(tb[-4:]))
        return f'{type(e).__name__}: {str(e)[:300]} [{where}]'


_POOL_FN = None


def _pool_call(chunk):
    out = []
    for k, a in chunk:
        out.append((k, _guard(_POOL_FN, a)))
        if out[-1][1] == HANG:
            break
    return out


class Check:
    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.known = load_known(prop)
        self.known_hit = {}
        self.n_viol = 0
        self.families = {}          # family -> [evaluations, nontrivial]
        self.keys = set()
        self.samples = []
        self.counts = {}            # extra measured counts: states, transitions, ...
        self.assumptions = []
        self.rule = ''
        self.thorough = self.tier == 'thorough'

    # ------------------------------------------------------------------ enumeration
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def record(self, key, msg, trivial=False, replay=None):
        """ book one explored case """
        fam = key.split(':', 1)[0]
        f = self.families.setdefault(fam, [0, 0])
        f[0] += 1
        if key not in self.keys:
            self.keys.add(key)
            if not trivial:
                f[1] += 1
        if f[0] in (1, 7):
            self.samples.append(key)
        if msg is not None:
            self.violation(key, msg, replay)
        if msg == HANG:
            raise Abort()

    def case(self, key, fn, *args, trivial=False):
        if ONLY and not fnmatch.fnmatchcase(key, ONLY):
            return
        self.record(key, _guard(fn, args), trivial)

    def pcases(self, fn, items, trivial=None, chunk=None):
        """ items: iterable of (key, args); evaluated in parallel over processes """
        global _POOL_FN
        items = [it for it in items if not ONLY or fnmatch.fnmatchcase(it[0], ONLY)][::EVERY]
        if not items:
            return
        if NPROC <= 1 or len(items) < 4:
            for k, a in items:
                self.record(k, _guard(fn, a), bool(trivial and trivial(*a)))
            return
        _POOL_FN = fn
        if chunk is None:
            chunk = max(1, min(64, len(items) // (NPROC * 4)))
        chunks = [items[i:i + chunk] for i in range(0, len(items), chunk)]
        args = dict(items)
        with mp.get_context('fork').Pool(NPROC) as pool:
            for res in pool.imap(_pool_call, chunks):
                for k, msg in res:
                    self.record(k, msg, bool(trivial and trivial(*args[k])))

    # ------------------------------------------------------------------ reporting
    def violation(self, key, msg, replay=None):
        for glob, text in self.known:
            if fnmatch.fnmatchcase(key, glob):
                self.known_hit.setdefault(glob, text)
                return
        self.n_viol += 1
        if self.n_viol > 10:
            return
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{self.prop}-{hashlib.sha1(key.encode()).hexdigest()[:10]}.json')
        with open(path, 'w', encoding='utf-8') as f:
            json.dump({'property': self.prop, 'case': key, 'failure': msg, 'tier': self.tier, 'trace': replay,
                       'rerun': f'cd /verif && VERIF_ONLY={key!r} ./check.sh {self.prop}'}, f, indent=1, default=str)
        print(f'VIOLATION property={self.prop} replay={path}')
        print(f'   case {key}: {msg[:600]}', flush=True)

    def finish(self):
        for glob, text in self.known_hit.items():
            print(f'KNOWN-FINDING: property={self.prop} {text}')
        ev = sum(f[0] for f in self.families.values())
        nt = sum(f[1] for f in self.families.values())
        cov = {'evaluations': ev, 'distinct_nontrivial': nt, 'exhaustive': True,
               'rule': self.rule, 'samples': self.samples[:24],
               'families': {k: v[0] for k, v in sorted(self.families.items())}}
        if self.level == 'model_checking':
            for c in ('states', 'transitions', 'traces_validated_against_impl'):
                cov[c] = 0
        cov.update(self.counts)
        out = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
               'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': self.n_viol}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f'{self.prop}.json'), 'w', encoding='utf-8') as f:
            json.dump(out, f, indent=1)
        print(f'{self.prop} [{self.tier}] {ev} executions ({nt} distinct non-trivial), violations: {self.n_viol}, '
              f'{out["wall_s"]} s', {k: v for k, v in self.counts.items()})
        return 1 if self.n_viol else 0


# ---------------------------------------------------------------------- deterministic data
def tagged(shape, base=1):
    """ index-tagged complex array: every entry is unique and exactly representable """
    n = int(np.prod(shape))
    a = np.arange(base, base + n, dtype=float)
    return (a + 1j * (2 * n + base + a[::-1])).reshape(shape)


def det(shape, seed=0, scale=1.0):
    """ deterministic generic complex data (no symmetry), fixed independently of VERIF_SEED """
    rng = np.random.default_rng(12345 + seed)
    return scale * (rng.uniform(-1, 1, shape) + 1j * rng.uniform(-1, 1, shape))


def prod(*its):
    return itertools.product(*its)
