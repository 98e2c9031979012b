"""C26: symmetrization of impurity vertex files: spin and orbital averages, channel combinations, no overwriting, faithful reading."""
import itertools
import os
import sys

import h5py
import numpy as np

from mc.common import close, det, expect, same, scratch

LEVEL = 'exploration'
RULE = ('kinds of quantity x numbers of bands x all orbital equivalences x numbers of atoms x frequency box sizes x missing (NaN) entries, with '
        'generic data in a file written by an independent writer; non-trivial: more than one band or frequency')

SPINS = [(0, 0, 0, 0), (0, 0, 1, 1), (0, 1, 1, 0), (1, 0, 0, 1), (1, 1, 0, 0), (1, 1, 1, 1)]
FAC = {'dens': {(0, 0, 0, 0): .5, (0, 0, 1, 1): .5, (1, 1, 0, 0): .5, (1, 1, 1, 1): .5},
       'magn': {(0, 0, 0, 0): .25, (1, 1, 1, 1): .25, (0, 1, 1, 0): .25, (1, 0, 0, 1): .25, (0, 0, 1, 1): -.25, (1, 1, 0, 0): -.25}}


def partitions(n):
    """ all equivalence relations on n bands as restricted growth strings """
    out = []

    def rec(s, m):
        if len(s) == n:
            out.append(tuple(s))
            return
        for i in range(m + 1):
            rec(s + [i], max(m, i + 1))
    rec([], 0)
    return out


def pattern(b):
    return tuple(b.index(x) for x in b)


def kanamori(n):
    return [b for b in itertools.product(range(n), repeat=4)
            if (b[0] == b[1] and b[2] == b[3]) or (b[0] == b[2] and b[1] == b[3]) or (b[0] == b[3] and b[1] == b[2])]


def index(parts, base):
    i = 0
    for p in parts:
        i = i * base + p
    return i + 1


def shape(target, nf, nb):
    return {'1freq_b': (2 * nb + 1,), '2freq': (2 * nf, 2 * nb + 1), '3freq': (2 * nf, 2 * nf, 2 * nb + 1)}[target]


NAME = {'1freq_b': 'p2iw-worm', '2freq': 'p3iw-worm', '3freq': 'g4iw-worm'}


def make(fname, target, nbands, nf, nb, worm, nan):
    data = {}
    with h5py.File(fname, 'w') as f:
        f.create_group('.axes')['iwb-g4'] = np.arange(-nb, nb + 1) * 1.0
        for at, n in enumerate(nbands):
            for b in kanamori(n):
                for s in SPINS:
                    g = index([2 * x + y for x, y in zip(b, s)], 2 * n)
                    x = det(shape(target, nf, nb), 17 * g + at)
                    if nan and target == '3freq':
                        x.ravel()[(g * 7) % x.size] = complex(np.nan, 1.0)
                        x.ravel()[(g * 5) % x.size] = complex(1.0, np.nan)
                    f[f'{worm}/ineq-{at + 1:03}/{NAME[target]}/{g:05}/value'] = x
                    data[at, b, s] = np.where(np.isnan(x), 0, x)
    return data


def want(data, at, n, part, ch):
    out = {}
    for b in kanamori(n):
        eq = [c for c in kanamori(n) if pattern(c) == pattern(b) and all(part[x] == part[y] for x, y in zip(b, c))]
        out[b] = sum(fac * data[at, c, s] for c in eq for s, fac in FAC[ch].items()) / len(eq)
    return out


def conf(target, nbands, parts, infile, outfile, worm):
    sym = [[[j + 1 for j in range(n) if p[j] == p[i]] for i in range(n)] for n, p in zip(nbands, parts)]
    return {'nineq': len(nbands), 'target': target, 'sym_type': 'o', 'outfile': outfile, 'Nbands': list(nbands), 'infile': infile, 'sym': sym, 'worm_group': worm}


def symmetrized(target, nbands, parts, nf, nb, worm, nan):
    from dga import symmetrize
    from dga import w2dyn_aux_dga as aux
    with scratch() as d:
        data = make(d + 'in.hdf5', target, nbands, nf, nb, worm, nan)
        before = open(d + 'in.hdf5', 'rb').read()
        c = conf(target, nbands, parts, d + 'in.hdf5', d + 'out.hdf5', worm)
        symmetrize.main(c)
        expect(open(d + 'in.hdf5', 'rb').read() == before, 'input file modified')
        with h5py.File(d + 'out.hdf5', 'r') as f:
            for at, n in enumerate(nbands):
                for ch in ('dens', 'magn'):
                    for b, x in want(data, at, n, parts[at], ch).items():
                        g = index(b, n)
                        base = f'ineq-{at + 1:03}/{ch}/'
                        if target == '1freq_b':
                            close(f[base + f'{g:05}'][()], x, f'{ch} {b}')
                        for w in range(2 * nb + 1):
                            if target == '2freq':
                                close(f[base + f'{w:05}/{g:05}'][()], x[:, w], f'{ch} {b} w{w}')
                            if target == '3freq':
                                close(f[base + f'{w:05}/{g:05}/value'][()], x[..., w].T, f'{ch} {b} w{w}')
                    groups = [k for k in f[base[:-1] if target == '1freq_b' else base + '00000'].keys()]
                    same(sorted(groups), sorted(f'{index(b, n):05}' for b in kanamori(n)), 'stored band groups')
            if target == '3freq':
                same(f['.axes/iwb-g4'][()], np.arange(-nb, nb + 1) * 1.0, 'frequency axes copied')
        if target == '3freq':
            for at, n in enumerate(nbands):
                r = aux.W2dynG4iwFile(d + 'out.hdf5')
                for ch in ('dens', 'magn'):
                    for b, x in want(data, at, n, parts[at], ch).items():
                        kw = {'ineq': at + 1, 'channel': ch, 'spinband': index(b, n)}
                        full = np.moveaxis(x, -1, 0)
                        close(r.read_g2_full(**kw), full, 'reading: g2[w,v,v\']')
                        close(r.read_g2(niw=nb, niv=nf, **kw), full, 'reading: stated range')
                        expect(r.get_niw(**kw) == nb, 'number of bosonic frequencies')
                        for iw in (np.arange(-nb, nb + 1), np.array([0]), np.array([nb, -nb])):
                            close(r.read_g2_iw(iw=iw, **kw), full[iw + nb], 'reading: selected frequencies')
                r.close()
        # an existing result is never overwritten
        keep = open(d + 'out.hdf5', 'rb').read()
        try:
            symmetrize.main(c)
            raise AssertionError('second run did not stop')
        except SystemExit:
            pass
        expect(open(d + 'out.hdf5', 'rb').read() == keep, 'existing output modified')


def one_particle(nbands, parts, nv):
    from dga import symmetrize
    with scratch() as d:
        x = {}
        with h5py.File(d + 'in.hdf5', 'w') as f:
            for at, n in enumerate(nbands):
                for q in ('giw', 'siw'):
                    x[at, q] = det((n, 2, nv), at + 10 * (q == 'giw'))
                    f[f'dmft-last/ineq-{at + 1:03}/{q}/value'] = x[at, q]
            f['other'] = np.arange(3.)
        symmetrize.main(conf('1freq_f', nbands, parts, d + 'in.hdf5', d + 'out.hdf5', 'w'))
        with h5py.File(d + 'out.hdf5', 'r') as f, h5py.File(d + 'in.hdf5', 'r') as i:
            same(f['other'][()], np.arange(3.), 'other content')
            for at, n in enumerate(nbands):
                for q in ('giw', 'siw'):
                    p = f'dmft-last/ineq-{at + 1:03}/{q}'
                    same(i[p + '/value'][()], x[at, q], 'input file')
                    same(f[p + '_unsymmetrized/value'][()], x[at, q], 'original data kept')
                    w = np.array([np.mean([x[at, q][j].mean(axis=0) for j in range(n) if parts[at][j] == parts[at][b]], axis=0) for b in range(n)])
                    close(f[p + '/value'][()], np.repeat(w[:, None], 2, axis=1), 'average over spins and equivalent bands')


def command(nf, nb, infile, outfile):
    """ the command line tool """
    sys.path.insert(0, os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src', 'cli'))
    import sym1b
    from dga import w2dyn_aux_dga as aux
    with scratch() as d:
        data = make(d + infile, '3freq', (1,), nf, nb, 'worm-last', False)
        old = sys.argv
        sys.argv = ['sym1b', '-if', infile, '-of', outfile, '-p', d]
        try:
            sym1b.main()
        finally:
            sys.argv = old
        expect(sorted(os.listdir(d)) == sorted([infile, outfile]), f'files: {os.listdir(d)}')
        r = aux.W2dynG4iwFile(d + outfile)
        for ch in ('dens', 'magn'):
            close(r.read_g2_full(channel=ch), np.moveaxis(want(data, 0, 1, (0,), ch)[0, 0, 0, 0], -1, 0), ch)
        r.close()


def script(d, argv, answers):
    """ the module run as a program in directory d -> answers that were not asked for """
    import builtins
    import contextlib
    import io
    import runpy
    old = sys.argv, os.getcwd(), builtins.input
    todo = list(answers)
    builtins.input = lambda *a: todo.pop(0)
    sys.argv = ['symmetrize.py'] + argv
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src', 'dga', 'symmetrize.py'), run_name='__main__')
    except SystemExit:
        pass
    finally:
        sys.argv, builtins.input = old[0], old[2]
        os.chdir(old[1])
    return todo


def stored(f, target, data, nbands, parts, nb):
    for at, n in enumerate(nbands):
        for ch in ('dens', 'magn'):
            for b, x in want(data, at, n, parts[at], ch).items():
                g = index(b, n)
                base = f'ineq-{at + 1:03}/{ch}/'
                if target == '1freq_b':
                    close(f[base + f'{g:05}'][()], x, f'{ch} {b}')
                for w in range(2 * nb + 1):
                    if target == '2freq':
                        close(f[base + f'{w:05}/{g:05}'][()], x[:, w], f'{ch} {b} w{w}')
                    if target == '3freq':
                        close(f[base + f'{w:05}/{g:05}/value'][()], x[..., w].T, f'{ch} {b} w{w}')


def interactive(target, nbands, parts, complete, answer):
    """ questions and answers; a file with missing groups is only used after confirmation """
    with scratch() as d:
        data = make(d + 'in.hdf5', target, nbands, 2, 1, 'worm-last', False)
        if not complete:
            with h5py.File(d + 'in.hdf5', 'r+') as f:     # a further group, as written without the Kanamori selection
                g = f'worm-last/ineq-001/{NAME[target]}'
                f[f'{g}/{index((0, 0, 0, 1), 2 * nbands[0]):05}/value'] = np.zeros(shape(target, 2, 1), complex)
        before = open(d + 'in.hdf5', 'rb').read()
        ask = [str(['1freq_f', '1freq_b', '2freq', '3freq'].index(target)), 'in.hdf5', str(len(nbands))]
        for n, p in zip(nbands, parts):
            ask.append(str(n))
            ask += [' '.join(str(j + 1) for j in range(n) if p[j] == p[i]) for i in range(n)]
        ask.append('out.hdf5')
        rest = script(d, [], ask + ([] if complete else [answer]))
        expect(not rest, f'questions not asked: {rest}')
        expect(open(d + 'in.hdf5', 'rb').read() == before, 'input file modified')
        if complete:
            expect(sorted(os.listdir(d)) == ['in.hdf5', 'out.hdf5'], f'files: {os.listdir(d)}')
            with h5py.File(d + 'out.hdf5', 'r') as f:
                stored(f, target, data, nbands, parts, 1)
        elif answer != 'y':
            expect(os.listdir(d) == ['in.hdf5'], f'files after the answer {answer}: {os.listdir(d)}')


def named(infile, outfile):
    """ the module with arguments: the output lies next to its input and is named after it """
    with scratch() as d:
        os.makedirs(d + os.path.dirname(infile), exist_ok=True)
        data = make(d + infile, '3freq', (1,), 2, 1, 'worm-001', False)
        script(d, ['worm-001'] + ([infile] if infile != 'g4iw.hdf5' else []), [])
        got = sorted(os.path.relpath(r + '/' + x, d) for r, _, fs in os.walk(d) for x in fs)
        expect(got == sorted([os.path.normpath(infile), os.path.normpath(outfile)]), f'files: {got}')
        with h5py.File(d + outfile, 'r') as f:
            stored(f, '3freq', data, (1,), ((0,),), 1)


def indices(n, k):
    from dga import symmetrize as s
    seen = set()
    for i, bs in enumerate(itertools.product(range(2 * n), repeat=k)):
        a, b, sp = s.index2component_general(n, k, i + 1)
        same(a, np.array(bs), 'band-spin index')
        same(b, np.array(bs) // 2, 'band index')
        same(sp, np.array(bs) % 2, 'spin index')
    for i, b in enumerate(itertools.product(range(n), repeat=k)):
        expect(s.component2index_band(n, k, b) == i + 1, 'band index')
        expect(tuple(s.index2component_band(n, k, i + 1)) == b, 'inverse band index')
        seen.add(i)


def run(ck):
    t = ck.thorough
    items = []
    for target in ('1freq_b', '2freq', '3freq'):
        for n in (1, 2) + ((3,) if t or target == '1freq_b' else ()):
            for part in partitions(n):
                for nf, nb in ((1, 0), (1, 1), (2, 1), (3, 2)) + (((4, 3), (2, 12)) if n == 1 or t else ()):
                    for worm in ('worm-last', 'worm-001')[:2 if n == 1 else 1]:
                        for nan in ((False, True) if target == '3freq' and nb == 1 else (False,)):
                            if target == '1freq_b' and nf > 1:
                                continue
                            items.append((f'symmetrized:{target},{part},f{nf},b{nb},{worm},nan={nan}', (target, (n,), (part,), nf, nb, worm, nan)))
        for p1 in partitions(1) + partitions(2):
            for p2 in partitions(1) + partitions(2):
                items.append((f'atoms:{target},{p1},{p2}', (target, (len(p1), len(p2)), (p1, p2), 1, 1, 'worm-last', False)))
    ck.pcases(symmetrized, items, trivial=lambda t_, n, p, nf, nb, *a: n == (1,) and nb == 0)
    items = []
    for n in (1, 2, 3, 4) if not t else (1, 2, 3, 4, 5):
        for p in partitions(n):
            items.append((f'one_particle:{p}', ((n,), (p,), 3)))
    for p1 in partitions(2):
        for p2 in partitions(3):
            items.append((f'one_particle:{p1},{p2}', ((2, 3), (p1, p2), 2)))
    ck.pcases(one_particle, items)
    ck.pcases(command, [(f'command:f{nf},b{nb},{i},{o}', (nf, nb, i, o)) for nf in (1, 2) for nb in (0, 1) for i in ('Vertex.hdf5', 'a.hdf5') for o in ('g4iw_sym.hdf5', 'b.h5')])
    ck.pcases(indices, [(f'indices:{n},{k}', (n, k)) for n in (1, 2, 3) for k in (1, 2, 4)])
    items = []
    for target in NAME:
        for parts in [(p,) for n in (1, 2) for p in partitions(n)] + [(p, q) for p in partitions(1) for q in partitions(2)]:
            items.append((f'interactive:{target},{parts}', (target, tuple(len(p) for p in parts), parts, True, None)))
        for a in ('n', 'no', ''):
            items.append((f'interactive:{target},additional groups,{a}', (target, (1,), ((0,),), False, a)))
    ck.pcases(interactive, items)
    ck.pcases(named, [(f'named:{i}', (i, o)) for i, o in (('g4iw.hdf5', 'g4iw_sym.hdf5'), ('x.hdf5', 'x_sym.hdf5'), ('./x.hdf5', 'x_sym.hdf5'), ('sub/x.hdf5', 'sub/x_sym.hdf5'),
                                                          ('run.1/x.hdf5', 'run.1/x_sym.hdf5'), ('sub/../x.hdf5', 'x_sym.hdf5'))])
