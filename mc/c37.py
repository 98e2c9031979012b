"""C37: the continuation stage hands exactly the results of the calculation to the solver and stores what the solver returns."""
import os
import re

import numpy as np

from mc import c28, pipe, ref, simmpi
from mc.common import close, det, expect, scratch

LEVEL = 'exploration'
RULE = ('meshes x symmetries x requested continuations x settings (common, overriding) x number of processes x schedules x collective semantics '
        'of the continuation stage on stored results, and of complete runs; the solver is a recording stand-in, so that every stored value is '
        'determined by the data and settings that reached the solver; non-trivial: more than one irreducible momentum')

ME = {'nwr': 31, 'wmax': 6.0, 'wmin': -6.0, 'n_fit': 4, 'err': 1e-2, 'mesh_type': 'linear', 'bw': 0.0}
CNT = None


def stub(dat, nw):
    """ the stand-in of c28.solver """
    i = np.arange(1, len(dat) + 1)
    return np.array([np.sum(np.abs(dat) * np.cos((j + 1) * i)) for j in range(nw)])


def kk(a, w):
    """ spectrum -> Green function """
    e = np.concatenate(([w[0]], 0.5 * (w[1:] + w[:-1]), [w[-1]]))
    dw = e[1:] - e[:-1]
    g = np.zeros(len(w), complex)
    for j in range(len(w)):
        for i in range(len(w)):
            if i != j:
                g[j] += dw[i] * a[i] / (w[j] - w[i])
    return g - 1j * np.pi * a


def cont_f(mat, s, w):
    """ mat: full range, last axis """
    n = mat.shape[-1] // 2
    nf = min(s['n_fit'], n)
    cache = {}
    out = np.zeros(mat.shape[:-1] + (len(w),), complex)
    for i in np.ndindex(*mat.shape[:-1]):
        k = tuple(np.round(np.abs(mat[i][n:n + nf]), 12))
        if k not in cache:
            cache[k] = kk(stub(mat[i][n:n + nf], len(w)), w)
        out[i] = cache[k]
    return out


def cont_b(mat, s, w):
    n = mat.shape[-1] // 2
    nf = min(s['n_fit'], n)
    out = np.zeros(mat.shape[:-1] + (len(w),))
    for i in np.ndindex(*mat.shape[:-1]):
        out[i] = stub(mat[i][n:n + nf + 1], len(w)) * np.pi / 2
    return out


def mesh(s, bos=False):
    lo = max(s['wmin'], 0.0) if bos else s['wmin']
    return np.linspace(lo, s['wmax'], s['nwr'])


def sym_average(a, grid):
    """ the symmetric part of a quantity on the mesh """
    out = np.array(a)
    flat = out.reshape(-1, a.shape[-1])
    inv = np.ravel(grid.irrk_inv)
    for i in range(grid.nk_irr):
        flat[inv == i] = flat[inv == i].mean(axis=0)
    return flat.reshape(a.shape)


def stored(d, cfg, niv, niw, nsig, beta, n, ragged):
    """ what the calculation leaves behind: generic data with the symmetry of the lattice """
    from dga import config as conf
    from mc.bench import P
    lat = conf.DgaConfig(cfg, comm=P()).lattice
    v = ref.nu(beta, np.arange(niv))
    pos = 0.7 - 1j * 0.9 * v / (v ** 2 + 0.5) + 0.3 * det(lat.nk + (niv,), 3) / (1 + v ** 2)
    sig = ref.herm_f(sym_average(pos, lat.k_grid))
    chi = {}
    for i, ch in enumerate(('dens', 'magn')):
        x = det(lat.nq + (2 * niw + 1,), 20 + i) + 1
        chi[ch] = sym_average(x, lat.q_grid)
        np.save(d + f'chi_{ch}_lam.npy', chi[ch])
    np.save(d + 'siwk_dga.npy', sig)
    vs = ref.nu(beta, np.arange(nsig))
    siw = ref.herm_f(0.6 - 1j * 0.8 * vs / (vs ** 2 + 0.4))
    np.save(d + 'dmft_input.npy', {'n': n, 'beta': beta, 'u': 1.5, 'mu_dmft': 0.4, 'siw': siw, 'giw': siw, 'g4iw_dens': np.zeros((1, 2, 2)), 'g4iw_magn': np.zeros((1, 2, 2))})
    from ruamel.yaml import YAML
    with open(d + 'dga_config.yaml', 'w', encoding='utf-8') as f:
        YAML().dump(cfg, f)
    return sig, chi, siw


def snapshot(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(r + '/' + f, 'rb') as h:
                out[os.path.relpath(r + '/' + f, d)] = h.read()
    return out


def conductivity(nk, hr, g, w, beta):
    """ bubble conductivity at the positive frequencies below a third of the window """
    v2 = (pipe.velocity(nk, hr, 0) ** 2)[..., None]
    zero, ib = np.argmin(np.abs(w)), np.argmin(np.abs(w - w[-1] / 3))
    lo, hi = zero - (len(w) - ib) + len(w) % 2, zero + len(w) - ib
    f = 1 / (np.exp(beta * w[lo:hi]) + 1)
    out = []
    for i in range(1, ib - zero):
        y = v2 * f * (-g[..., lo:hi].imag / np.pi) * (g[..., lo + i:hi + i] + np.conj(g[..., lo - i:hi - i]))
        y = y.mean(axis=(0, 1, 2))
        out.append((-2 * np.sum(0.5 * (y[1:] + y[:-1])) * (w[1] - w[0])).imag / w[zero + i])
    return w[zero + 1:ib], np.array(out)


def dirs(d):
    return {os.path.relpath(r, d) for r, _, _ in os.walk(d)}


def only(me, sec):
    s = dict(ME)
    s.update({k: v for k, v in me.items() if not isinstance(v, dict)})
    s.update(me.get(sec, {}))
    return s


def check(d, me, cfg, sig, chi, siw, beta, n, hr, new):
    """ every stored continuation against the data on disk """
    nk = tuple(cfg['lattice']['nk'])
    ek = pipe.band(nk, hr)
    b = cfg['box_sizes']
    want = set()

    def folder(name, *files):
        cand = [x for x in new if re.fullmatch(name + r'(/?_\d+)?', x)]
        expect(len(cand) == 1, f'folders for {name}: {cand}, created {sorted(new)}')
        want.add(cand[0])
        got = set(os.listdir(d + cand[0]))
        expect(set(files) <= got, f'{name}: files {sorted(got)}, missing {sorted(set(files) - got)}')
        return [np.load(f'{d}{cand[0]}/{f}') if f.endswith('.npy') else None for f in files]

    m0 = None
    sigma = ref.Sigma(sig[..., sig.shape[-1] // 2:], beta)
    m0 = sigma.m0
    if 's_dga' in me:
        s = only(me, 's_dga')
        if s.get('do_cont', True):
            w = mesh(s)
            a, ws, g, sb, wb = folder('MaxEntSiwk', 'swk_dga_cont_fbz.npy', 'w.npy', 'gwk_dga_cont_fbz.npy', 'sigma_bub.npy', 'w_bub.npy')
            close(ws, w, 'real frequencies')
            data = sigma.get(s['n_fit']) - m0
            exp = cont_f(data, s, w) + m0
            close(a, exp, 'continued self-energy', rtol=1e-8)
            z = s['nwr'] // 2
            mu = (1 / g[0, 0, 0, z] - w[z] + ek[0, 0, 0] + a[0, 0, 0, z] - 0.04j).real
            close(g, 1 / (w + 0.04j + mu - ek[..., None] - a), 'Green function of the continued self-energy', rtol=1e-7)
            expect(len(sb) == len(wb) and wb[0] == 0 and wb[-1] <= w[-1] / 3 + 1e-9, 'frequencies of the conductivity')
            sg, ib = np.array([np.ravel(x) for x in conductivity(nk, hr, g, w, beta)])[:, :len(wb) - 1], len(wb) - 1
            close(wb[1:], sg[0].real, 'frequencies of the conductivity')
            close(sb[1:], sg[1].real, f'conductivity at {ib} frequencies', rtol=1e-8)
        else:
            folder('MaxEntSiwk')
    full = ref.Sigma(sig[..., sig.shape[-1] // 2:], beta)
    if 'g_dga' in me:
        s = only(me, 'g_dga')
        if s.get('do_cont', True):
            w = mesh(s)
            a, ws = folder('MaxEntGiwk', 'gwk_dga_cont_fbz.npy', 'w.npy')
            close(ws, w, 'real frequencies')
            g = ref.Green(full, ek, n=n, niv_asympt=b['niv_core'] + b['niv_shell'])
            close(a, cont_f(g.full, s, w), 'continued Green function', rtol=1e-4)
        else:
            folder('MaxEntGiwk')
    for sec, fol, ch in (('chi_d', 'MaxEntChiDens', 'dens'), ('chi_m', 'MaxEntChiMagn', 'magn')):
        if sec in me:
            s = only(me, sec)
            if s.get('do_cont', True):
                w = mesh(s, True)
                a, ws = folder(fol, f'chi_{ch}_cont_fbz.npy', 'w.npy')
                close(ws, w, 'real frequencies')
                close(a, cont_b(chi[ch], s, w), f'continued susceptibility {ch}', rtol=1e-8)
            else:
                folder(fol)
    if 'loc' in me:
        bws = [0.001, 0.01, 0.05, 0.1, 0.15, 0.2, 0.25, 0.35, 0.5, 0.75, 1.0]
        fs = [f'{x}_cont_bw{y}.npy' for x in ('dmft', 'dga') for y in bws]
        got = folder('MaxEnt', *fs, 'w.npy')
        s = {k: v for k, v in me.items() if not isinstance(v, dict)}
        nwr, wmax, nf = s.get('nwr', 501), s.get('wmax', 15), s.get('n_fit', int(beta * 3 + 10))
        w = np.linspace(-wmax, wmax, nwr)
        close(got[-1], w, 'mesh of the local continuation')
        gd = ref.Green(ref.Sigma(siw[None, None, None, len(siw) // 2:], beta), ek, mu=0.4, niv_asympt=b['niv_core'] + b['niv_shell'] + 2 * b['niw_core']).loc
        gl = ref.Green(full, ek, n=n, niv_asympt=b['niv_core'] + b['niv_shell']).loc
        for x, name in ((gd, 'dmft'), (gl, 'dga')):
            h = len(x) // 2
            e = kk(stub(x[h:h + min(nf, h)], nwr), w)
            for f, y in zip(fs, got):
                if f.startswith(name):
                    close(y, e, f, rtol=1e-4)
    return want


def stage(nk, nq, sym, me, size, kw, runs=1, band='t'):
    """ the stage on stored results, `runs` times one after the other """
    hr = pipe.HR
    beta, n = 5.0, 0.9
    cfg = pipe.conf(nk=nk, nq=nq, sym=sym, niw=2, niv=4, nsh=20)
    cfg['max_ent'] = {**ME, **me}
    del cfg['dmft_input']
    with scratch() as top:
        d = top + 'run/'
        os.mkdir(d)
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            sig, chi, siw = stored(d, cfg, 24, 5, 40, beta, n, False)
        steps = 0
        for r in range(runs):
            before = snapshot(d)
            old = dirs(d)
            w = simmpi.World(size, **kw)
            comms = simmpi.SimComm.create(w, size)

            def prog(c):
                from dga import dga_max_ent
                dga_max_ent.main(path=d, comm=c)
            with c28.solver(), pipe.quiet_plots(), contextlib.redirect_stdout(io.StringIO()):
                w.run([lambda c=c: prog(c) for c in comms])
            steps += len(w.choices)
            after = snapshot(d)
            for f, x in before.items():
                if f != 'max_ent.log':
                    expect(after.get(f) == x, f'{f} was changed')
            new = dirs(d) - old
            want = check(d, {**ME, **me}, cfg, sig, chi, siw, beta, n, hr, new)
            left = {os.path.dirname(f) for f in after if f not in before and f != 'max_ent.log'}
            expect(left <= want, f'files written to {sorted(left)}, expected {sorted(want)}')
            expect(new == want, f'created {sorted(new)}, expected {sorted(want)}')
    with open(CNT, 'a', encoding='utf-8') as f:
        f.write(f'{runs} {steps}\n')


def complete(kw, me, size, sched):
    """ the whole program including the continuation of its own results """
    cfg = pipe.conf(**kw)
    if me is not None:
        cfg['max_ent'] = {**ME, **me}
    b = cfg['box_sizes']
    data = pipe.model(b['niv_core'] + 1, b['niw_core'] + 1, 60)
    with c28.solver():
        out, world = pipe.execute(cfg, data, size, **sched)
    steps = len(world.choices)
    hr = pipe.HR
    sub = {k: v for k, v in out.items()}
    if me is not None:
        with scratch() as d:
            for k, v in sub.items():
                if k.startswith('MaxEnt') and k.endswith('.npy'):
                    os.makedirs(d + os.path.dirname(k), exist_ok=True)
                    np.save(d + k, v)
            inp = out['dmft_input.npy']
            chi = {c: out[f'chi_{c}_lam.npy'] for c in ('dens', 'magn')}
            keep = dict(inp)
            if 'loc' not in me:
                check(d, {**ME, **me}, cfg, out['siwk_dga.npy'], chi, keep['siw'], data['beta'], data['n'], hr, dirs(d))
    o = cfg.get('optics', {})
    if 'max_ent' in o:
        s = {**c28_defaults(), **o['max_ent']}
        if s['n_fit'] == -1:
            s['n_fit'] = o.get('niw_cond', b['niw_core'] // 2)
        w = mesh(s, True)
        bub = out['Optics/chijj_bubble.npy']
        full = np.array(bub)
        if o.get('do_vertex'):
            vert = out['Optics/chijj_vert.npy']
            nb, nv = len(bub) // 2, len(vert) // 2
            n = max(nb, nv)
            full = np.zeros(2 * n + 1, complex)
            full[n - nb:n + nb + 1] += bub
            full[n - nv:n + nv + 1] += vert
        close(out['Optics/w.npy'], w, 'real frequencies of the conductivity')
        close(out['Optics/sigma_bubble_cont.npy'], cont_b(bub, s, w), 'continued bubble', rtol=1e-8)
        close(out['Optics/sigma_full_cont.npy'], cont_b(full, s, w), 'continued conductivity', rtol=1e-8)
    with open(CNT, 'a', encoding='utf-8') as f:
        f.write(f'1 {steps}\n')


def c28_defaults():
    return {'nwr': 501, 'wmax': 15, 'wmin': -15, 'n_fit': 20, 'mesh_type': 'tan'}


ALL = {'s_dga': {}, 'g_dga': {}, 'chi_d': {}, 'chi_m': {}}


def run(ck):
    import tempfile
    global CNT
    import dga.dga_max_ent  # noqa: F401
    t = ck.thorough
    items = []
    lat = [((4, 4, 1), None, 'sq'), ((4, 4, 1), (2, 2, 1), 'sq'), ((6, 4, 1), None, 'q1d'), ((4, 4, 1), None, 'none'), ((4, 6, 1), (2, 3, 1), 'none'),
           ((4, 4, 1), None, 'inv'), ((6, 6, 1), (3, 3, 1), 'sq')] + ([((8, 8, 1), (4, 4, 1), 'sq'), ((4, 4, 2), (4, 2, 1), 'none')] if t else [])
    mes = {'all': ALL, 's': {'s_dga': {}}, 'g': {'g_dga': {'n_fit': 3}}, 'cd': {'chi_d': {'nwr': 11}}, 'cm': {'chi_m': {'wmax': 3.0}},
           'off': {'s_dga': {'do_cont': False}, 'g_dga': {'do_cont': False}, 'chi_d': {'do_cont': False}, 'chi_m': {'do_cont': False}},
           'over': {'n_fit': 30, 's_dga': {'n_fit': 60, 'wmax': 3.0}, 'g_dga': {'wmin': -3.0}, 'chi_d': {'n_fit': 2}, 'chi_m': {'n_fit': 99, 'nwr': 5}},
           'loc': {'loc': {}}, 'allloc': {**ALL, 'loc': {}}}
    for nk, nq, sym in lat:
        from dga import config as conf
        from mc.bench import P
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            l = conf.DgaConfig(pipe.conf(nk=nk, nq=nq, sym=sym), comm=P()).lattice
        top = min(l.k_grid.nk_irr, l.q_grid.nk_irr)
        for name, me in mes.items():
            for size in range(1, top + 1) if t else sorted({1, 2, min(3, top), top} if name == 'all' else {1 if name in ('cd', 'g') else top, 2}):
                for rr in (False, True):
                    for sync in (False, True):
                        if size > top or size == 1 and (rr or sync) or not t and size > 1 and (rr == sync or name not in ('all', 'over') and rr != bool(size % 2)):
                            continue
                        items.append((f'stage:{"x".join(map(str, nk))},{"x".join(map(str, nq or nk))},{sym},{name},n={size},{"rr" if rr else "rtb"},{"sync" if sync else "weak"}',
                                      (nk, nq, sym, me, size, {'rr': rr, 'sync': sync})))
        items.append((f'repeat:{"x".join(map(str, nk))},{"x".join(map(str, nq or nk))},{sym}', (nk, nq, sym, mes['allloc'], min(2, top), {}, 3)))
    fd, CNT = tempfile.mkstemp(prefix='verif_mc_')
    os.close(fd)
    ck.pcases(stage, items[::-1], chunk=1)
    big = dict(niw=4, niv=6, nsh=14)
    opt = {'do_bubble': True, 'do_vertex': True}
    items = []
    for nq in (None, (2, 2, 1)):
        for size in (1, 2, 3):
            items.append((f'complete:{nq},n={size}', (dict(big, nq=nq), ALL, size, {'rr': bool(size % 2)})))
            for m in ({'nwr': 31, 'mesh_type': 'linear', 'n_fit': -1}, {'nwr': 31, 'mesh_type': 'linear', 'n_fit': 3, 'wmax': 7.0}, {'nwr': 31, 'mesh_type': 'linear'}):
                for o in (opt, {'do_bubble': True}, dict(opt, niw_cond=3, niw_bubble=1), dict(opt, niw_cond=2, niw_bubble=5)):
                    if not t and size != 2 and (o is not opt or 'wmax' in m):
                        continue
                    items.append((f'optics:{nq},{m},{o},n={size}', (dict(big, nq=nq, optics=dict(o, max_ent=m)), None, size, {})))
    ck.pcases(complete, items, chunk=1)
    r = s = 0
    for line in open(CNT, encoding='utf-8'):
        a, b = map(int, line.split())
        r, s = r + a, s + b
    os.remove(CNT)
    ck.count('runs_of_the_stage', r)
    ck.count('scheduled_steps', s)
    ck.assumptions += ['the solver is replaced by a stand-in whose result depends on every datum it receives', 'linear real-frequency meshes']
