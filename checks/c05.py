"""C05: interfaces between identical media are invisible."""
from . import lay


def layouts(n, k, ls, lr):
    """Placements of (s, r) around the fictitious interface in layer k.

    Layers of the finer model: 0..n; k and k+1 have the same medium.  Yields
    (ls', lr', below) of the finer model."""
    def opts(l):
        if l < k:
            return [l]
        if l > k:
            return [l+1]
        return [k, k+1]
    for a in opts(ls):
        for b in opts(lr):
            for below in ((False, True) if a == b else (b > a,)):
                yield a, b, below


def task(t, n, k, ls, lr, conc):
    from symx import load, core, layered
    M = lay.setup(n+1, conc, eqprop=((k+1, k),))
    for a, b, below in layouts(n, k, ls, lr):
        pts, i_s, i_r = lay.points(a, b, below)
        M.place(pts)
        zs, zr = M.z[i_s], M.z[i_r]

        class C:
            pass
        C.n, C.lam = n, M.lam
        C.depth = layered.oarr([d for i, d in enumerate(M.depth)
                                if i != k+1])
        drop = [i for i in range(n+1) if i != k+1]
        arr = M.arrays()
        C.arrays = staticmethod(lambda: [x[:, drop] for x in arr])
        with load.symbolic(load.kernel, extra=lay.noclose()):
            for xd in (False, True):
                # with xdirect, source and receiver on different sides of the
                # fictitious interface have no analytical part: skip those
                if xd and (ls == lr) != (a == b):
                    continue
                for ab in lay.ABS:
                    f = lay.run_pj(C, zs, zr, ls, lr, ab, xd)
                    g = lay.run_pj(M, zs, zr, a, b, ab, xd)
                    for i, (p, q) in enumerate(zip(f, g)):
                        def case(env):
                            return lay.env_case(
                                M, env, 'split', zs=zs, zr=zr, ls=ls, lr=lr,
                                a=a, b=b, k=k, ab=ab, i=i, xd=xd)
                        if p is None or q is None:
                            if p is not q:
                                t.fail(f'ab{ab} PJ{i} missing', case)
                            continue
                        last = (p, q)
                        t.eq(f'n{n} layer{k} {ls}->{lr} ab{ab} PJ{i} xd{xd}',
                             p, q, case=case)
                    if t.full():
                        return
    if not t.cex:
        t.twin('perturbed', last[0], last[1]+1)


def task_detect(t, n):
    """check_model's full-space detection; all layer properties symbolic."""
    from symx import load, core, solve, layered
    from symx.core import var, sand, TRUE
    from symx.npx import SArr
    names = ['res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV']
    for vary in names:
        v = [var(f'{vary}{i}', pos=True, lo=1, hi=10) for i in range(n)]
        kw = {q: [3.]*n for q in names}
        kw[vary] = v
        depth = [float(10*i) for i in range(n-1)]

        def run():
            with load.symbolic(load.utils):
                o = load.utils.check_model(
                    depth, kw['res'], kw['aniso'], kw['epermH'],
                    kw['epermV'], kw['mpermH'], kw['mpermV'], True, 0)
            return o[-1]
        same = TRUE
        for i in range(1, n):
            same = sand(same, v[i] == v[0])
        nt = 0
        for pc, r in solve.paths(run):
            nt += 1

            def case(env):
                q = dict(kw)
                q[vary] = [float(core.neval(x, {k: float(w) for k, w in
                                                env.items()})) for x in v]
                return dict(kind='detect', depth=depth, kw=q, vary=vary)
            if isinstance(r, Exception):
                t.fail(f'raises {r!r}', case, repr(r), env={})
                return
            t.claim(f'n{n} {vary}: full-space flag', core.slift(r) == same,
                    pc, case=case)
        t.twin_claim('always', same)


def replay(c):
    if c['kind'] == 'detect':
        import numpy as np
        from empymod import utils
        k = c['kw']
        o = utils.check_model(c['depth'], k['res'], k['aniso'], k['epermH'],
                              k['epermV'], k['mpermH'], k['mpermV'], True, 0)
        v = np.array(k[c['vary']])
        same = bool(np.all(v == v[0]))
        # clearly different (beyond the closeness tolerance of the code)
        diff = bool(np.any(np.abs(v-v[0]) > 1e-3*np.abs(v[0])))
        bad = (bool(o[-1]) and diff) or (not bool(o[-1]) and same)
        return bad, f"{c['vary']}={v.tolist()}: full-space={bool(o[-1])}"
    g = lay.num_pj(c, c['zs'], c['zr'], c['a'], c['b'], c['ab'], c['xd'])
    d = dict(c)
    for q in ('etaH', 'etaV', 'zetaH', 'zetaV', 'depth'):
        d[q] = [x for i, x in enumerate(c[q]) if i != c['k']+1]
    f = lay.num_pj(d, c['zs'], c['zr'], c['ls'], c['lr'], c['ab'], c['xd'])
    i = c['i']
    if (f[i] is None) != (g[i] is None):
        return True, 'missing'
    sc = max([abs(x) for x in f if x is not None])
    return lay.differ(f[i], g[i], 1e-7, 1e-3*sc), \
        f"ab={c['ab']}: without {f[i]!r}, with fictitious interface {g[i]!r}"


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C05', 'c05', lay.FUNCTIONS + ['empymod.utils.check_model'],
                dict(
        layers='1->2, 2->3, 3->4 layers, all media, wavenumber, depths '
        'symbolic (3->4 with concrete media in quick); 4->5 concrete media '
        '(thorough)',
        positions='every source/receiver placement relative to the '
        'inserted interface (never exactly on it)',
        detection='2-3 layers, one property varying at a time, equality '
        'tolerance of the comparison taken as exact'), lay.ASSUME)
    for n in (1, 2, 3):
        for k in range(n):
            for ls in range(n):
                for lr in range(n):
                    chk.add(task, f'n{n} k{k} {ls} {lr}', n, k, ls, lr,
                            None if n < 3 or chk.thorough else 'media')
    if chk.thorough:
        for k in range(4):
            for ls in range(4):
                for lr in range(4):
                    chk.add(task, f'n4 k{k} {ls} {lr}', 4, k, ls, lr, 'media')
    for n in (2, 3):
        chk.add(task_detect, f'detect{n}', n)
    return chk
