"""C09: direct field in the wavenumber domain, in the frequency domain, or
left out."""
from . import lay, api


def t_kernel(t, n, ls, lr, below, conc):
    """PJ(with direct) - PJ(without) = PJ of the source layer's whole space
    (same layer), 0 otherwise."""
    from symx import load, layered
    M = lay.setup(n, conc)
    pts, i_s, i_r = lay.points(ls, lr, below)
    M.place(pts)
    zs, zr = M.z[i_s], M.z[i_r]

    class W:
        n = 1
        lam = M.lam
        depth = layered.oarr([M.depth[0]])
    arrs = M.arrays()
    W.arrays = staticmethod(lambda: [x[:, ls:ls+1] for x in arrs])
    last = None
    with load.symbolic(load.kernel, extra=lay.noclose()):
        for ab in lay.ABS:
            a = lay.run_pj(M, zs, zr, ls, lr, ab, False)
            b = lay.run_pj(M, zs, zr, ls, lr, ab, True)
            d = lay.run_pj(W, zs, zr, 0, 0, ab, False)
            for i in range(3):
                def case(env):
                    return lay.env_case(M, env, 'kernel', zs=zs, zr=zr,
                                        ls=ls, lr=lr, ab=ab, i=i)
                if (a[i] is None) != (b[i] is None):
                    t.fail(f'ab{ab} PJ{i} missing', case)
                    continue
                if a[i] is None:
                    continue
                e = d[i] if ls == lr and d[i] is not None else 0*a[i]
                t.eq(f'n{n} {ls}->{lr} ab{ab} PJ{i}', a[i], b[i] + e,
                     case=case)
                if ls == lr and d[i] is not None and not d[i].is_const(0):
                    last = a[i], b[i]
            if t.full():
                return
    if last and not t.cex:
        t.twin('direct part ignored', *last)


def t_fem(t, full, ls, lr, abs_, mags):
    """dipole / bipole with xdirect False, True, None over the stubs."""
    from symx import load, core
    from symx.core import var
    import numpy as np
    S = api.Stubs()
    depth = [0., 100., 1000.]
    res = [3.]*4 if full else [2e14, 0.3, 2., 5.]
    zr = [(-50, -10), (20, 80), (200, 800), (1200, 1500)]
    src = [var('sx', lo=-300, hi=-100), var('sy', lo=-50, hi=50),
           var('sz', lo=zr[ls][0], hi=zr[ls][1])]
    rec = [[var('rx0', lo=400, hi=900), var('rx1', lo=400, hi=900)],
           [var('ry0', lo=100, hi=200)]*2,
           var('rz', lo=zr[lr][0], hi=zr[lr][1])]
    freq = [var('f0', lo=1, hi=10), var('f1', lo=1, hi=10)]

    def direct(ab):
        """Oracle: analytical full space of the source layer."""
        out = []
        mod = load.utils.check_model(depth, res, None, None, None, None,
                                     None, True, 0)
        fq = load.utils.check_frequency(freq, *mod[1:7], 0)
        ac, ms, mr = load.utils.check_ab(ab, 0)
        off = [core.sqrt((x-src[0])**2+(y-src[1])**2)
               for x, y in zip(rec[0], rec[1])]
        ang = [core.atan2(y-src[1], x-src[0])
               for x, y in zip(rec[0], rec[1])]
        from symx.layered import oarr
        return load.kernel.fullspace(
            oarr(off), oarr(ang), src[2], rec[2],
            *[np.asarray(m, dtype=object)[:, ls] for m in fq[1:]],
            ac, ms, mr)

    def dip(ab, xd):
        return np.asarray(load.model.dipole(
            src, rec, depth, res, freq, ab=ab, xdirect=xd, verb=0,
            squeeze=False), dtype=object)[:, :, 0]
    for ab in abs_:
        def go():
            n0 = len(S.calls)
            T = dip(ab, True)
            N = dip(ab, None)
            n1 = len(S.calls)
            F = dip(ab, False)
            cf = [c for c in S.calls[n1:]]
            D = direct(ab) if ls == lr or full else np.zeros((2, 2), object)
            if ab in (36, 63):
                D = np.zeros((2, 2), dtype=object)
            return T, N, F, D, cf, S.calls[n0:n1]
        for pc, r in api.run(go, S, one=False):
            case = api.kwcase('fem', src=src, rec=rec, depth=depth, res=res,
                              freqtime=freq, ab=ab, ls=ls, lr=lr, full=full)
            if isinstance(r, Exception):
                t.fail(f'ab{ab} raises', case, repr(r)[:300], env={})
                continue
            T, N, F, D, cf, ct = r
            nm = f'full{full} {ls}->{lr} ab{ab}'
            if T.shape != D.shape or N.shape != D.shape:
                t.fail(f'{nm}: shape {T.shape}', case, env={})
                continue
            for i in np.ndindex(D.shape):
                t.eq(f'{nm} total = scattered + direct {list(i)}', T[i],
                     N[i] + D[i], pc, case=case)
                if full:
                    t.eq(f'{nm} no scattered field {list(i)}', N[i], 0, pc,
                         case=case)
            # with the direct field in the wavenumber domain the analytical
            # solution must not be added, and the transform is told so
            ok = not any(c[0] == 'fullspace' for c in cf)
            if ab not in (36, 63):
                ok = ok and any(c[0] != 'fullspace' for c in cf) and \
                    all(not bool(c[1]['xdirect']) for c in cf
                        if c[0] != 'fullspace')
                ok = ok and all(bool(c[1]['xdirect']) is True for c in ct
                                if c[0] != 'fullspace')
            else:
                for i in np.ndindex(D.shape):
                    t.eq(f'{nm} zero component', F[i], 0, pc, case=case)
            if ok:
                t.passed(nm)
            else:
                t.fail(f'{nm}: wrong direct-field flag of the transform',
                       case, env={})
        if t.full():
            return


def replay(c):
    import numpy as np
    if c['kind'] == 'kernel':
        a = lay.num_pj(c, c['zs'], c['zr'], c['ls'], c['lr'], c['ab'], False)
        b = lay.num_pj(c, c['zs'], c['zr'], c['ls'], c['lr'], c['ab'], True)
        i = c['i']
        d = dict(c, depth=[-1e300])
        for k in ('etaH', 'etaV', 'zetaH', 'zetaV'):
            d[k] = [c[k][c['ls']]]
        e = lay.num_pj(d, c['zs'], c['zr'], 0, 0, c['ab'], False)
        if (a[i] is None) != (b[i] is None):
            return True, f'PJ{i} missing'
        x = e[i] if c['ls'] == c['lr'] and e[i] is not None else 0.0
        sc = max([abs(q) for q in a if q is not None] + [abs(x)])
        return lay.differ(a[i], b[i]+x, 1e-7, 1e-3*sc), \
            f"ab={c['ab']}: with direct {a[i]!r}, without {b[i]!r}, " \
            f"direct {x!r}"
    kw = {k: c[k] for k in ('src', 'rec', 'depth', 'res', 'freqtime', 'ab')}
    from empymod import kernel, utils
    T = api.real_call('dipole', dict(kw, xdirect=True, squeeze=False))
    N = api.real_call('dipole', dict(kw, xdirect=None, squeeze=False))
    F = api.real_call('dipole', dict(kw, xdirect=False, squeeze=False,
                                     htarg={'dlf': 'key_401_2009'}))
    # direct: homogeneous full space of the source layer
    D = np.zeros_like(T)
    if c['full'] or c['ls'] == c['lr']:
        D = api.real_call('dipole', dict(
            kw, depth=[], res=c['res'][c['ls']], xdirect=True,
            squeeze=False))
    sc = np.max(np.abs(T)) + np.max(np.abs(D))
    if sc == 0:
        bad = np.any(F != 0) or np.any(N != 0)
        return bool(bad), 'zero component'
    d1 = np.max(np.abs(T-N-D))/sc
    d2 = np.max(np.abs(T-F))/sc
    return bool(d1 > 1e-6 or d2 > 1e-2), (
        f"ab={c['ab']}: total {T.ravel()[:2]}, scattered {N.ravel()[:2]}, "
        f"direct {D.ravel()[:2]}, wavenumber-domain total {F.ravel()[:2]}")


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C09', 'c09', lay.FUNCTIONS + [
        'empymod.model.dipole', 'empymod.model.fem'], dict(
        kernels='1-3 layers, every source/receiver layer pair and order, '
        'all 34 non-zero pairs; all media symbolic (3 layers: concrete '
        'media in quick); 4 layers thorough',
        routine='dipole in a 4-layer model and in a stack of equal layers, '
        'every layer pair; 2 receivers, 2 frequencies symbolic'),
        lay.ASSUME + api.ASSUME + [
            'That the closed form equals the transform of the whole-space '
            'kernels (Sommerfeld integrals) is not encoded; both are shown '
            'to be dipole fields in C02/C03 and C08.'])
    for n in (1, 2, 3) + ((4,) if chk.thorough else ()):
        for ls, lr, below in lay.configs(n):
            chk.add(t_kernel, f'kernel n{n} {ls}{lr}{below}', n, ls, lr,
                    below, None if n < 3 or (n == 3 and chk.thorough)
                    else 'media')
    abs_ = [10*i+j for i in range(1, 7) for j in range(1, 7)]
    if not chk.thorough:
        few = [11, 13, 33, 24, 41, 65, 36, 63]
    for full in (False, True):
        for ls in range(4):
            for lr in range(4):
                chk.add(t_fem, f'fem {full} {ls}{lr}', full, ls, lr,
                        abs_ if chk.thorough or ls == lr else few, None)
    return chk
