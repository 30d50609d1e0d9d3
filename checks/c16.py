"""C16: the Hankel DLF is the filter sum it documents."""
import math

from . import api

J2 = (11, 12, 21, 22, 14, 24, 15, 25)
ALL = [11, 12, 13, 14, 15, 16, 21, 22, 23, 24, 25, 26, 31, 32, 33, 34, 35,
       41, 42, 43, 44, 45, 46, 51, 52, 53, 54, 55, 56, 61, 62, 64, 65, 66]
DOC = [11, 12, 13, 14, 15, 16, 21, 22, 23, 24, 25, 26, 31, 32, 33, 34, 35]


def parts(ab):
    """Which of PJ0, PJ1, PJ0b exist (structure of the kernels)."""
    if ab == 33:
        return (True, False, False)
    if ab in (13, 23, 31, 32, 16, 26, 34, 35):
        return (False, True, False)
    return (True, True, True)


def val(S, part, f, lam, real):
    """Kernel value of this part, frequency and wavenumber (symbolic)."""
    return S._val(f'PJ{part}f{f}', [lam]) if not real else \
        __import__('symx.core', fromlist=['core']).cuf(
            f'PJ{part}f{f}.re', lam)


_SEEN = set()


def snap(v):
    """Integer key of a float; values closer than ~2e-7 share the key."""
    k = round(float(v)*1e7)
    for d in (0, 1, -1, 2, -2):
        if k+d in _SEEN:
            return k+d
    _SEEN.add(k)
    return k


def key(x):
    return snap(math.log(float(x)))


def val_c(part, f, lam, real):
    """The same for concrete wavenumbers: one symbol per value."""
    from symx.core import var, CSym
    k = f'K{part}_{f}_{key(lam)}'.replace('-', 'm')
    r = var(k+'r', lo=-3, hi=3)
    return r if real else CSym(r, var(k+'i', lo=-3, hi=3))


class Spline:
    """iuSpline stand-in: an unknown linear operator determined by nodes and
    evaluation point."""
    ids = {}

    @classmethod
    def coef(cls, x, k, q):
        """Weight of node k in the value at q (nodes x)."""
        from symx.core import var
        xk = tuple(snap(v) for v in x)
        i = cls.ids.setdefault(xk, len(cls.ids))
        return var(f'spl{i}_{k}_{snap(q)}'.replace('-', 'm'),
                   lo=-2, hi=2)

    @classmethod
    def make(cls, x, y, *a, **k):
        import numpy as np
        from symx.npx import SArr
        x = np.asarray(x, dtype=float).ravel()
        y = np.asarray(y, dtype=object).ravel()
        if x.ndim != 1 or y.shape != x.shape or np.any(np.diff(x) <= 0) or \
                x.size < 4:
            raise ValueError('x must be strictly increasing, >= 4 points')

        def f(q):
            q = np.asarray(q, dtype=float)
            o = np.empty(q.shape, dtype=object)
            for i in np.ndindex(q.shape):
                o[i] = sum(cls.coef(x, j, q[i])*y[j] for j in range(x.size))
            return o.view(SArr)
        return f


def wavenumber(nf, real, sym, S, log):
    def w(zsrc, zrec, lsrc, lrec, depth, etaH, etaV, zetaH, zetaV, lambd, ab,
          xdirect, msrc, mrec):
        import numpy as np
        from symx.npx import SArr
        lam = np.asarray(lambd, dtype=object)
        if lam.ndim != 2:
            raise ValueError('lambd')
        log.append(lam)
        out = []
        for p in range(3):
            if not parts(int(ab))[p]:
                out.append(None)
                continue
            o = np.empty((nf,)+lam.shape, dtype=object)
            for i in np.ndindex(o.shape):
                o[i] = val(S, p, i[0], lam[i[1:]], real) if sym else \
                    val_c(p, i[0], lam[i[1:]], real)
            out.append(o.view(SArr))
        return tuple(out)
    return w


def run(t, S, fn, real):
    from symx import load
    load_extra = [(load.transform, 'iuSpline', Spline.make)]
    return load_extra


def t_std(t, ab, nf, no, n, real, same):
    """Standard DLF, everything symbolic."""
    import numpy as np
    from symx import load, solve
    from symx.core import var
    from symx.layered import oarr
    S = api.Stubs(real=real)
    log = []
    filt = api.fakefilter(n, ('j0', 'j1'))
    off = [var(f'off{i}', pos=True, lo=5+10*i, hi=10+10*i) for i in range(no)]
    ang = [var('ang0' if same else f'ang{i}', lo=-1, hi=1) for i in range(no)]
    etaH = oarr([[var(f'eta{i}', pos=True)] for i in range(nf)])
    at = [(load.kernel, 'wavenumber', wavenumber(nf, real, True, S, log))]
    case = api.kwcase('std', ab=ab, nf=nf, off=off, ang=ang, base=filt.base,
                      j0=filt.j0, j1=filt.j1, real=real, ppd=0,
                      factor=float(filt.factor))

    def f():
        with load.symbolic(load.transform, attrs=at):
            return load.transform.hankel_dlf(
                1., 2., 0, 0, oarr(off), oarr(ang), np.array([0.]), ab, etaH,
                etaH, etaH, etaH, False, dict(dlf=filt, pts_per_dec=0),
                False, False)
    cnt = 0
    for pc, o in solve.paths(f):
        cnt += 1
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', case, repr(o)[:200], env=e)
            continue
        o, kc, conv = o
        if api.arr(o).shape != (nf, no):
            t.fail(f'shape {api.arr(o).shape}', case, env=solve.pc_model(pc))
            continue
        t.claim('converged', bool(conv), pc, case=case)
        for i in range(nf):
            for j in range(no):
                t.eq('sum', o[i, j], oracle(
                    ab, off[j], ang[j], filt,
                    lambda p, b: val(S, p, i, b/off[j], real)), pc,
                    case=case)
    t.twin('twin', o[0, 0], o[0, 0]+1, pc)
    if not cnt:
        t.errors.append('no path')


def oracle(ab, off, ang, filt, K):
    """sum_k K(base_k/off) h_k / off with angle factor / J2 recursion."""
    use = parts(ab)
    n = len(filt.base)
    s = 0
    if use[1]:
        s1 = sum(filt.j1[k]*K(1, filt.base[k]) for k in range(n))
        s = s1/off if ab in J2 else s1
    if use[2]:
        s = s + sum(filt.j0[k]*K(2, filt.base[k]) for k in range(n))
    s = s*ang if (use[1] or use[2]) else 0
    if use[0]:
        s = s + sum(filt.j0[k]*K(0, filt.base[k]) for k in range(n))
    return s/off


def concrete_filter(n, factor):
    import numpy as np
    from symx.core import var
    from symx.layered import oarr
    base = np.exp(np.log(factor)*(np.arange(n)-(n-1)/2))
    return api.Filter('geo', base=base, factor=np.float64(factor), **{
        k: oarr([var(f'{k}w{i}', lo=-2, hi=2) for i in range(n)])
        for k in ('j0', 'j1', 'sin', 'cos')})


def t_interp(t, ab, nf, off, same, n, factor, ppd, real, direct):
    """Lagged convolution (ppd<0) and splined (ppd>0): symbolic kernels,
    weights, angles and interpolation; concrete points."""
    import numpy as np
    from symx import core, load, solve
    from symx.core import var
    from symx.layered import oarr
    S = api.Stubs(real=real)
    log = []
    filt = concrete_filter(n, factor)
    off = np.array(off)
    no = off.size
    ang = [var('ang0' if same else f'ang{i}', lo=-1, hi=1) for i in range(no)]
    etaH = oarr([[var(f'eta{i}', pos=True)] for i in range(nf)])
    W = wavenumber(nf, real, False, S, log)
    at = [(load.kernel, 'wavenumber', W),
          (load.transform, 'iuSpline', Spline.make)]
    case = api.kwcase('interp', ab=ab, nf=nf, off=off, ang=ang,
                      base=filt.base, factor=float(factor), j0=filt.j0,
                      j1=filt.j1, ppd=ppd, real=real)

    def f():
        log.clear()
        with load.symbolic(load.transform, attrs=at):
            tr = load.transform
            if direct:      # dlf itself, without int_pts
                lam, _ = tr.get_dlf_points(filt, off, ppd)
                out = []
                for i in range(nf):
                    PJ = W(1, 2, 0, 0, None, None, None, None, None, lam, ab,
                           False, False, False)
                    PJ = tuple(None if q is None else q[i] for q in PJ)
                    out.append(tr.dlf(PJ, lam, off, filt, ppd,
                                      ang_fact=oarr(ang), ab=ab))
                return np.array([api.arr(q).reshape(no) for q in out]), 1, True
            return load.transform.hankel_dlf(
                1., 2., 0, 0, off, oarr(ang), np.array([0.]), ab, etaH,
                etaH, etaH, etaH, False, dict(dlf=filt, pts_per_dec=ppd),
                False, False)
    cnt = 0
    a = None
    for pc, o in solve.paths(f):
        cnt += 1
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', case, repr(o)[:200], env=e)
            continue
        lam = np.asarray(log[0], dtype=float)
        if lam.shape[0] != 1 or np.any(np.diff(lam[0]) <= 0):
            t.fail('common set of points', case, env=solve.pc_model(pc))
            continue
        lam = lam[0]
        a = api.arr(o[0])
        if a.shape in ((no,), (1, no)):     # one frequency at a time
            a = a.reshape(1, no)
        if a.shape != (nf, no):
            t.fail(f'shape {a.shape}', case, env=solve.pc_model(pc))
            continue
        av = [next((b for b in ang[:j] if solve.prove(
            core._cmp('eq', a_, b), pc)[0] == 'unsat'), a_)
            for j, a_ in enumerate(ang)]    # equal angles on this path
        eqm = {a_: b for a_, b in zip(ang, av) if a_ is not b}
        for i in range(nf):
            for j in range(no):
                if ppd < 0:
                    e = lagged(ab, i, off, j, av[j], filt, factor, lam, real,
                               t, case, pc)
                else:
                    e = splined(ab, i, off, j, av[j], filt, lam, ppd, real,
                                t, case, pc)
                if e is None:
                    return
                c = a[i, j]
                if eqm:
                    c = core.CSym(core.subst(core.lift(c.re), eqm),
                                  core.subst(core.lift(c.im), eqm)) \
                        if isinstance(c, core.CSym) else \
                        core.subst(core.lift(c), eqm)
                t.eq('interp', c, e, pc, case=case, tol=1e-9)
                if t.full():
                    return
    if not cnt:
        t.errors.append('no path')
    elif a is not None:
        t.twin('twin', a[0, 0], a[0, 0]+1, pc)


def lagged(ab, i, off, j, ang, filt, factor, lam, real, t, case, pc):
    """Transform at the common inner offsets t_m = max(off) factor^-m from
    shifts of one common set; interpolate in log; angle factor applied after
    the interpolation."""
    import numpy as np
    n = len(filt.base)
    M = len(lam)-n+1
    tm = off.max()*factor**(-np.arange(M, dtype=float))
    if not (M >= 4 and tm[-1] <= off.min()*(1+1e-9)):
        from symx import solve
        t.fail('common points do not cover the offsets', case,
               env=solve.pc_model(pc))
        return None
    use = parts(ab)

    def at(p, m):
        # wavenumbers base_k/t_m must be points of the common set
        w = filt.j1 if p == 1 else filt.j0
        return sum(w[k]*val_c(p, i, lam[m+k], real) for k in range(n))
    for m in range(M):
        if np.any(abs(lam[m:m+n]*tm[m]/filt.base-1) > 1e-9):
            from symx import solve
            t.fail('shifted points', case, env=solve.pc_model(pc))
            return None
    x = np.log(tm[::-1])
    q = np.log(off[j])
    s = 0
    for m in range(M):
        v = 0
        if use[1]:
            v = at(1, m)
            v = v/tm[m] if ab in J2 else v
        if use[2]:
            v = v + at(2, m)
        v = v*ang if (use[1] or use[2]) else 0
        if use[0]:
            v = v + at(0, m)
        s = s + Spline.coef(x, M-1-m, q)*v
    return s/off[j]


def splined(ab, i, off, j, ang, filt, lam, ppd, real, t, case, pc):
    import numpy as np
    n = len(filt.base)
    need = filt.base[0]/off.max(), filt.base[-1]/off.min()
    st = np.diff(np.log10(lam))
    if lam[0] > need[0]*(1+1e-9) or lam[-1] < need[1]*(1-1e-9) or \
            np.any(abs(st*ppd-1) > 1e-6) or lam.size < 4:
        from symx import solve
        t.fail('common points do not cover the range', case,
               env=solve.pc_model(pc))
        return None
    x = np.log(lam)

    def K(p, b):
        q = np.log(b/off[j])
        return sum(Spline.coef(x, m, q)*val_c(p, i, lam[m], real)
                   for m in range(lam.size))
    return oracle(ab, off[j], ang, filt, K)


def t_fourier(t, kind, ppd, n, factor, times, real, ints):
    """dlf as Fourier transform: -Im with sine, Re with cosine weights."""
    import numpy as np
    from symx import load, solve
    from symx.core import var
    from symx.layered import oarr
    times = np.array(times)
    filt = concrete_filter(n, factor)
    at = [(load.transform, 'iuSpline', Spline.make)]
    case = api.kwcase('fourier', kindf=kind, ppd=ppd, factor=float(factor),
                      base=filt.base, off=times, sin=filt.sin, cos=filt.cos)

    def f():
        with load.symbolic(load.transform, attrs=at):
            tr = load.transform
            lam, ip = tr.get_dlf_points(filt, times, ppd)
            lam = np.asarray(lam, dtype=float)
            sig = np.empty(lam.shape, dtype=object)
            for k in np.ndindex(lam.shape):
                sig[k] = val_c(9, 0, lam[k], False)
            from symx.npx import SArr
            kw = dict(int_pts=ip) if ints else {}
            return lam, tr.dlf(sig.view(SArr), lam, times, filt, ppd,
                               kind=kind, **kw)
    for pc, o in solve.paths(f):
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', case, repr(o)[:200], env=e)
            continue
        lam, o = o
        o = api.arr(o).reshape(-1)
        w = filt.sin if kind == 'sin' else filt.cos

        def part(v):
            return -v.im if kind == 'sin' else v.re
        for j, tt in enumerate(times):
            if ppd == 0:
                e = sum(w[k]*part(val_c(9, 0, filt.base[k]/tt, False))
                        for k in range(n))/tt
            elif ppd < 0:
                M = lam.shape[1]-n+1
                tm = times.max()*factor**(-np.arange(M, dtype=float))
                x = np.log(tm[::-1])
                e = 0
                for m in range(M):
                    e = e + Spline.coef(x, M-1-m, np.log(tt))*sum(
                        w[k]*part(val_c(9, 0, filt.base[k]/tm[m], False))
                        for k in range(n))
                e = e/tt
            else:
                x = np.log(lam[0])
                e = sum(w[k]*sum(Spline.coef(x, m, np.log(filt.base[k]/tt)) *
                                 part(val_c(9, 0, lam[0][m], False))
                                 for m in range(x.size))
                        for k in range(n))/tt
            t.eq('fourier', o[j], e, pc, case=case, tol=1e-9)
    t.twin('twin', o[0], o[0]+1, pc)


# -- replay: a smooth kernel, real code, numeric definition ------------------

def replay(c):
    import numpy as np
    import types
    from scipy.interpolate import InterpolatedUnivariateSpline as iu
    from empymod import transform, kernel
    off = np.array(c['off'], dtype=float)
    filt = types.SimpleNamespace(
        name='x', factor=np.float64(c['factor']),
        **{k: np.array(c[k], dtype=float) for k in
           ('base', 'j0', 'j1', 'sin', 'cos') if k in c})
    n = filt.base.size
    ppd = c['ppd']

    def kf(p, f, lam):
        lam = np.asarray(lam, dtype=float)
        r = np.exp(-lam*(1+p))*(1+f) + 0.3*p
        return r if c.get('real') else r + 1j*np.exp(-lam*(0.4+f+p))*(1+p)

    def num(K, x_in, x_out):
        return iu(x_in, K.real)(x_out) + 1j*iu(x_in, K.imag)(x_out)
    fac = float(c['factor'])
    if ppd < 0:
        M = max(4, int(np.ceil(np.log(off.max()/off.min()) /
                               np.log(fac) - 1e-9)) + 1)
    if c['kind'] == 'fourier':
        kind = c['kindf']
        lam, ip = transform.get_dlf_points(filt, off, ppd)
        try:
            o = transform.dlf(kf(0, 0, lam), lam, off, filt, ppd, kind=kind)
        except Exception as e:
            return True, f'dlf raises {e!r}'
        w = filt.sin if kind == 'sin' else filt.cos
        p = (lambda v: -v.imag) if kind == 'sin' else (lambda v: v.real)
        fn = lambda tt: np.sum(w*p(kf(0, 0, filt.base/tt)))
        e, tol = interp(fn, off, ppd, fac, None, ip, filt, kf, lam,
                        lambda L, tt: np.sum(
                            w*p(num(kf(0, 0, L), np.log(L),
                                    np.log(filt.base/tt)))))
        e = e/off
        d = api.ndiff(np.squeeze(o), np.squeeze(e))
        return d > 1e-6, f'dlf {kind} {o} expected {e} (rel. diff {d:.1e})'
    ab, nf = c['ab'], c['nf']
    ang = np.array(c['ang'], dtype=float)
    use = parts(ab)

    def w(zsrc, zrec, lsrc, lrec, depth, eH, eV, zH, zV, lambd, *a):
        return tuple(np.array([kf(p, f, lambd) for f in range(nf)])
                     if use[p] else None for p in range(3))
    real = kernel.wavenumber
    kernel.wavenumber = w
    z = np.ones((nf, 1), dtype=float if c.get('real') else complex)
    try:
        o = transform.hankel_dlf(1., 2., 0, 0, off, ang, np.array([0.]), ab,
                                 z, z, z, z, False,
                                 dict(dlf=filt, pts_per_dec=ppd), False,
                                 False)[0]
    except Exception as e:
        return True, f'hankel_dlf raises {e!r}'
    finally:
        kernel.wavenumber = real
    lam, ip = transform.get_dlf_points(filt, off, ppd)
    e = np.zeros((nf, off.size), dtype=complex)
    for f in range(nf):
        for j, r in enumerate(off):
            F = types.SimpleNamespace(base=filt.base, j0=filt.j0, j1=filt.j1)

            def full(rr, an, KK):
                # DLF sum without the final division by the offset
                return oracle(ab, rr, an, F, KK)*rr
            if ppd == 0:
                e[f, j] = full(r, ang[j], lambda p, b: kf(p, f, b/r))/r
            elif ppd < 0:
                tm = off.max()*fac**(-np.arange(M, dtype=float))
                y = np.array([full(q, ang[j], lambda p, b: kf(p, f, b/q))
                              for q in tm])
                e[f, j] = num(y, np.log(tm[::-1]), np.log(r)) if False else \
                    num(y[::-1], np.log(tm[::-1]), np.log(r))/r
            else:
                L = lam[0]
                e[f, j] = full(r, ang[j], lambda p, b: num(
                    kf(p, f, L)+0j, np.log(L), np.log(b/r)))/r
    o = np.asarray(o)
    if ppd != 0:
        o = o.reshape(-1, off.size)
    d = api.ndiff(o, e)
    # number of common points may differ: interpolation error of M
    tol = 1e-6 if ppd == 0 else 1e-3
    return d > tol, (f'ab {ab} off {off} ppd {ppd}: hankel_dlf {o.ravel()[:4]}'
                     f' filter sum {e.ravel()[:4]} (rel. diff {d:.1e})')


def interp(fn, off, ppd, fac, M, ip, filt, kf, lam, spl):
    import numpy as np
    from scipy.interpolate import InterpolatedUnivariateSpline as iu
    if ppd == 0:
        return np.array([fn(t) for t in off]), 0
    if ppd < 0:
        M = lam.shape[1]-filt.base.size+1
        tm = off.max()*fac**(-np.arange(M, dtype=float))
        y = np.array([fn(q) for q in tm])
        return iu(np.log(tm[::-1]), y[::-1])(np.log(off)), 0
    return np.array([spl(lam[0], t) for t in off]), 0


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C16', 'c16', ['empymod.transform.hankel_dlf',
                               'empymod.transform.dlf',
                               'empymod.transform.get_dlf_points'], dict(
        components='all', standard='3-5 symbolic abscissae and weights, 1-3 '
        'symbolic offsets, 1-2 frequencies, kernels uninterpreted in the '
        'wavenumber', interpolated='3-5 geometric abscissae (concrete), '
        'concrete offsets; kernel values, weights, angle factors and the '
        'linear interpolation operator symbolic'), [
        'Floats as mathematical reals (symbolic weights, kernels); concrete '
        'points are compared to 1e-7.', 'scipy\'s spline is an unknown linear'
        ' operator determined by nodes and evaluation point.'])
    T = chk.add
    for ab in DOC:
        for nf, no, n in ((1, 1, 3), (2, 3, 3), (1, 2, 5)):
            for real in (False, True):
                for same in (True, False):
                    if same and no == 1:
                        continue
                    T(t_std, f'std {ab} {nf}{no}{n}{real}{same}', ab, nf, no,
                      n, real, same)
    offs = [[100.], [100., 150.], [900., 100., 333.], [7., 5000.]]
    for ab in (11, 12, 22, 13, 31, 33, 14, 15, 16, 34, 35, 24, 25, 26):
        for ppd in (-1, 5, 3.5):
            for k, off in enumerate(offs):
                if ppd == -1 and k == 3 and not chk.thorough:
                    continue
                for same in (True, False):
                    if same and len(off) == 1:
                        continue
                    n, fac = ((3, 1.8), (4, 1.5), (5, 2.))[k % 3]
                    if not chk.thorough and ab not in (11, 13, 33, 14, 35) \
                            and k != 2:
                        continue
                    T(t_interp, f'int {ab}{ppd}{k}{same}', ab, 1, off, same, n, fac, ppd, k == 0, False)
                    if not (k == 3):
                        T(t_interp, f'dint {ab}{ppd}{k}{same}', ab, 1, off,
                          same, n, fac, ppd, False, True)
    for kind in ('sin', 'cos'):
        for ppd in (0, -1, 4):
            for ts in ([1.], [1., 3.], [0.5, 8., 2.]):
                for ints in (True, False):
                    T(t_fourier, f'fourier {kind}{ppd}{len(ts)}{ints}', kind,
                      ppd, 4, 1.7, ts, False, ints)
    return chk
