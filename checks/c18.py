"""C18: quadrature with extrapolation."""
import math

from . import api
from .c16 import Spline, parts, val_c, snap, J2
from .c17 import _iff


class Tiny:
    """Stand-in for the smallest float: |x| < tiny exactly if x is
    identically zero; otherwise x != 0 is assumed on this path."""

    def __gt__(self, a):
        from symx import core
        c = core.slift(core.lift(a) == 0)
        if c.op == 'k':
            return c.args[0]
        ex = core.CTX.explorer
        if ex._feasible(ex.pc+[~c]):
            ex.pc = ex.pc+[~c]
            return False
        return True


class FInfo:
    eps = 2.220446049250313e-16
    max = float('inf')
    tiny = smallest_normal = Tiny()


def finfo(dt):
    return FInfo


def table(S, i):
    """Entry of highest even order of the epsilon table of S_0..S_i."""
    cols = [[0]*(len(S)+1), list(S[:i+1])]
    for k in range(i):
        p, q = cols[-2], cols[-1]
        cols.append([p[n+1] + 1/(q[n+1]-q[n]) for n in range(len(q)-1)])
    # order i (even) or i-1 (the last entry)
    return cols[i+1][0] if i % 2 == 0 else cols[i][-1]


def sabs(v):
    """Absolute value; an argument which is identically zero becomes 0."""
    from symx import core, solve
    v = core.lift(v)
    if v.op != 'c' and solve.prove_eq(v, core.const(0))[0]:
        return core.const(0)
    return core.absu(v)


def call(load, rtol, atol, maxint, inp, iv, fn=None):
    from symx import core, npx
    core.CTX.eager_cmp = True
    core.CTX.isclose_mode = 'exact'
    try:
        with load.symbolic(load.transform, pi=False, extra={
                'finfo': finfo, 'abs': lambda x: npx.emap(sabs, x)}):
            return load.transform.qwe(rtol, atol, maxint, inp, iv)
    finally:
        core.CTX.eager_cmp = False


def t_geo(t, rows, maxint):
    """Geometric contributions: exact limit, for every start and ratio."""
    import numpy as np
    from symx import load, solve, core
    from symx.core import var
    from symx.layered import oarr
    E0 = [var(f'E{j}', lo=-3, hi=3) for j in range(rows)]
    c = [var(f'c{j}', lo=0.5+j, hi=3+j) for j in range(rows)]
    r = [var(f'r{j}', lo=-0.9, hi=0.9) for j in range(rows)]
    w = [[var(f'w{j}_{k}', lo=0.5, hi=2) for k in range(maxint)]
         for j in range(rows)]
    rtol, atol = var('rtol', lo=1e-8, hi=1e-3), var('atol', lo=0, hi=1e-9)
    ass = [rtol > 0, atol >= 0]
    for j in range(rows):
        ass += [c[j] != 0, r[j] != 0, r[j] != 1,
                E0[j] + c[j]/(1-r[j]) != 0]
        ass += [v > 0 for v in w[j]]
    iv = np.empty((rows, maxint+1), dtype=object)
    inp = np.empty((rows, maxint), dtype=object)
    for j in range(rows):
        iv[j, 0] = 0
        for k in range(maxint):
            iv[j, k+1] = iv[j, k] + w[j][k]
            v = E0[j] if k == 0 else c[j]*r[j]**(k-1)
            inp[j, k] = v*2/w[j][k]
    from symx.npx import SArr
    iv, inp = iv.view(SArr), inp.view(SArr)
    case = api.kwcase('geo', E0=E0, c=c, r=r, maxint=maxint, rows=rows,
                      rtol=rtol, atol=atol, w=w)
    o = None
    for pc, o in solve.paths(lambda: call(load, rtol, atol, maxint,
                                          inp.copy(), iv), ass):
        pc = ass+list(pc)
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', case, repr(o)[:200], env=e)
            continue
        EM, kc, conv = o
        EM = api.arr(EM)
        if EM.shape != (rows,):
            t.fail('shape', case, env=solve.pc_model(pc))
            continue
        for j in range(rows):
            t.eq('limit', EM[j], E0[j]+c[j]/(1-r[j]), pc, case=case)
        if maxint > 4:
            t.claim('converged', core.slift(bool(conv)), pc, case=case)
        if t.full():
            return
    if o is not None:
        t.twin('twin', EM[0], EM[0]+1, pc)


def t_rows(t, rows, maxint, call_inp, conc=None):
    """Any contributions: every row is the entry of the epsilon table at the
    first step that meets the tolerance (or the last); convergence only if
    every row met it before the last step."""
    import numpy as np
    from symx import load, solve, core
    from symx.core import var
    from symx.npx import SArr
    rtol, atol = var('rtol', lo=1e-3, hi=.5), var('atol', lo=0, hi=1e-3)
    ass = [rtol > 0, atol >= 0]
    X = np.empty((rows, maxint), dtype=object)
    for i in np.ndindex(X.shape):
        X[i] = var(f'x{i[0]}_{i[1]}', lo=-3, hi=3)
    if conc is not None:    # one row is fixed, and meets the limit early
        X[conc, :] = [core.const(v) for v in
                      (1., 1e-5, 5e-6, 3e-6, -4e-6, 1e-6)[:maxint]]
    iv = np.arange(maxint+1.)*2 + np.zeros((rows, 1))
    X = X.view(SArr)
    case = api.kwcase('rows', X=X, rtol=rtol, atol=atol, rows=rows,
                      maxint=maxint, call=call_inp)
    off = np.arange(rows)

    def gk(i, lam, of, an):
        if lam.shape[0] != of.size or of.size != an.size:
            raise ValueError('arguments of the kernel')
        for a, b, q in zip(lam, of, an):
            if tuple(a) != (b,) or q != 10+b:
                raise ValueError('wrong row')
        return X[np.array(of, dtype=int), i].copy()

    def f():
        from symx import npx
        core.CTX.eager_cmp = True
        try:
            with load.symbolic(load.transform, pi=False, extra={
                    'finfo': finfo,
                    'abs': lambda x: npx.emap(core.absu, x)}):
                if call_inp:
                    return load.transform.qwe(
                        rtol, atol, maxint, gk, iv, off[:, None], off, 10+off)
                return load.transform.qwe(rtol, atol, maxint, X.copy(), iv)
        finally:
            core.CTX.eager_cmp = False
    n = 0
    for pc, o in solve.paths(f, ass):
        pc = ass+list(pc)
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', case, repr(o)[:200], env=e)
            continue
        EM, kc, conv = o
        EM = api.arr(EM)
        met_all = []
        for j in range(rows):
            S = [0]
            for k in range(1, maxint):
                S.append(S[-1]+X[j, k])
            e = [None]+[X[j, 0]+table(S, i) for i in range(1, maxint)]
            met = [None, None]+[
                core.absu((e[i]-e[i-1])/e[i]) < rtol+atol/core.absu(e[i])
                for i in range(2, maxint)]
            # first step that is met, according to this path
            val = e[-1]
            done = False
            for i in range(2, maxint):
                c = core.slift(met[i])
                yes = all(core.beval(c, s) for s in solve._pc_samples(pc))
                if not solve._pc_samples(pc):
                    yes = solve.prove(c, pc)[0] == 'unsat'
                if yes:
                    t.claim(f'first{i}', c, pc, case=case)
                    val, done = e[i], i < maxint-1
                    break
                t.claim(f'not{i}', ~c, pc, case=case)
            met_all.append(done)
            if EM.shape == (rows,):
                t.eq('entry', EM[j], val, pc, case=case)
            else:
                t.fail('shape', case, env=solve.pc_model(pc))
            if t.full():
                return
        if bool(conv):
            t.claim('converged', core.slift(all(met_all)), pc, case=case)
        elif all(met_all):
            t.fail('not converged', case, env=solve.pc_model(pc))
        else:
            t.passed('conv')
    if n:
        t.twin('twin', EM[0], EM[0]+1, pc)


def _rows_oracle(X, rtol, atol):
    import numpy as np
    rows, maxint = X.shape
    out, ok = [], True
    for j in range(rows):
        S = np.r_[0, np.cumsum(X[j, 1:])]
        e = [None]+[X[j, 0]+table(list(S), i) for i in range(1, maxint)]
        v, done = e[-1], False
        for i in range(2, maxint):
            if abs(e[i]-e[i-1])/abs(e[i]) < rtol+atol/abs(e[i]):
                v, done = e[i], i < maxint-1
                break
        out.append(v)
        ok = ok and done
    return np.array(out), ok


def replay_rows(c):
    import numpy as np
    from empymod import transform
    X = np.array(c['X']).reshape(c['rows'], c['maxint'])
    mi, rows = c['maxint'], c['rows']
    iv = np.arange(mi+1.)*2 + np.zeros((rows, 1))
    off = np.arange(rows)
    bad = []
    rng = np.random.default_rng(1)
    alts = [X]+[rng.uniform(-1, 3, X.shape)*rng.choice([1, .1, .01])
                ** np.arange(mi) for _ in range(20)]
    for Y in alts:
        for rt, at in ((c['rtol'], c['atol']), (1e-1, 0), (1e-3, 1e-2)):
            try:
                if c['call']:
                    o, k, cv = transform.qwe(
                        rt, at, mi, lambda i, lam, of, an: Y[of, i].copy(),
                        iv, off[:, None], off, 10+off)
                else:
                    o, k, cv = transform.qwe(rt, at, mi, Y.copy(), iv)
            except Exception as e:
                return True, f'qwe raises {e!r}'
            e, ok = _rows_oracle(Y, rt, at)
            if not np.all(np.isfinite(e)):
                continue
            if not np.allclose(o, e, rtol=1e-6, atol=1e-9):
                bad.append(f'{o} expected {e}')
            if bool(cv) and not ok:
                bad.append('convergence claimed')
            if not bool(cv) and ok:
                bad.append('convergence denied')
    return bool(bad), f'qwe rows {rows} maxint {mi}: {bad[:2]}'


def replay_geo(c):
    import numpy as np
    from empymod import transform
    rows, mi = c['rows'], c['maxint']
    E0, cc, r = (np.array(c[k]) for k in ('E0', 'c', 'r'))
    iv = np.c_[np.zeros(rows), np.cumsum(np.array(c['w']).reshape(rows, -1),
                                         1)]
    X = np.c_[E0, cc[:, None]*r[:, None]**np.arange(mi-1)]
    try:
        o, k, cv = transform.qwe(max(c['rtol'], 1e-10), c['atol'], mi,
                                 X*2/np.diff(iv, axis=1), iv)
    except Exception as e:
        return True, f'qwe raises {e!r}'
    e = E0+cc/(1-r)
    bad = not np.allclose(o, e, rtol=1e-6) or (mi > 4 and not cv)
    return bad, f'qwe of geometric contributions: {o} (conv {cv}), exact {e}'


# -- hankel_qwe --------------------------------------------------------------

def bzeros(maxint):
    import scipy.special as ss
    return ss.jn_zeros(1, maxint)


def nodes(maxint, nquad):
    import numpy as np
    import scipy.special as ss
    x = np.r_[1e-20, bzeros(maxint)]
    g, w = ss.roots_legendre(nquad)
    b = x[:-1, None]+np.diff(x)[:, None]/2*(g+1)
    return x, b, w


def isum(ab, off, ang, m, b, w, K):
    """Sum of the nodes of interval m, without the interval length."""
    import scipy.special as ss
    use = parts(ab)
    s = 0
    if use[1]:
        s = sum(K(1, b[m, k]/off)*float(ss.j1(b[m, k])*w[k])
                for k in range(w.size))
        s = s/off if ab in J2 else s
    if use[2]:
        s = s + sum(K(2, b[m, k]/off)*float(ss.j0(b[m, k])*w[k])
                    for k in range(w.size))
    s = s*ang if use[1] or use[2] else 0
    if use[0]:
        s = s + sum(K(0, b[m, k]/off)*float(ss.j0(b[m, k])*w[k])
                    for k in range(w.size))
    return s


def t_hqwe(t, ab, off, maxint, nquad, ppd, real, opts, dq=3, mode='all'):
    import numpy as np
    from symx import load, solve, core, npx
    from symx.core import var, CSym
    from symx.npx import SArr
    from symx.layered import oarr
    off = np.array(off)
    no = off.size
    ang = [var(f'ang{i}', lo=-1, hi=1) for i in range(no)]
    htarg = dict(rtol=1e-7, atol=1e-18, nquad=nquad, maxint=maxint,
                 pts_per_dec=ppd, diff_quad=dq, a=None, b=None, limit=None)
    htarg.update(opts)
    qbad = [var(f'qbad{i}') > 0 for i in range(no)]
    cq = var('qweconv') > 0
    case = api.kwcase('hqwe', ab=ab, off=off, maxint=maxint, nquad=nquad,
                      ppd=ppd, real=real, opts=opts, ang=ang, dq=dq)
    x, b, w = nodes(maxint, nquad)
    grid = []

    def W(zsrc, zrec, lsrc, lrec, depth, etaH, etaV, zetaH, zetaV, lambd, ab_,
          xdirect, msrc, mrec):
        lam = np.asarray(lambd, dtype=float)
        if lam.ndim != 2 or np.shape(etaH) != (1, 1) or int(ab_) != ab:
            raise ValueError('wavenumber arguments')
        grid.append(lam)
        out = []
        for p in range(3):
            if not parts(ab)[p]:
                out.append(None)
                continue
            o = np.empty((1,)+lam.shape, dtype=object)
            for i in np.ndindex(o.shape):
                o[i] = val_c(p, 0, lam[i[1:]], real)
            out.append(o.view(SArr))
        return tuple(out)

    def lin(row, i):
        return sum(var(f'q{i}_{k}', lo=-2, hi=2)*v for k, v in enumerate(row))

    def qwe(rtol, atol, mi, inp, intervals, lambd=None, of=None, an=None):
        iv = np.asarray(intervals, dtype=float)
        if (rtol, atol, mi) != (1e-7, 1e-18, maxint):
            raise ValueError('qwe arguments')
        if callable(inp):
            sel = np.arange(no)[::-1]       # any subset, any order
            o = np.empty((no, maxint), dtype=object)
            for m in range(maxint):
                if m:
                    sel = np.array([no-1, 0])[:min(2, no)]
                v = api.arr(inp(m, lambd[sel, :], of[sel], an[sel]))
                if m:
                    o[sel, m] = v
                    left = [k for k in range(no) if k not in sel]
                    if left:
                        o[left, m] = api.arr(inp(
                            m, lambd[left, :], of[left], an[left]))
                else:
                    o[sel, m] = v
            inp = o
        inp = np.asarray(inp, dtype=object)
        if inp.shape != (iv.shape[0], maxint) or \
                iv.shape[1] != maxint+1:
            raise ValueError('qwe arguments')
        out = np.empty(iv.shape[0], dtype=object)
        for k in range(out.size):
            i = int(np.argmin(abs(off*iv[k, -1]-x[-1])))
            if not np.allclose(iv[k]*off[i], x, rtol=1e-9):
                raise ValueError('intervals')
            out[k] = lin(inp[k], i)
        return out.view(SArr), 1, cq

    def quad(sr0, si0, sr1, si1, srb, sib, ab_, of, an, iinp):
        i = int(np.argmin(abs(off-float(of))))
        use = parts(ab)
        got = [sr0 is not None, sr1 is not None, srb is not None]
        if got != list(use) or int(ab_) != ab:
            raise ValueError('quad arguments')
        a = opts.get('a', x[0]/off[i])
        bb = opts.get('b', x[-1]/off[i])
        if abs(iinp['a']/a-1) > 1e-9 or abs(iinp['b']/bb-1) > 1e-9 or \
                iinp['epsabs'] != 1e-18 or iinp['epsrel'] != 1e-7 or \
                iinp['limit'] != opts.get('limit', maxint):
            raise ValueError('quad arguments')
        v = core.const(0)
        # the splines it was given, evaluated somewhere
        for p, (r, m) in enumerate(((sr0, si0), (sr1, si1), (srb, sib))):
            if use[p]:
                v = v + CSym.of(r(np.log(.5))[()])*var(f'Q{p}r') + \
                    CSym.of(m(np.log(.5))[()])*CSym(
                        core.const(0), var(f'Q{p}i'))
        return v*an + i+1, ~qbad[i]

    def mag(v):  # noqa
        if isinstance(v, (int, float, complex)):
            return abs(v)
        v = CSym.of(v)
        return core.cuf('mod', v.re, v.im)
    one = np.array([[1.+0j]])

    def fn():
        grid.clear()
        with load.symbolic(load.transform, pi=False, extra={
                'abs': lambda v: npx.emap(mag, v) if npx.isobj(v)
                else np.abs(v)}, attrs=[
                (load.transform, 'iuSpline', Spline.make),
                (load.transform, 'qwe', qwe), (load.transform, 'quad', quad),
                (load.kernel, 'wavenumber', W)]):
            return load.transform.hankel_qwe(
                1., 2., 0, 0, off, oarr(ang), np.array([0.]), ab, one, one,
                one, one, False, htarg, False, False)
    n = 0
    for pc, o in solve.paths(fn):
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', case, repr(o)[:200], env=e)
            continue
        n += 1
        fEM, kc, conv = o
        fEM = api.arr(fEM)
        if fEM.shape != (no,):
            t.fail(f'shape {fEM.shape}', case, env=solve.pc_model(pc))
            continue
        lam = grid[0][0]
        xs = np.log(lam)

        def sp(p, q):
            return sum(Spline.coef(xs, k, q)*val_c(p, 0, lam[k], real)
                       for k in range(lam.size))
        if ppd:
            if np.any(abs(np.diff(np.log10(lam))*ppd-1) > .5) or \
                    lam[0] > b[0, 0]/off.max()*(1+1e-9) or \
                    lam[-1] < b[-1, -1]/off.min()*(1-1e-9):
                t.fail('common points do not cover the range', case,
                       env=solve.pc_model(pc))
                return

            def K(p, q):
                return sp(p, np.log(q))
        else:
            def K(p, q):
                return val_c(p, 0, q, real)
        nq = []
        steep = []
        for i in range(no if ppd else 0):
            v = [[sum(sp(p, q) for p in range(3) if parts(ab)[p])
                  for q in np.log(x[m:m+2]/off[i])] for m in range(maxint)]
            steep.append(core.sor(*[
                ~core.slift(mag(a)/mag(c) < htarg['diff_quad'])
                for a, c in v]))
        for i in range(no):
            from .c17 import _vars
            c = CSym.of(fEM[i])
            nm = _vars(c.re) | _vars(c.im)
            if any(v.startswith('Q') for v in nm):
                nq.append(i)
                v = core.const(0)
                for p in range(3):
                    if parts(ab)[p]:
                        s = CSym.of(sp(p, np.log(.5)))
                        v = v + s.re*var(f'Q{p}r') + CSym(
                            core.const(0), var(f'Q{p}i'))*s.im
                e = v*ang[i]+i+1
                t.claim('quad only if steep', steep[i], pc, case=case)
            else:
                if ppd:
                    t.claim('qwe only if not steep', ~steep[i], pc, case=case)
                e = lin([isum(ab, off[i], ang[i], m, b, w, K)
                         for m in range(maxint)], i)
            t.eq('hankel_qwe', fEM[i], e, pc, case=case, tol=(0, 1e-9))
        want = core.sand(*([~qbad[i] for i in nq] +
                           ([cq] if len(nq) < no else [])))
        t.claim('converged', _iff(conv, want), pc, case=case)
        if t.full():
            return
    if n:
        t.twin('twin', CSym.of(fEM[0]).re, CSym.of(fEM[0]).re+1, pc)


def replay_hqwe(c):
    """Real routine, smooth kernels, spies for qwe and quad."""
    import numpy as np
    from empymod import transform, kernel
    ab, off, mi, nq = c['ab'], np.array(c['off']), c['maxint'], c['nquad']
    ang = np.array(c['ang'], dtype=float)
    no, opts, ppd = off.size, c['opts'], c['ppd']
    x, b, w = nodes(mi, nq)
    use = parts(ab)
    bad = []

    def kf(p, lam):
        r = np.exp(-lam*off.min()*(1+p)/9)+0.3*p
        return r + (0 if c['real'] else
                    1j*np.exp(-lam*off.min()*(.4+p)/9)*(1+p))

    def W(*a):
        lam = a[9]
        return tuple(np.array([kf(p, lam)+0j]) if use[p] else None
                     for p in range(3))
    rng = np.random.default_rng(3)
    cw = rng.standard_normal(mi)
    saved = kernel.wavenumber, transform.qwe, transform.quad
    one = np.array([[1.+0j]])
    from scipy.interpolate import InterpolatedUnivariateSpline as IUS
    grids = []

    def spl(g, y, *a, **k):
        grids.append(np.array(g))
        return IUS(g, y, *a, **k)
    saved_s = transform.iuSpline
    seen = set()
    iv = x/off[:, None]
    todo = [c['dq'], 1e-10, 1e10]
    for dq in todo:
        for qb, cq in [(-1, True), (-1, False)] + [(q, True)
                                                   for q in range(no)]:
            usedq = []
            grids.clear()
            if (qb, cq) != (-1, True) and key in seen:
                break

            def qwe(rt, at, m, inp, iv, lam=None, of=None, an=None):
                if callable(inp):
                    o = np.array([np.array([inp(m, lam[[k], :], of[[k]],
                                                an[[k]])[0] for m in
                                            range(mi)])
                                  for k in range(of.size)])
                    full = np.array([inp(m, lam, of, an) for m in range(mi)])
                    if not np.allclose(o, full.T):
                        bad.append('offsets influence each other')
                    inp = o
                return inp @ cw + iv[:, -1], 1, cq

            def quad(a0, a1, b0, b1, c0, c1, ab_, of, an, ii):
                i = int(np.argmin(abs(off-of)))
                usedq.append(i)
                A = opts.get('a', x[0]/off[i])
                B = opts.get('b', x[-1]/off[i])
                if not np.allclose([ii['a'], ii['b']], [A, B]) or \
                        ii['limit'] != opts.get('limit', mi):
                    bad.append(f'quad arguments {ii}')
                return 5.+i+an, i != qb
            kernel.wavenumber, transform.qwe, transform.quad = W, qwe, quad
            transform.iuSpline = spl
            ht = dict(rtol=1e-7, atol=1e-18, nquad=nq, maxint=mi,
                      pts_per_dec=ppd and max(ppd, 40), diff_quad=dq, a=None,
                      b=None, limit=None)
            ht.update(opts)
            try:
                o, k, cv = transform.hankel_qwe(
                    1., 2., 0, 0, off, ang, np.array([0.]), ab, one, one, one,
                    one, False, ht, False, False)
            except Exception as e:
                return True, f'hankel_qwe raises {e!r}'
            finally:
                kernel.wavenumber, transform.qwe, transform.quad = saved
                transform.iuSpline = saved_s
            key = tuple(usedq)
            if ppd:
                tot = [0, 0]
                for p in range(3):
                    if use[p]:
                        y = kf(p, np.exp(grids[0]))+0j
                        f, g = IUS(grids[0], y.real), IUS(grids[0], y.imag)
                        for j, q in enumerate((iv[:, :-1], iv[:, 1:])):
                            tot[j] = tot[j] + f(np.log(q)) + 1j*g(np.log(q))
                rat = (abs(tot[0])/abs(tot[1])).max(1)
                if len(todo) == 3:      # limits between the offsets
                    lst = sorted(rat)
                    todo += [(u+v)/2 for u, v in zip(lst[:-1], lst[1:])] + \
                        list((abs(tot[0])/abs(tot[1])).min(1)*1.001)
                for i in range(no):
                    if abs(rat[i]/dq-1) > 1e-3 and \
                            (rat[i] < dq) == (i in usedq):
                        bad.append(f'quad used for {usedq}, ratios {rat}, '
                                   f'limit {dq}')
            for i in range(no):
                if i in usedq:
                    e = 5+i+ang[i]
                else:
                    e = sum(cw[m]*isum(ab, off[i], ang[i], m, b, w, kf)
                            for m in range(mi)) + x[-1]/off[i]
                if abs(o[i]-e) > 1e-3*abs(e):
                    bad.append(f'offset {off[i]}: {o[i]} expected {e}')
            want = not (qb in usedq) and (cq or len(usedq) == no)
            if bool(cv) != want:
                bad.append(f'conv {cv} instead of {want}')
        seen.add(key)
    return bool(bad), f'hankel_qwe ab {ab} off {off} ppd {ppd}: {bad[:3]}'


def replay(c):
    return globals()['replay_'+c['kind']](c)


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C18', 'c18', ['empymod.transform.qwe',
                               'empymod.transform.hankel_qwe'], dict(
        geometric='1-3 rows, 3-5 intervals; first value, scale, ratio, '
        'interval lengths and tolerances symbolic; scale and 1-ratio not zero',
        general='1-2 rows, 3-4 intervals, contributions and tolerances '
        'symbolic (4 with 2 rows: one of them fixed)', hankel_qwe='1-3 offsets, 2-3 intervals x 2-3 nodes, all '
        'components; kernel values, angle factors symbolic; free choice '
        'between qwe and quad'), [
        'Floats as mathematical reals; the test for a vanishing difference '
        '(|x| < smallest float) is exact.', 'Bessel functions and Gauss nodes '
        'are concrete (compared to 1e-9 of the largest coefficient); spline '
        'is an unknown linear operator.'])
    T = chk.add
    for rows in (1, 2, 3):
        for mi in (3, 4, 5) + ((6, 7) if chk.thorough else ()):
            if rows == 3 and mi > 4 and not chk.thorough:
                continue
            T(t_geo, f'geo {rows}{mi}', rows, mi)
    for rows, mi in ((1, 3), (1, 4), (1, 5), (2, 3)) + (
            ((2, 4), (1, 6)) if chk.thorough else ()):
        for ca in (False, True):
            T(t_rows, f'rows {rows}{mi}{ca}', rows, mi, ca)
    for mi in (4, 5) if chk.thorough else (4,):
        for ca in (False, True):
            for k in (0, 1):
                T(t_rows, f'mixed rows {mi}{ca}{k}', 2, mi, ca, k)
    abs_ = (11, 12, 21, 22, 13, 31, 23, 33, 14, 15, 24, 25, 16, 26, 34, 35,
            32)
    for ab in abs_:
        for off, mi, nq in (([100.], 2, 3), ([100., 333.], 2, 3),
                            ([500., 70., 333.], 3, 2)):
            for ppd in (0, 3):
                for opts in ({}, dict(a=1e-3, b=2., limit=7)):
                    if not ppd and opts:
                        continue
                    if len(off) == 3 and ppd and ab not in (11, 13, 33, 15):
                        continue
                    T(t_hqwe, f'hqwe {ab}{len(off)}{ppd}{len(opts)}', ab, off,
                      mi, nq, ppd, False, opts)
    return chk
