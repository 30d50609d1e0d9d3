"""C32: the quadrature transforms are the documented integrals, and report
non-convergence."""
from . import api
from .c16 import ALL, J2, parts, Spline, val_c

KNOWN = 'conv_imag'       # case kind of the recorded finding


def integral(f, args, key):
    """int f: linear; an unknown functional of what depends on the
    integration variable."""
    from symx import core
    from symx.core import var, vars_of
    L = var('L', lo=0.1, hi=3)
    g = core.CSym.of(f(L, *args))
    if not g.im.is_const(0):
        raise ValueError('complex integrand')
    out = core.const(0)
    for m, k in core.expand_monos(core.lift(g.re)).items():
        ins, fac = core.const(1), core.const(k)
        for b, e in m:
            p = core.ipow(b, e)
            if L in vars_of(b) or any(
                    L in vars_of(a) for v in vars_of(b) if v.op == 'f'
                    for a in v.args[1:]):
                ins = ins*p
            else:
                fac = fac*p
        out = out + fac*core.cuf('INT', ins, *key)
    return out


class Quad:
    """scipy.integrate.quad with symbolic outcome."""

    def __init__(self, bad=None):
        self.bad = bad            # callable(call number) -> SBool or None
        self.n = 0
        self.flag = []

    def __call__(self, func, a, b, args=(), full_output=0, epsabs=1.49e-8,
                 epsrel=1.49e-8, limit=50, **kw):
        if kw:
            raise ValueError(f'quad arguments {kw}')
        if not isinstance(args, tuple):
            args = (args,)
        v = integral(func, args, (a, b, epsabs, epsrel, limit))
        bad = self.bad(self.n) if self.bad else False
        self.n += 1
        if bad:                   # forks
            self.flag.append(self.n-1)
        if not full_output:
            return v, 0.
        return (v, 0., {}) + (('message',) if bad else ())


def sp_attrs(load, q):
    from symx import core, npx
    s = load.transform.sp.special

    def bessel(nm, real):
        def f(x):
            if npx.isobj(x):
                return npx.emap(lambda v: core.uf(nm, v), x)
            return real(x)
        return f

    def jv(n, x):
        return bessel(f'J{int(n)}', lambda y: real_jv(n, y))(x)
    real_jv = s.jv
    return [(load.transform.sp.integrate, 'quad', q),
            (s, 'j0', bessel('J0', s.j0)), (s, 'j1', bessel('J1', s.j1)),
            (s, 'jv', jv), (s, 'jn', jv)]


def carray(x, *a, **k):
    """np.array; complex numbers become object arrays (accumulators)."""
    import numpy as np
    from symx import npx
    o = npx._array(x, *a, **k)
    if not npx.isobj(o) and np.iscomplexobj(o):
        o = np.asarray(o).astype(object).view(npx.SArr)
    return o


def expected(ab, use, off, ang, P, key):
    """Documented sum of integrals; P(part, 'r'/'i', log lambda)."""
    from symx import core
    out = []
    for q in 'ri':
        s = core.const(0)
        for p, bess in ((0, 'J0'), (1, 'J1'), (2, 'J0')):
            if not use[p]:
                continue
            v = integral(lambda x: P(p, q, core.log(x)) *
                         core.uf(bess, off*x), (), key)
            if p:
                v = v*ang
            if p == 1 and ab in J2:
                v = v/off
            s = s + v
        out.append(s)
    return out


def t_quad(t, ab, use):
    """Value of one quad call."""
    from symx import load, solve, core
    from symx.core import var
    off = var('off', lo=2, hi=9)
    ang = var('ang', lo=-1, hi=1)
    a, b = var('a', lo=0.01, hi=0.05), var('b', lo=1, hi=3)
    tol = var('atol', lo=1e-20, hi=1e-19), var('rtol', lo=1e-9, hi=1e-8)
    case = api.kwcase('quad', ab=ab, use=list(use), off=off, ang=ang, a=a,
                      b=b)

    def P(p, q, z):
        return core.uf(f'spline{p}{q}', z)
    s = [(lambda z, p=p, q=q: P(p, q, z)) if use[p] else None
         for p in range(3) for q in 'ri']
    iinp = dict(a=a, b=b, epsabs=tol[0], epsrel=tol[1], limit=77)
    q = Quad()

    def fn():
        with load.symbolic(load.transform, pi=False,
                           extra={'array': carray}, attrs=sp_attrs(load, q)):
            return load.transform.quad(*s, ab, off, ang, dict(iinp))
    r, conv = solve.single(fn)
    e = expected(ab, use, off, ang, P, (a, b, *tol, 77))
    c = core.CSym.of(api._sc(r))
    t.eq('real part', c.re, e[0], case=case)
    t.eq('imaginary part', c.im, e[1], case=case)
    t.claim('converged', bool(conv), case=case)
    if any(use):
        t.twin('twin', c.re, e[0]+1)


def sid(x):
    """Number of the spline basis of these nodes."""
    import numpy as np
    return Spline.ids.setdefault(tuple(np.round(x, 9)), len(Spline.ids))


def conv_claims(t, name, pc, conv, flag, roles, case):
    """flag: calls with a problem; roles: real/imag of each call."""
    from symx import core
    if flag and all(roles[k] == 'i' for k in flag):
        if any(x['case']['kind'] == KNOWN for x in t.cex):
            return              # one is enough (other failures still count)
        c = dict(case, kind=KNOWN, flag=flag)
        t.claim(name+': imaginary part', core.slift(not conv), pc,
                case=lambda e, c=c: dict(c))
    else:
        c = dict(case, flag=flag)
        t.claim(name, core.slift(bool(conv) == (not flag)), pc,
                case=lambda e, c=c: dict(c))


def t_conv(t, ab, use):
    """Convergence flag of quad for every combination of reports."""
    from symx import load, solve, core
    from symx.core import var

    def P(p, q, z):
        return core.uf(f'spline{p}{q}', z)
    s = [(lambda z, p=p, q=q: P(p, q, z)) if use[p] else None
         for p in range(3) for q in 'ri']
    bad = [var(f'bad{k}') > 0 for k in range(6)]

    def fn():
        q = Quad(lambda k: bad[k])
        roles.clear()
        # which part does a call integrate: probe it

        def spy(func, a, b, args=(), **kw):
            from symx.core import vars_of
            g = func(var('L'), *(args if isinstance(args, tuple)
                                 else (args,)))
            nm = {v.args[0] for v in vars_of(core.lift(g)) if v.op == 'f'}
            nm = [v for v in nm if v.startswith('spline')]
            roles.append((int(nm[0][6]), nm[0][7]))
            return q(func, a, b, args, **kw)
        with load.symbolic(load.transform, pi=False,
                           extra={'array': carray},
                           attrs=sp_attrs(load, spy)):
            r, conv = load.transform.quad(
                *s, ab, var('off', lo=2, hi=9), var('ang'),
                dict(a=0.01, b=1., epsabs=1e-20, epsrel=1e-8, limit=77))
            return conv, list(q.flag), list(roles)
    roles = []
    n = 0
    for pc, o in solve.paths(fn):
        if isinstance(o, Exception):
            t.fail('raises', dict(kind='conv', ab=ab, use=list(use)),
                   repr(o)[:200])
            continue
        n += 1
        conv, flag, role = o
        conv_claims(t, 'convergence reported', pc, bool(conv), flag,
                    [r[1] for r in role],
                    dict(kind='conv', ab=ab, use=list(use),
                         bad=[[*role[k]] for k in flag]))
        if t.full():
            return
    if n < 2**(2*sum(use)):
        t.errors.append(f'{n} paths')


def t_hquad(t, ab, no, ppd, flags):
    """hankel_quad: kernels, nodes, offsets; flags: symbolic reports."""
    import numpy as np
    from symx import load, solve, core, npx
    from symx.core import var, CSym
    from symx.npx import SArr
    from symx.layered import oarr
    off = [var(f'off{i}', lo=5+10*i, hi=10+10*i) for i in range(no)]
    ang = [var(f'ang{i}', lo=-1, hi=1) for i in range(no)]
    a, b = 1e-2, 1e1
    htarg = dict(rtol=1e-7, atol=1e-18, limit=55, a=a, b=b, pts_per_dec=ppd)
    case = dict(ab=ab, ppd=ppd, a=a, b=b)
    vcase = api.kwcase('hquad', off=off, ang=ang, **case)
    npar = sum(parts(ab))
    bad = [var(f'bad{k}') > 0 for k in range(2*npar*no)]
    grid = []

    def W(zsrc, zrec, lsrc, lrec, depth, etaH, etaV, zetaH, zetaV, lambd, ab_,
          xdirect, msrc, mrec):
        lam = np.asarray(lambd, dtype=float)
        if lam.ndim != 2 or np.shape(etaH) != (1, 1) or int(ab_) != ab or \
                (zsrc, zrec, lsrc, lrec) != (1., 2., 0, 0) or \
                (bool(xdirect), bool(msrc), bool(mrec)) != (
                    False, True, False):
            raise ValueError('wavenumber arguments')
        grid.append(lam)
        out = []
        for p in range(3):
            if not parts(ab)[p]:
                out.append(None)
                continue
            o = np.empty((1,)+lam.shape, dtype=object)
            for i in np.ndindex(o.shape):
                o[i] = val_c(p, 0, lam[i[1:]], False)
            out.append(o.view(SArr))
        return tuple(out)

    class Spl:
        """Linear in the data; symbolic evaluation point."""
        @staticmethod
        def make(x, y, *a, **k):
            x = np.asarray(x, dtype=float).ravel()
            y = np.asarray(y, dtype=object).ravel()
            if x.shape != y.shape or x.size < 4 or np.any(np.diff(x) <= 0):
                raise ValueError('x must be strictly increasing')
            return lambda z: npx.emap(lambda q: sum(
                core.uf(f'B{sid(x)}_{k}', q)*y[k]
                for k in range(x.size)), z)
    one = np.array([[1.+0j]])
    q = [None]

    def fn():
        grid.clear()
        q[0] = Quad((lambda k: bad[k]) if flags else None)
        with load.symbolic(load.transform, pi=False,
                           extra={'array': carray}, attrs=[
                (load.transform, 'iuSpline', Spl.make),
                (load.kernel, 'wavenumber', W)] + sp_attrs(load, q[0])):
            r = load.transform.hankel_quad(
                1., 2., 0, 0, oarr(off), oarr(ang), np.array([0.]), ab, one,
                one, one, one, False, dict(htarg), True, False)
        return r, list(q[0].flag), q[0].n
    n = 0
    for pc, o in solve.paths(fn):
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', vcase, repr(o)[:200], env=e)
            continue
        n += 1
        (fEM, kc, conv), flag, calls = o
        fEM = api.arr(fEM)
        if fEM.shape != (no,):
            t.fail(f'shape {fEM.shape}', vcase, env={})
            continue
        if flags:
            if calls != 2*npar*no:
                t.errors.append(f'{calls} integrals')
                return
            conv_claims(t, 'convergence reported', pc, bool(conv), flag,
                        ['ri'[k % 2] for k in range(calls)],
                        dict(case, kind='hconv', no=no, bad=[
                            [k//(2*npar), [p for p in range(3)
                                           if parts(ab)[p]][k//2 % npar],
                             'ri'[k % 2]] for k in flag]))
            if t.full():
                return
            continue
        lam = grid[0][0]
        nd = 3*ppd+1
        if lam.size != nd or abs(lam[0]/a-1) > 1e-9 or \
                abs(lam[-1]/b-1) > 1e-9 or \
                np.any(abs(np.diff(np.log10(lam))*ppd-1) > 1e-6):
            t.fail('kernel points', vcase, f'{lam[0]} {lam[-1]} {lam.size}',
                   env=solve.pc_model(pc))
            return
        x = np.log(lam)

        def P(p, r, z):
            i = sid(x)
            return sum(core.uf(f'B{i}_{k}', z)*getattr(
                val_c(p, 0, lam[k], False), {'r': 're', 'i': 'im'}[r])
                for k in range(lam.size))
        for i in range(no):
            e = expected(ab, parts(ab), off[i], ang[i], P,
                         (a, b, 1e-18, 1e-7, 55))
            c = CSym.of(fEM[i])
            t.eq(f're {i}', c.re, e[0], pc, case=vcase)
            t.eq(f'im {i}', c.im, e[1], pc, case=vcase)
        t.claim('converged', bool(conv), pc, case=vcase)
    if not n:
        t.errors.append('no path')
    elif not flags:
        t.twin('twin', c.re, e[0]+1, pc)


# -- reports reach the user --------------------------------------------------

def t_warn(t, fn, ht, batch, loop, extra, verb):
    """The warning is printed if any transform call did not converge."""
    import io
    import contextlib
    from symx import load, solve, core
    from symx.core import var
    ns, nr, nf = batch
    kw = dict(depth=[0, 100], res=[2e14, .3, 1], freqtime=[1., 2.][:nf],
              ht=ht, loop=loop, **extra)
    xs = [-10., -20.][:ns]
    xr = [100., 130.][:nr]
    if fn == 'bipole':
        kw['src'] = [xs, [0.]*ns, [10., 20][:ns], 20, 10]
        kw['rec'] = [xr, [5.]*nr, [40., 50][:nr], 30, 50]
    else:
        kw['src'], kw['rec'] = [xs, [0.]*ns, 10], [xr, [5.]*nr, 40]
    state = dict(n=0)

    def one():
        state['n'] = 0
        flags = []

        def conv(kind, q):
            k = state['n']
            state['n'] += 1
            b = bool(var(f'ok{k}') > 0) if k < 5 else True
            flags.append(b)
            return b
        S = api.Stubs(conv=conv)
        buf = io.StringIO()
        with api.env(S), contextlib.redirect_stdout(buf):
            getattr(load.model, fn)(verb=verb, **kw)
        return flags, 'did not converge' in buf.getvalue()
    n = 0
    for pc, o in solve.paths(one):
        if isinstance(o, Exception):
            t.fail('raises', dict(kind='warn', fn=fn, verb=verb, kw=kw,
                                  flags=[]), repr(o)[:200])
            continue
        n += 1
        flags, warned = o
        want = verb > 0 and not all(flags)
        t.claim('warning', core.slift(warned == want), pc, case=dict(
            kind='warn', fn=fn, verb=verb, kw=kw, flags=flags))
        if t.full():
            return
    if n < 2:
        t.errors.append(f'{n} paths')


# -- replay ------------------------------------------------------------------

def easy(z):
    import numpy as np
    return np.exp(-np.exp(z))*np.exp(z)


def hard(z):
    """No quadrature converges on this with few subdivisions."""
    import numpy as np
    return np.sin(1e5*np.exp(3*z))*np.exp(2*z)


def direct(f, a, b):
    """Independent fine quadrature in log space."""
    import numpy as np
    x, w = np.polynomial.legendre.leggauss(4000)
    la, lb = np.log(a), np.log(b)
    z = la+(lb-la)*(x+1)/2
    return float(np.sum(w*f(np.exp(z))*np.exp(z))*(lb-la)/2)


def replay(c):
    import contextlib
    import io
    import numpy as np
    import scipy.special as ss
    import empymod
    T = empymod.transform
    if c['kind'] == 'warn':
        flags, n = c['flags'], [0]
        real = getattr(T, 'hankel_'+c['kw']['ht'])

        def spy(*a, **k):
            o = real(*a, **k)
            i = n[0]
            n[0] += 1
            return o[0], o[1], flags[i] if i < len(flags) else True
        setattr(T, 'hankel_'+c['kw']['ht'], spy)
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                getattr(empymod, c['fn'])(verb=c['verb'], **c['kw'])
        finally:
            setattr(T, 'hankel_'+c['kw']['ht'], real)
        w = 'did not converge' in buf.getvalue()
        want = c['verb'] > 0 and not all(flags)
        return w != want, (f"{c['fn']}: transform calls converged: {flags}, "
                           f'warning printed: {w}')
    if c['kind'] in ('quad', 'conv') or (
            c['kind'] == KNOWN and 'no' not in c):
        bad = [tuple(v) for v in c.get('bad', [])]
        lim = 4 if bad else 500
        w = {(p, q): 1+.3*p+(.1 if q == 'i' else 0) for p in range(3)
             for q in 'ri'}
        s = []
        for p in range(3):
            for q in 'ri':
                f = hard if (p, q) in bad else (
                    lambda z, k=w[p, q]: easy(z)*k)
                s.append(f if c['use'][p] else None)
        off, ang = c.get('off', .1), c.get('ang', 0.7)
        a, b = c.get('a', .01), c.get('b', 2.)
        o, conv = T.quad(*s, c['ab'], off, ang, dict(
            a=a, b=b, epsabs=1e-14, epsrel=1e-6, limit=lim))
        if 'bad' in c:
            return bool(conv) != (not bad), (
                f"quad: integrations without convergence {bad}, returned "
                f'conv={conv}')
        e = 0
        for p, J in ((0, ss.j0), (1, ss.j1), (2, ss.j0)):
            if c['use'][p]:
                v = sum((1, 1j)[k]*direct(lambda x: w[p, q]*easy(
                    np.log(x))*J(off*x), a, b) for k, q in enumerate('ri'))
                v = v*ang if p else v
                e += v/off if p == 1 and c['ab'] in J2 else v
        d = max(abs((o-e).real), abs((o-e).imag))/(abs(e)+1e-300)
        return not (d < 1e-5 and conv), (
            f"quad ab {c['ab']}: {o} ({conv}), expected {e}")
    # hankel_quad
    ab = c['ab']
    off = np.array(c.get('off', [5.+10*i for i in range(c.get('no', 1))]))
    ang = np.array(c.get('ang', np.linspace(.3, .7, off.size)))
    bad = [tuple(v) for v in c.get('bad', [])]
    use = parts(ab)
    one = np.ones((1, 1), dtype=complex)
    real_w, real_q = empymod.kernel.wavenumber, T.sp.integrate.quad
    got = []

    def W(*a):
        lam = np.asarray(a[9])
        got.append(lam)
        return tuple((easy(np.log(lam))*(1+p+1j*(.5+p)))[None] if use[p]
                     else None for p in range(3))
    n = [0]
    npar = sum(use)
    lim = dict(epsabs=1e-14, epsrel=1e-8, limit=500, a=c['a'], b=c['b'])
    wrong = []

    def Q(func, a=None, b=None, args=(), full_output=0, **k):
        k.update(a=a, b=b)
        wrong.extend((q, k.get(q), v) for q, v in lim.items()
                     if k.get(q) is None or abs(k[q]-v) > 1e-9*v)
        o = real_q(func, args=args, full_output=full_output, **k)
        i = n[0]
        n[0] += 1
        key = (i//(2*npar), [p for p in range(3) if use[p]][i//2 % npar],
               'ri'[i % 2])
        return tuple(o[:3])+(('forced',) if key in bad else ())
    empymod.kernel.wavenumber = W
    T.sp.integrate.quad = Q
    ppd = c['ppd'] if 'bad' in c else max(c['ppd'], 30)
    try:
        o, _, conv = T.hankel_quad(
            1., 2., 0, 0, off, ang, np.array([0.]), ab, one, one, one, one,
            False, dict(rtol=1e-8, atol=1e-14, limit=500, a=c['a'], b=c['b'],
                        pts_per_dec=ppd), True, False)
    except Exception as e:
        return True, f'hankel_quad raises {e!r}'
    finally:
        empymod.kernel.wavenumber, T.sp.integrate.quad = real_w, real_q
    if 'bad' in c:
        return bool(conv) != (not bad), (
            f'hankel_quad: integrations without convergence {bad}, returned '
            f'conv={conv}')
    if wrong:
        return True, f'hankel_quad integration with {wrong[:3]}'
    lam = got[0].ravel()
    nd = round(np.log10(c['b']/c['a'])*ppd)+1
    if lam.size != nd or abs(lam[0]/c['a']-1) > 1e-9 or \
            abs(lam[-1]/c['b']-1) > 1e-9:
        return True, f'kernel points {lam[0]}..{lam[-1]} ({lam.size})'
    e = np.zeros(off.size, dtype=complex)
    for i in range(off.size):
        for p, J in ((0, ss.j0), (1, ss.j1), (2, ss.j0)):
            if use[p]:
                v = (1+p+1j*(.5+p))*direct(lambda x: easy(np.log(x))*J(
                    off[i]*x), c['a'], c['b'])
                v = v*ang[i] if p else v
                e[i] += v/off[i] if p == 1 and ab in J2 else v
    d = np.max(abs(o-e)/(abs(e)+1e-300)) if o.shape == e.shape else np.inf
    return not (d < 1e-3 and conv), (
        f'hankel_quad ab {ab}: {o} ({conv}), expected {e}')


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C32', 'c32', [
        'empymod.transform.quad', 'empymod.transform.hankel_quad',
        'empymod.model.fem', 'empymod.model.bipole', 'empymod.model.dipole',
        'empymod.utils.conv_warning'], dict(
        integrals='every combination of reports of the six integrations of '
        'one offset; 1-3 offsets (up to 6 integrations)',
        values='offset, angle factor, limits, tolerances, kernels symbolic; '
        'the integration variable is a symbol',
        splines='4-7 nodes; cubic interpolation is an unknown linear '
        'operator of the data',
        warnings='up to 5 transform calls with symbolic outcome'), [
        'scipy.integrate.quad is an unknown linear functional of the '
        'integrand (identified by the integrand at a symbolic point), its '
        'limits and tolerances, with an arbitrary report; j0/j1 and the '
        'spline basis are uninterpreted.'])
    T = chk.add
    pats = [(True, True, True), (True, False, False), (False, True, False),
            (False, True, True)]
    for ab in ALL:
        for use in pats:
            if use == (True, True, True) or ab in (11, 33, 13, 24):
                T(t_quad, f'quad{ab}{use}', ab, use)
    for ab in (11, 13):
        for use in pats:
            T(t_conv, f'conv{ab}{use}', ab, use)
    for ab in ALL:
        T(t_hquad, f'hq{ab}', ab, 2, 1, False)
    for ab in (11, 33, 13, 24):
        T(t_hquad, f'hq3{ab}', ab, 3, 2, False)
        T(t_hquad, f'hq1{ab}', ab, 1, 1, False)
    for ab, no in ((33, 1), (33, 2), (13, 3), (11, 1)) + (
            ((33, 4), (11, 2)) if chk.thorough else ()):
        T(t_hquad, f'hqc{ab}{no}', ab, no, 1, True)
    for ht in ('quad', 'qwe', 'dlf'):
        for verb in (0, 1, 2):
            for loop in (None, 'freq', 'off'):
                for nm, b in (('dipole', (1, 2, 2)), ('dipole', (2, 2, 1)),
                              ('bipole', (1, 1, 1)), ('bipole', (2, 2, 2))):
                    if verb != 1 and b != (1, 2, 2):
                        continue
                    ex = [dict(xdirect=False)]
                    if nm == 'dipole':
                        ex += [dict(xdirect=x, ab=a) for x in (True, None)
                               for a in (13, 55)]
                    for k, e in enumerate(ex):
                        T(t_warn, f'w{nm}{ht}{verb}{loop}{b}{k}', nm, ht, b,
                          loop, e, verb)
    return chk
