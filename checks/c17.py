"""C17: frequency-to-time conversion: sign, scale, linearity."""
import math

from . import api
from .c16 import Spline, snap

LOC = dict()


def fsym(n, m=None, real=False):
    """Symbolic complex frequency-domain field (n [x m])."""
    import numpy as np
    from symx.core import var, CSym
    from symx.npx import SArr
    o = np.empty((n,) if m is None else (n, m), dtype=object)
    for i in np.ndindex(o.shape):
        k = '_'.join(map(str, i))
        o[i] = CSym(var(f'Fr{k}', lo=-3, hi=3), var(f'Fi{k}', lo=-3, hi=3))
    return o.view(SArr)


def fl(F, env):
    import numpy as np
    from symx import core
    F = np.asarray(F, dtype=object)
    return [[float(core.neval(core.lift(getattr(v, q)), env))
             for v in F.ravel()] for q in ('re', 'im')] + [list(F.shape)]


def unfl(x):
    import numpy as np
    return (np.array(x[0])+1j*np.array(x[1])).reshape(x[2])


# -- tem ---------------------------------------------------------------------

def t_tem(t, ft, signal, nf, nt, no, wave):
    """tEM[t, i] = 2/pi T(fEM[:, i]*s/(2 pi i f)); T unknown but linear in
    the field, depending on time and frequency only."""
    import numpy as np
    from symx import load, solve, core
    from symx.core import var, CSym
    from symx.npx import SArr
    from symx.layered import oarr
    F = fsym(nf, no)
    freq = oarr([var(f'f{i}', pos=True, lo=1+i, hi=2+i) for i in range(nf)])
    time = oarr([var(f't{i}', pos=True, lo=1+i, hi=2+i) for i in range(nt)])
    off = np.arange(1., no+1)
    targ = dict(mine=1)
    conv = [core.blift(var(f'c{i}') > 0) if hasattr(core, 'blift') else
            var(f'c{i}') > 0 for i in range(no+1)]
    pi = core.PI()

    def T(fE, tt, i):
        s = 0
        for k in range(nf):
            v = CSym.of(fE[k])
            s = s + core.cuf('TA', tt, freq[k])*v.re + \
                core.cuf('TB', tt, freq[k])*v.im
        return s
    seen = []

    def calc(fEM, tm, fr, ta):
        fE = np.asarray(fEM, dtype=object)
        if fE.shape != (nf,) or ta is not targ:
            raise ValueError('arguments of the transform')
        for a, b in zip(list(fr)+list(tm), list(freq)+list(time)):
            if a is not b:
                raise ValueError('time/frequency changed')
        i = len(seen)
        seen.append(1)
        o = np.empty(nt, dtype=object)
        for k in range(nt):
            o[k] = T(fE, tm[k], i)
        return o.view(SArr), conv[i+1]

    def apply(x):
        return 3*x+1

    sig = dict(apply_waveform=apply, signal=signal) if wave else signal
    case = api.kwcase('tem', ft=ft, signal=signal, F=[F.real, F.imag],
                      nf=nf, nt=nt, no=no, wave=wave)

    def f():
        seen.clear()
        return load.model.tem(F, off, freq, time, sig, ft, targ, conv[0])
    at = [(load.transform, 'fourier_'+ft, calc)]
    S = api.Stubs()
    for pc, o in api.run(f, S, attrs=at, one=False):
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', case, repr(o)[:200], env=e)
            continue
        o, c = o
        o = api.arr(o)
        if o.shape != (nt, no):
            t.fail(f'shape {o.shape}', case, env=solve.pc_model(pc))
            continue
        for i in range(no):
            g = F[:, i]
            if signal:
                g = [v*signal/(CSym(core.const(0), 2*pi*freq[k]))
                     for k, v in enumerate(g)]
            for k in range(nt):
                e = T(g, time[k], i)*2/pi
                t.eq('tem', o[k, i], 3*e+1 if wave else e, pc, case=case)
        t.claim('converged', _iff(c, core.sand(*conv)), pc, case=case)
    t.twin('twin', o[0, 0], o[0, 0]+1, pc)


def _iff(c, d):
    from symx import core
    if isinstance(c, core.Sym):
        c = c != 0
    c, d = core.slift(c), core.slift(d)
    return core.sor(core.sand(c, d), core.sand(~c, ~d))


def replay_tem(c):
    import numpy as np
    from empymod import model, transform
    nf, nt, no = c['nf'], c['nt'], c['no']
    F = np.array(c['F'][0])+1j*np.array(c['F'][1])
    F = F.reshape(nf, no)
    freq = np.arange(1., nf+1)
    time = np.arange(1., nt+1)
    # a linear transform of the frequency-domain data
    name = 'fourier_'+c['ft']
    real = getattr(transform, name)
    rng = np.random.default_rng(1)
    A, B = rng.standard_normal((2, nt, nf))
    cv = [[i != 1 for i in range(no)], [True]*no, [i != 0 for i in range(no)]]
    out = []
    try:
        for cs in cv:
            s = c['signal']
            sig = dict(apply_waveform=lambda x: 3*x+1, signal=s) \
                if c['wave'] else s
            for c0 in (True, False):
                it = iter(cs)
                setattr(transform, name, lambda fE, tm, fr, ta: (
                    A @ fE.real + B @ fE.imag, next(it)))
                o, k = model.tem(F.copy(), np.arange(1., no+1), freq, time,
                                 sig, c['ft'], {}, c0)
                g = F*(s/(2j*np.pi*freq))[:, None] if s else F
                e = 2/np.pi*(A @ g.real + B @ g.imag)
                e = 3*e+1 if c['wave'] else e
                if bool(k) != (c0 and all(cs)):
                    out.append(f'conv {k} for {c0}, {cs}')
                if api.ndiff(o, e) > 1e-9:
                    out.append(f'tem {o.ravel()[:3]} expected '
                               f'{e.ravel()[:3]}')
    finally:
        setattr(transform, name, real)
    return bool(out), f"{c['ft']} signal {c['signal']}: {out[:2]}"


# -- FFTLog ------------------------------------------------------------------

def fftlog_coef(n, dlnr, kr, rk, q, mu):
    """Discrete log-periodic transform matrix (Hamilton 2000, B26-B28), for
    all modes; numerical, independent of the code."""
    import numpy as np
    import scipy.special as ss
    j = np.arange(n)-(n-1)/2
    m = np.fft.fftfreq(n)*n
    y = m*np.pi/(n*dlnr)
    U = np.exp(q*np.log(2) + ss.loggamma((mu+1+q)/2+1j*y) -
               ss.loggamma((mu+1-q)/2-1j*y))*np.exp(2j*y*np.log(2/kr))
    if n % 2 == 0:
        U[n//2] = U[n//2].real
    D = np.exp(-2j*np.pi*np.outer(m, np.arange(n))/n)
    B = np.exp(2j*np.pi*np.outer(np.arange(n), m)/n)/n
    M = (B @ (U[:, None]*D)).real
    M = M[::-1]*np.exp(-(q-.5)*j*dlnr)[None, :]
    return M*np.exp(-((q+.5)*j*dlnr+q*np.log(kr)-np.log(rk)/2))[:, None]


def t_fftlog(t, n, q, mu, rmin, rmax, times):
    import numpy as np
    from symx import load, solve
    f, tc, dl, kr, rk = load.transform.get_fftlog_input(rmin, rmax, n, q, mu)
    targ = dict(q=q, mu=mu, tcalc=tc, dlnr=dl, kr=kr, rk=rk)
    F = fsym(n)
    times = tc if times is None else np.array(times)
    case = api.kwcase('fftlog', n=n, q=q, mu=mu, r=[rmin, rmax],
                      times=times, F=[F.real, F.imag])

    def fn():
        from symx import npx
        with load.symbolic(load.transform, pi=False, sp_over=npx.fft_mods()[0],
                           attrs=[(load.transform, 'iuSpline', Spline.make)]):
            return load.transform.fourier_fftlog(F.copy(), times, f, targ)
    M = fftlog_coef(n, dl, kr, rk, q, mu)
    # the centre points: r_c k_c = kr, spacing of tcalc and f
    a = [-v.im if mu > 0 else v.re for v in F]
    y = [sum((a[k]*float(M[i, k]) for k in range(n)), 0) for i in range(n)]
    for pc, o in solve.paths(fn):
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', case, repr(o)[:200], env=e)
            continue
        o = api.arr(o[0])
        if o.shape != times.shape:
            t.fail('shape', case, env=solve.pc_model(pc))
            continue
        x = np.log(tc)
        for i, tt in enumerate(times):
            e = sum((Spline.coef(x, k, np.log(tt))*y[k] for k in range(n)), 0)
            t.eq('fftlog', o[i], e, pc, case=case, tol=(0, 1e-9))
            if t.full():
                return
    t.twin('twin', o[0], o[0]+1, pc)


def replay_fftlog(c):
    import numpy as np
    from empymod import transform
    n, q, mu = c['n'], c['q'], c['mu']
    f, tc, dl, kr, rk = transform.get_fftlog_input(*c['r'], n, q, mu)
    M = fftlog_coef(n, dl, kr, rk, q, mu)
    rng = np.random.default_rng(2)
    for F in (np.array(c['F'][0])+1j*np.array(c['F'][1]),
              rng.standard_normal(n)+1j*rng.standard_normal(n)):
        o, _ = transform.fourier_fftlog(F.copy(), np.array(c['times']), f,
                                        dict(q=q, mu=mu, tcalc=tc, dlnr=dl,
                                             kr=kr, rk=rk))
        e = M @ (-F.imag if mu > 0 else F.real)
        e = transform.iuSpline(np.log(tc), e)(np.log(np.array(c['times'])))
        d = api.ndiff(o, e)
        if d > 1e-8:
            return True, (f'fourier_fftlog n={n} q={q} mu={mu}: {o[:3]} '
                          f'log-periodic transform {e[:3]} (rel. {d:.1e})')
    return False, 'agrees'


def t_fftlog_in(t, n, q, mu, rmin, rmax):
    """Input points of FFTLog: log-spaced, centred, kr low-ringing."""
    import numpy as np
    from symx import load
    import scipy.special as ss
    from fractions import Fraction
    f, tc, dl, kr, rk = load.transform.get_fftlog_input(rmin, rmax, n, q, mu)
    dlr = (rmax-rmin)/n
    nc = (n+1)/2
    k = np.arange(1, n+1)
    e1 = 10**((rmin+rmax)/2+(k-nc)*dlr)/2/np.pi
    U = ss.loggamma((mu+1+q)/2+1j*np.pi/2/(dlr*np.log(10))) - \
        ss.loggamma((mu+1-q)/2-1j*np.pi/2/(dlr*np.log(10)))
    arg = (np.log(2)/(dlr*np.log(10))+U.imag/np.pi)
    ekr = np.exp((arg-np.round(arg))*dlr*np.log(10))
    e2 = ekr*10**(-(rmin+rmax)/2+(k-nc)*dlr)
    erk = 10**(rmin+rmax)/ekr*np.pi/2
    case = api.kwcase('fftlog_in', n=n, q=q, mu=mu, r=[rmin, rmax])
    for nm, a, b in (('freq', f, e1), ('tcalc', tc, e2), ('dlnr', [dl],
                     [dlr*np.log(10)]), ('kr', [kr], [ekr]),
                     ('rk', [rk], [erk])):
        t.eq(nm+'n', len(a), len(b), case=case)
        for x, y in zip(a, b):
            t.eq(nm, Fraction(float(x)), Fraction(float(y)), case=case,
                 tol=1e-9)


# -- FFT ---------------------------------------------------------------------

def fft_oracle(F, df, N, order):
    """2 N times the sampled inverse transform at n dt, n = -N..N-1.

    order 'sum': 2 df Re sum_k F_k exp(2 pi i k n/2N) (+ DC and Nyquist term);
    order 'known': the assembly of the known finding, in which the positive
    frequencies are shifted by two samples."""
    import numpy as np
    from symx import npx, core
    if order == 'known':
        a = list(F[1:])+[0]+[core.CSym.of(v).conjugate() for v in F[::-1]]
    else:
        dc, ny = {'0': (0, 0), 'd': (F[0].re, 0), 'n': (0, F[-1].re),
                  'dn': (F[0].re, F[-1].re)}[order]
        G = list(F[:-1])
        a = [dc]+G+[ny]+[core.CSym.of(v).conjugate() for v in G[::-1]]
    y = npx._sifft(np.array(a, dtype=object)).real
    y = np.fft.fftshift(np.asarray(y))
    return [v*(2*N*df) for v in y]


def t_fft(t, nfreq, ntot, df, ppd, times):
    import numpy as np
    from symx import load, solve, npx, core
    times = np.array(times)
    freq = np.arange(1, nfreq+1)*df
    if ppd:
        fin = np.logspace(np.log10(df), np.log10(nfreq*df), max(
            4, int(np.log10(nfreq)*ppd+1)))
    else:
        fin = freq
    F = fsym(fin.size)
    targ = dict(dfreq=df, nfreq=nfreq, ntot=ntot, pts_per_dec=ppd)
    case = api.kwcase('fft', nfreq=nfreq, ntot=ntot, dfreq=df, ppd=ppd,
                      freq=fin, times=times, F=[F.real, F.imag])

    def fn():
        with load.symbolic(load.transform, pi=False, sp_over=npx.fft_mods()[0],
                           attrs=[(load.transform, 'iuSpline', Spline.make)]):
            return load.transform.fourier_fft(F.copy(), times, fin, targ)
    if ppd:
        x = np.log(fin)
        G = []
        for w in freq:
            c = [Spline.coef(x, k, np.log(w)) for k in range(fin.size)]
            G.append(core.CSym(sum(c[k]*F[k].re for k in range(fin.size)),
                               sum(c[k]*F[k].im for k in range(fin.size))))
    else:
        G = list(F)
    m = ntot-nfreq
    G = G+[core.CSym(G[-1].re*core.Fraction(m-1-i, m),
                     G[-1].im*core.Fraction(m-1-i, m)) for i in range(m)]
    tn = np.arange(-ntot, ntot)/(2*ntot*df)
    for pc, o in solve.paths(fn):
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', case, repr(o)[:200], env=e)
            continue
        o = api.arr(o[0])
        if o.shape != times.shape:
            t.fail('shape', case, env=solve.pc_model(pc))
            continue
        good = None
        for order in ('0', 'd', 'n', 'dn', 'known'):
            y = fft_oracle(G, df, ntot, order)
            E = [sum((Spline.coef(tn, k, tt)*y[k] for k in range(tn.size)), 0)
                 / 2*math.pi for tt in times]
            if all(solve.prove_close(core.lift(a), core.lift(b), (0, 1e-9))
                   for a, b in zip(o, E)):
                good = order
                break
        t.ob += len(times)
        if good in ('0', 'd', 'n', 'dn'):
            t.ok += len(times)
        else:
            t._cex('fft', solve.pc_model(pc), api.kwcase(
                'fft', nfreq=nfreq, ntot=ntot, dfreq=df, ppd=ppd, freq=fin,
                times=times, F=[F.real, F.imag],
                assembly='shifted' if good else 'other'),
                'not the discrete Fourier sum')
            if good:
                t.ok += len(times)      # decided: equals the known finding
    t.twin('twin', o[0], o[0]+1, pc)


def replay_fft(c):
    """Discrete sum against the real code."""
    import numpy as np
    from empymod import transform
    N, df, nf = c['ntot'], c['dfreq'], c['nfreq']
    fin, times = np.array(c['freq']), np.array(c['times'])
    # random data, up to the DC and Nyquist terms
    rng = np.random.default_rng(3)
    for F in (np.array(c['F'][0])+1j*np.array(c['F'][1]),
              rng.standard_normal(fin.size)+1j*rng.standard_normal(fin.size)):
        o, _ = transform.fourier_fft(F.copy(), times, fin, dict(
            dfreq=df, nfreq=nf, ntot=N, pts_per_dec=c['ppd']))
        G = F
        if c['ppd']:
            w = np.log(np.arange(1, nf+1)*df)
            G = transform.iuSpline(np.log(fin), F.real)(w) + \
                1j*transform.iuSpline(np.log(fin), F.imag)(w)
        m = N-nf
        G = np.r_[G, G[-1]*(m-1-np.arange(m))/max(m, 1)]
        tn = np.arange(-N, N)/(2*N*df)
        ds = []
        for dc in (0, G[0].real):
            for ny in (0, G[-1].real):
                k = np.arange(1, N)
                y = 2*df*np.array([np.sum((G[:-1]*np.exp(
                    2j*np.pi*k*df*q)).real) for q in tn]) + df*dc + \
                    df*ny*np.cos(np.pi*np.arange(-N, N))
                e = transform.iuSpline(tn, y)(times)/2*np.pi
                ds.append(api.ndiff(o, e))
        if min(ds) > 1e-8:
            k = np.fft.ifft(np.r_[G[1:], 0, G[::-1].conj()]).real
            k = transform.iuSpline(tn, 2*N*df*np.fft.fftshift(k))(times)
            if api.ndiff(o, k/2*np.pi) < 1e-8 and \
                    c.get('assembly') != 'shifted':
                return False, 'the known assembly, nothing else'
            return True, (f'fourier_fft nfreq {nf} ntot {N}: {o[:3]}, discrete'
                          f' Fourier sum {e[:3]} (rel. {min(ds):.1e})')
    return False, 'agrees'


# -- QWE (Fourier) -----------------------------------------------------------

def t_fqwe(t, sc, nt, maxint, nquad, nf, opts, dq):
    """Interval sums handed to qwe / integrals handed to quad."""
    import numpy as np
    from symx import load, solve, core, npx
    from symx.core import var, CSym
    from symx.npx import SArr
    sincos = np.sin if sc == 'sin' else np.cos
    freq = np.logspace(-1, 1, nf)
    times = np.array([0.7, 2.5, 4.][:nt])
    F = fsym(nf)
    targ = dict(rtol=1e-8, atol=1e-20, nquad=nquad, maxint=maxint,
                diff_quad=dq, a=None, b=None, limit=None, sincos=sincos)
    targ.update(opts)
    bad = var('quadbad') > 0
    cq = var('qweconv') > 0
    case = api.kwcase('fqwe', sc=sc, times=times, maxint=maxint, nquad=nquad,
                      freq=freq, opts=opts, F=[F.real, F.imag], dq=dq)
    xint = np.r_[1e-20, np.arange(1, maxint+1)*np.pi]
    if sc == 'cos':
        xint[1:] -= np.pi/2
    x = np.log(2*np.pi*freq)

    def spl(w):
        c = [Spline.coef(x, k, np.log(w)) for k in range(nf)]
        if sc == 'sin':
            return -sum(c[k]*F[k].im for k in range(nf))
        return sum(c[k]*F[k].re for k in range(nf))

    def qwe(rtol, atol, mi, inp, intervals, *a, **k):
        inp = np.asarray(inp, dtype=object)
        iv = np.asarray(intervals, dtype=float)
        if (rtol, atol, mi) != (1e-8, 1e-20, maxint) or a or k or \
                inp.shape != (iv.shape[0], maxint):
            raise ValueError('qwe arguments')
        o = np.empty(iv.shape[0], dtype=object)
        for i in range(o.size):
            o[i] = qsum(inp[i], iv[i])
        return o.view(SArr), 1, cq

    def qsum(row, iv):
        # linear in the summands, nodes identified by their intervals
        return sum(var(f'q{snap(math.log(iv[1]))}_{k}'.replace('-', 'm'),
                       lo=-2, hi=2)*row[k] for k in range(len(row)))

    def integral(g, a, b):
        return sum(var(f'quad{snap(a)}_{snap(b)}_{k}'.replace('-', 'm'),
                       lo=-2, hi=2)*g(a+(b-a)*v)
                   for k, v in enumerate((.2, .6)))

    def quad(fn, a, b, args=(), full_output=0, epsabs=1, epsrel=1, limit=1,
             **k):
        if k or (epsabs, epsrel, limit) != (1e-20, 1e-8,
                                            opts.get('limit', maxint)):
            raise ValueError('quad arguments')
        r = (integral(lambda w: fn(w, *args), float(a), float(b)), 0, {})
        return r+('message',) if bool(bad) else r

    def fn():
        with load.symbolic(load.transform, pi=False, sp_over={
            'integrate': npx.ModProxy(load.sp.integrate, {'quad': quad})},
                attrs=[(load.transform, 'iuSpline', Spline.make),
                       (load.transform, 'qwe', qwe)],
                extra={'abs': lambda v: npx.emap(mag, v),
                       'sin': np.sin, 'cos': np.cos}):
            return load.transform.fourier_qwe(F.copy(), times, freq, targ)

    def mag(v):
        # modulus as an uninterpreted value: the choice between qwe and quad
        # is free
        from symx import core
        if isinstance(v, (int, float)):
            return abs(v)
        v = CSym.of(v)
        return core.cuf('mod', v.re, v.im)
    g_x, g_w = load.sp.special.roots_legendre(nquad)
    for pc, o in solve.paths(fn):
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', case, repr(o)[:200], env=e)
            continue
        o, conv = o
        o = api.arr(o)
        if o.shape != times.shape:
            t.fail('shape', case, env=solve.pc_model(pc))
            continue
        nq = 0
        for i, tt in enumerate(times):
            names = solve.atoms(core.lift(o[i])) if hasattr(
                solve, 'atoms') else _vars(core.lift(o[i]))
            if any(v.startswith('quad') for v in names):
                nq += 1
                a = opts.get('a', xint[0]/tt)
                b = opts.get('b', xint[-1]/tt)
                e = integral(lambda w: spl(w)*float(sincos(w*tt)), a, b)
            else:
                row = []
                for m in range(maxint):
                    s = 0
                    for k in range(nquad):
                        w = xint[m]+(xint[m+1]-xint[m])/2*(g_x[k]+1)
                        s = s + spl(w/tt)*float(sincos(w)*g_w[k])
                    row.append(s)
                e = qsum(row, xint/tt)
            t.eq('fourier_qwe', o[i], e, pc, case=case, tol=(0, 1e-9))
        want = core.sand(*([~bad] if nq else []) + ([cq] if nq < nt else []))
        t.claim('converged', _iff(conv, want), pc, case=case)
        if t.full():
            return
    t.twin('twin', o[0], o[0]+1, pc)


def _vars(n):
    seen, out, st = set(), set(), [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'v':
            out.add(x.args[0])
        st += [a for a in x.args if hasattr(a, 'op')]
    return out


def replay_fqwe(c):
    """Real routine with spies for qwe and quad; then exp(-t)."""
    import numpy as np
    from empymod import transform
    out = []
    sincos = np.sin if c['sc'] == 'sin' else np.cos
    mi, nq, opts = c['maxint'], c['nquad'], c['opts']
    rng = np.random.default_rng(4)
    cw = rng.standard_normal(mi*nq)
    rq, rquad = transform.qwe, transform.sp.integrate.quad
    xint = np.r_[1e-20, np.arange(1, mi+1)*np.pi]
    if c['sc'] == 'cos':
        xint[1:] -= np.pi/2
    g_x, g_w = transform.sp.special.roots_legendre(nq)
    for times in (np.array(c['times']), np.array([4., .7, 2.5])):
        freq = np.array(c['freq'])
        for F in (np.array(c['F'][0])+1j*np.array(c['F'][1]),
                  np.array([3, 2, 1e-2, 1])*(1-1j)):
            sr = transform.iuSpline(np.log(2*np.pi*freq), F.real)
            si = transform.iuSpline(np.log(2*np.pi*freq), F.imag)
            ck = np.log(xint/times[:, None])
            ck = np.abs(sr(ck)+1j*si(ck))
            rat = np.sort(np.max(ck[:, :-1]/ck[:, 1:], 1))
            for dq in [c['dq'], 1e-10, 1e10] + list(
                    np.sqrt(rat[1:]*rat[:-1])):
                for bad, cq in ((False, True), (True, True), (False, False)):
                    usedq, usedi = [], []

                    def qwe(rt, at, m, inp, iv, *a, **k):
                        usedq.append((np.shape(inp), iv))
                        return inp @ cw[:inp.shape[1]] + iv[:, -1], 1, cq

                    def quad(fn, a, b, args=(), fo=0, ea=1, er=1, lim=1):
                        usedi.append((args, lim, ea, er))
                        r = sum(u*fn(a+(b-a)*v, *args)
                                for u, v in ((1, .2), (2, .6))), 0, {}
                        return r+('m',) if bad else r
                    targ = dict(rtol=1e-8, atol=1e-20, nquad=nq, maxint=mi,
                                diff_quad=dq, a=None, b=None, limit=None,
                                sincos=sincos)
                    targ.update(opts)
                    transform.qwe, transform.sp.integrate.quad = qwe, quad
                    try:
                        o, cv = transform.fourier_qwe(F.copy(), times, freq,
                                                      targ)
                    except Exception as e:
                        out.append(f'raises {e!r}')
                        continue
                    finally:
                        transform.qwe = rq
                        transform.sp.integrate.quad = rquad
                    sp = transform.iuSpline(
                        np.log(2*np.pi*freq),
                        -F.imag if c['sc'] == 'sin' else F.real)
                    qt = [v[0][0] for v in usedi]
                    for i, tt in enumerate(times):
                        if tt in qt:
                            a = opts.get('a', xint[0]/tt)
                            b = opts.get('b', xint[-1]/tt)
                            e = sum(u*sp(np.log(w))*sincos(w*tt) for u, w in (
                                (1, a+(b-a)*.2), (2, a+(b-a)*.6)))
                        else:
                            row = []
                            for m in range(mi):
                                w = xint[m]+np.diff(xint)[m]/2*(g_x+1)
                                row.append(np.sum(sp(np.log(w/tt))*sincos(w) *
                                                  g_w))
                            e = np.array(row) @ cw[:mi] + xint[-1]/tt
                        if not np.isclose(o[i], e, rtol=1e-8):
                            out.append(f't={tt}: {o[i]} expected {e}')
                    want = not (bad and qt) and (cq or len(qt) == len(times))
                    if bool(cv) != want:
                        out.append(f'conv {cv} instead of {want}')
                    if any(v[1:] != (opts.get('limit', mi), 1e-20, 1e-8)
                           for v in usedi):
                        out.append(f'quad arguments {usedi[0]}')
    return bool(out), f"fourier_qwe {c['sc']}: {out[:3]}"


def replay(c):
    if c['kind'] == 'fftlog_in':
        import numpy as np
        from empymod import transform
        n, q, mu = c['n'], c['q'], c['mu']
        f, tc, dl, kr, rk = transform.get_fftlog_input(*c['r'], n, q, mu)
        r = np.array(c['r'])
        k = np.arange(1, n+1)-(n+1)/2
        d = (r[1]-r[0])/n
        e1 = 10**(r.sum()/2+k*d)/2/np.pi
        e2 = kr*10**(-r.sum()/2+k*d)
        bad = f.size != n or not np.allclose(f, e1, rtol=1e-8) or \
            not np.allclose(tc, e2, rtol=1e-8) or \
            abs(dl/(d*np.log(10))-1) > 1e-8 or \
            abs(rk*kr/10**r.sum()/np.pi*2-1) > 1e-8
        import scipy.special as ss
        y = 1j*np.pi/2/dl
        ph = np.log(2/kr)/dl*1 + (ss.loggamma((mu+1+q)/2+y).imag +
                                  ss.loggamma((mu+1-q)/2+y).imag)/np.pi
        bad = bad or abs(ph-np.round(ph)) > 1e-6
        return bad, f'get_fftlog_input n {n}: {f[:2]} {tc[:2]} {dl} {kr} {rk}'
    return globals()['replay_'+c['kind']](c)


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C17', 'c17', ['empymod.model.tem'] + [
        'empymod.transform.'+n for n in (
            'fourier_fft', 'fourier_fftlog', 'fourier_qwe',
            'get_fftlog_input')], dict(
        tem='1-3 frequencies x 1-3 times x 1-3 offsets, symbolic fields, '
        'frequencies, times; transform any linear map; all signals',
        fftlog='4-12 points, several biases, sine and cosine; symbolic field',
        fft='3-8 frequencies, padded to 4-16; symbolic field',
        fourier_qwe='1-3 times, 2-3 intervals x 2-3 nodes; symbolic field; '
        'free choice between qwe and quad'), [
        'Floats as mathematical reals (symbolic field); concrete transform '
        'coefficients are compared to 1e-9 of the largest.',
        'scipy\'s spline is an unknown linear operator of the nodes and the '
        'evaluation point; qwe and quad are unknown linear functionals '
        '(decided in C18, C32).'])
    T = chk.add
    for ft in ('dlf', 'qwe', 'fftlog', 'fft'):
        for s in (-1, 0, 1):
            for nf, nt, no in ((1, 1, 1), (2, 2, 3), (3, 3, 2)):
                for w in (False, True):
                    T(t_tem, f'tem {ft}{s}{nf}{nt}{no}{w}', ft, s, nf, nt, no,
                      w)
    ns = (4, 5, 6, 7, 8, 9) + ((12, 15, 16) if chk.thorough else ())
    for n in ns:
        for q in (0, 0.3, -0.4, 1., -1.):
            for mu in (.5, -.5):
                if mu-abs(q)+1 <= 0 and (mu+1+q) % 2 in (0,):
                    continue
                T(t_fftlog_in, f'fftlog_in {n}{q}{mu}', n, q, mu, -2.3, 1.1)
                T(t_fftlog, f'fftlog {n}{q}{mu}', n, q, mu, -2., 1.5,
                  [0.7, 3.] if n > 6 else None)
    for nf, nt in ((3, 4), (4, 4), (5, 8), (8, 8)) + (
            ((6, 16), (16, 16)) if chk.thorough else ()):
        for ppd in (None, 3):
            T(t_fft, f'fft {nf}{nt}{ppd}', nf, nt, .25, ppd, [0.3, 0.9])
    for sc in ('sin', 'cos'):
        for nt, mi, nq in ((1, 2, 2), (2, 2, 3), (2, 3, 2)) + (
                ((3, 3, 3),) if chk.thorough else ()):
            for o in ({}, dict(a=0.1, b=5., limit=7)):
                T(t_fqwe, f'fqwe {sc}{nt}{mi}{nq}{len(o)}', sc, nt, mi, nq, 4,
                  o, 3)
    return chk
