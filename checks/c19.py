"""C19: waveform responses are the convolution with the given current."""
from . import api


def gauss(n):
    """Exact Gauss-Legendre abscissae and weights."""
    import numpy as np
    from symx import core
    c, s = core.const, core.sqrt
    from fractions import Fraction as F
    if n == 1:
        x, w = [c(0)], [c(2)]
    elif n == 2:
        r = s(c(F(1, 3)))
        x, w = [-r, r], [c(1), c(1)]
    elif n == 3:
        r = s(c(F(3, 5)))
        x, w = [-r, c(0), r], [c(F(5, 9)), c(F(8, 9)), c(F(5, 9))]
    else:
        raise core.Unsupported(f'{n} quadrature points')
    from symx.npx import SArr
    o = [np.empty(n, dtype=object).view(SArr) for _ in range(2)]
    for i in range(n):
        o[0][i], o[1][i] = x[i], w[i]
    return o


def uniq(a, return_inverse=False, **k):
    """np.unique without merging equal values."""
    import numpy as np
    from symx import core
    from symx.npx import SArr
    a = np.asarray(a, dtype=object)
    if k:
        raise core.Unsupported(f'unique {k}')
    f = a.reshape(-1).view(SArr)
    # any fixed order would do
    return (f[::-1], (a.size-1-np.arange(a.size)).reshape(a.shape)) \
        if return_inverse else f


def peval(c, x):
    o = 0
    for q in reversed(c):
        o = o*x+q
    return o


def pint(c, a, b):
    """Integral of the polynomial from a to b."""
    from fractions import Fraction as F
    P = [0]+[q*F(1, k+1) for k, q in enumerate(c)]
    return peval(P, b)-peval(P, a)


def oracle(time, nodes, amp, integ, zero):
    """minus sum dI/dt int; integ(a, b): integral over elapsed times.
    Entries of `time` equal to a node give the same either way."""
    out = []
    for t in time:
        o = zero
        for i in range(len(nodes)-1):
            if not bool(nodes[i] < t) or bool(amp[i+1] == amp[i]):
                continue
            end = t if bool(nodes[i+1] > t) else nodes[i+1]
            o = o-(amp[i+1]-amp[i])/(nodes[i+1]-nodes[i])*integ(
                t-end, t-nodes[i])
        out.append(o)
    return out


def mkw(n, nt, flat, fix):
    from fractions import Fraction
    from symx import core
    from symx.core import var
    nodes = [var(f'n{i}', lo=-3+2*i-.9, hi=-3+2*i+.9) for i in range(n+1)]
    amp = [var(f'a{i}', lo=-2, hi=2) for i in range(n+1)]
    for i in flat:
        amp[i+1] = amp[i]
    time = [var(f't{i}', lo=-4, hi=2*n-1) for i in range(nt)]
    return nodes, amp, time


def arrs(*l):
    from symx.layered import oarr
    return [oarr(x) for x in l]


def t_poly(t, n, nt, nrec, nquad, signal, flat, default,
           fix=False):
    """Polynomial responses are integrated exactly."""
    import numpy as np
    from symx import load, core, solve
    from symx.core import var
    nodes, amp, time = mkw(n, nt, flat, fix)
    deg = 2*nquad-1
    C = [[var(f'c{j}_{k}', lo=-2, hi=2) for k in range(deg+1)]
         for j in range(nrec)]
    kw = {} if default else dict(nquad=nquad)
    if signal is not None:
        kw['signal'] = signal

    def f():
        ct, d = load.utils.check_waveform(*arrs(time, nodes, amp), 0, **kw)
        ct = api.arr(ct)
        resp = np.empty((ct.size, nrec), dtype=object)
        for i in range(ct.size):
            for j in range(nrec):
                resp[i, j] = peval(C[j], ct[i])
        r = d['apply_waveform'](resp.view(load.npx.SArr))
        e = [oracle(time, nodes, amp, lambda a, b, j=j: pint(C[j], a, b),
                    core.const(0)) for j in range(nrec)]
        return api.arr(r), d['signal'], np.array(e, dtype=object).T

    def g():
        core.CTX.eager_cmp = True
        try:
            with load.symbolic(load.utils, extra={'unique': uniq}, attrs=[
                    (load.utils, '_min_time', -100 if nquad > 1 and n > 1
                     else 0),
                    (load.utils.sp.special, 'roots_legendre', gauss)]):
                return f()
        finally:
            core.CTX.eager_cmp = False
    case = api.kwcase('poly', nodes=nodes, amp=amp, time=time, C=C, kw=kw,
                      nrec=nrec)
    k = before = 0
    for pc, r in solve.paths(g):
        k += 1
        if isinstance(r, ValueError):
            # only if no time is after the begin of a changing segment
            before += 1
            for i in range(n):
                c = core.sand(*[tt <= nodes[i] for tt in time])
                t.claim('aborts', (amp[i] == amp[i+1]) | c, pc, case=case)
            continue
        if isinstance(r, Exception):
            raise r
        if r[1] != (signal or 0):
            t.fail('signal', case, env=solve.pc_model(pc))
            return
        if r[0].shape != r[2].shape:
            t.fail(f'shape {r[0].shape}', case, env=solve.pc_model(pc))
            return
        for i in np.ndindex(r[2].shape):
            t.eq(f'response{list(i)}', r[0][i], r[2][i], pc, case=case)
            if t.full():
                return
        if k == 2:
            t.twin('perturbed', r[0][i], r[2][i]+1, pc)
    if k < 2 or not before:
        t.errors.append(f'paths {k} {before}')


def t_call(t, name, sig, n, nt, nrec, nquad, order):
    """The public routines combine the responses of the plain signal."""
    import numpy as np
    from symx import load, core
    from symx.core import var
    from symx.npx import SArr
    from symx.layered import oarr
    nodes = [-3., -2., -.5, 1.][:n+1]
    amp = [var(f'a{i}', lo=-2+3*(i % 2), hi=-1.5+3*(i % 2))
           for i in range(n+1)]
    time = [var(f't{i}', lo=2+3*i, hi=4+3*i) for i in range(nt)][::order]
    rec = [oarr([var(f'rx{i}', lo=100+100*i, hi=150+100*i)
                 for i in range(nrec)]),
           oarr([var(f'ry{i}', lo=-50, hi=50) for i in range(nrec)]), 20.]
    src = [[0., 10.], [0., 5.], 10.]
    if name == 'bipole':
        src += [0., 0.]
        rec += [0., 0.]
    freq = np.array([1., 2.])

    def points(filt, inp, ppd, *a, **k):
        return 2*np.pi*freq, np.asarray(inp)

    def fdlf(fEM, tm, fr, ta):
        a = api.arr(tm)
        out = np.empty(a.size, dtype=object)
        q = api._flat(fEM)
        for i in range(a.size):
            out[i] = core.cuf(f"F{ta['kind']}", a.reshape(-1)[i], *q)
        return out.view(SArr), True
    S = api.Stubs()
    kw = dict(src=src, rec=rec, depth=[0., 50.], res=[1e8, 1., 10.],
              verb=0, squeeze=False)
    case = api.kwcase('call', name=name, sig=sig, nodes=nodes, amp=amp,
                      time=time, rec=rec, nquad=nquad)
    x, w = load.sp.special.roots_legendre(nquad)
    fn = getattr(load.model, name)

    def L():
        d = dict(nodes=nodes, amplitudes=oarr(amp), signal=sig)
        if nquad != 3:
            d['nquad'] = nquad
        return fn(freqtime=oarr(time), signal=d, **kw)

    def R():
        out = []
        for tt in time:
            o = 0
            for i in range(n):
                a, b = tt-nodes[i], tt-nodes[i+1]
                pts = [(b-a)/2*x[k]+(a+b)/2 for k in range(nquad)]
                g = api.arr(fn(freqtime=oarr(pts), signal=sig, **kw))
                s = sum(g[k]*w[k] for k in range(nquad))
                o = o+s*((b-a)/2*(amp[i+1]-amp[i])/(nodes[i+1]-nodes[i]))
            out.append(o)
        return np.array(out, dtype=object)
    api.compare(t, f'{name} {sig}', L, R, S, case, twin=True,
                extra={'unique': uniq}, attrs=[
                    (load.transform, 'get_dlf_points', points),
                    (load.transform, 'fourier_dlf', fdlf),
                    (load.model, 'EMArray',
                     lambda d: api.arr(d).view(SArr))])


def npoly(c, x):
    import numpy as np
    return np.polyval(c[::-1], x)


def replay(c):
    import numpy as np
    from empymod import utils
    import empymod
    if c['kind'] == 'poly':
        time, nodes, amp = (np.array(c[k], dtype=float)
                            for k in ('time', 'nodes', 'amp'))
        C = c['C']
        try:
            ct, d = utils.check_waveform(time, nodes, amp, 0, **c['kw'])
        except ValueError as e:
            ch = np.diff(amp) != 0
            ok = not np.any(ch[:, None] & (nodes[:-1, None] < time))
            return not ok, f'{e!r} for {c}'
        if d['signal'] != c['kw'].get('signal', 0):
            return True, f"signal {d['signal']}"
        resp = np.array([npoly(q, ct) for q in C]).T
        r = np.asarray(d['apply_waveform'](resp))
        e = np.array([oracle(time, nodes, amp,
                             lambda a, b, q=q: float(pint(q, a, b)), 0.)
                      for q in C]).T
        if r.shape != e.shape:
            return True, f'shape {r.shape} {e.shape}'
        dd = np.max(abs(r-e))
        return dd > 1e-7*max(1e-3, np.max(abs(e))), f'{c}: {r} {e}'
    kw = dict(src=[[0., 10.], [0., 5.], 10.], rec=c['rec'], depth=[0., 50.],
              res=[1e8, 1., 10.], verb=0, squeeze=False)
    if c['name'] == 'bipole':
        kw['src'] += [0., 0.]
    fn = getattr(empymod.model, c['name'])
    nq = c['nquad']
    x, w = utils.sp.special.roots_legendre(nq)
    d = dict(nodes=c['nodes'], amplitudes=c['amp'], signal=c['sig'])
    if nq != 3:
        d['nquad'] = nq
    # one common set of frequencies (as in the symbolic run)
    kw.update(ft='dlf', ftarg={'dlf': 'key_81_2009', 'pts_per_dec': 0})
    L = np.asarray(fn(freqtime=c['time'], signal=d, **kw))
    R = []
    for t in c['time']:
        o = 0
        for i in range(len(c['nodes'])-1):
            a, b = t-c['nodes'][i], t-c['nodes'][i+1]
            g = np.asarray(fn(freqtime=(b-a)/2*x+(a+b)/2, signal=c['sig'],
                              **kw))
            o = o+np.tensordot(w, g, (0, 0))*(b-a)/2*(
                c['amp'][i+1]-c['amp'][i])/(c['nodes'][i+1]-c['nodes'][i])
        R.append(o)
    R = np.array(R)
    if R.shape != L.shape:
        return True, f'shape {L.shape} {R.shape}'
    dd = api.ndiff(L, R)
    return not dd < 1e-6, f'{c}: {L} {R}'


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C19', 'c19', ['empymod.utils.check_waveform',
                               'empymod.utils.check_time',
                               'empymod.utils.check_time_only',
                               'empymod.model.tem', 'empymod.model.dipole',
                               'empymod.model.bipole'],
                dict(segments='1-3 (thorough 4)', times='1-2',
                     receivers='1-2', nquad='1-3 (polynomials of degree 5), '
                     '1-4 in the public routines', signals='-1, 0, 1'),
                ['Floats are treated as mathematical reals; the minimum time '
                 'is 0 or less (C21 decides the adjustable minima).',
                 'The nodes are increasing.',
                 'Gauss-Legendre points and weights of scipy are replaced by '
                 'the exact ones; np.unique does not merge equal times.',
                 'In the public routines the Hankel and Fourier transforms '
                 'are uninterpreted functions of the time and of the '
                 'frequency-domain field, at given frequencies.'])
    T = chk.add
    for nq in (1, 2, 3):
        T(t_poly, f'q{nq}', 1, 1, 1, nq, None, (), nq == 3)
        T(t_poly, f'r{nq}', 1, 1, 2, nq, 1, (), False)
        if nq < 3:
            T(t_poly, f's{nq}', 2, 1, 1, nq, -1, (), False)
    T(t_poly, 'tt', 1, 2, 1, 2, 0, (), False)
    T(t_poly, 'seg2', 2, 2, 1, 1, 0, (), False)
    T(t_poly, 'seg2r', 2, 1, 2, 1, 1, (), False)
    T(t_poly, 'flat2', 2, 2, 1, 2, 1, (0,), False)
    T(t_poly, 'fix3', 3, 1, 1, 2, 1, (), True, True)
    T(t_poly, 'fix3f', 3, 2, 1, 2, 1, (1,), False, True)
    T(t_poly, 'fix2', 2, 2, 2, 2, -1, (), False, True)
    T(t_poly, 'fix4', 4, 1, 1, 1, 0, (), False, True)
    T(t_poly, 'seg3', 3, 1, 1, 1, 0, (), False)
    T(t_poly, 'flat3b', 3, 2, 1, 1, -1, (1,), False)
    if chk.thorough:
        T(t_poly, 'seg2t', 2, 2, 2, 2, 1, (), False)
        T(t_poly, 'fix4t', 4, 2, 2, 3, 0, (), False, True)
        T(t_poly, 'seg3t', 3, 2, 2, 2, 0, (), False)
        T(t_poly, 'seg4', 4, 2, 1, 1, 0, (), False)
    for name in ('dipole', 'bipole'):
        for sig in (-1, 0, 1):
            T(t_call, f'{name}{sig}', name, sig, 1, 1, 1, 3, 1)
            T(t_call, f'{name}{sig}n', name, sig, 2, 2, 2, 2, 1)
            T(t_call, f'{name}{sig}r', name, sig, 3, 2, 2, 1, -1)
            T(t_call, f'{name}{sig}q', name, sig, 1, 1, 2, 4, 1)
    return chk
