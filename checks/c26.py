"""C26: b-type sources/receivers and j-type receivers are scaled fields."""
from . import api
from .c12 import points, pick, mk, legendre, fin_roots, core_register, DEPTH

RES = [2e14, 0.3, 2., 5.]
MU0 = 4e-7          # times pi


def factor(s, kind, layer, par, pi):
    c = 299792458
    if kind == 'b':
        return s*(MU0*pi)*par['mpermH'][layer]
    eps0 = 1/(MU0*pi*c*c)
    return 1/par['res'][layer] + s*eps0*par['epermH'][layer]


def sval(f, laplace, pi):
    return -f if laplace else 2j*pi*f


def layer_of(z):
    """Concrete layer of a symbolic depth with known range."""
    from symx import core
    v = core.neval(core.lift(z), core.samples()[0])
    return sum(v > d for d in DEPTH)


def t_scale(t, msrc, mrec, ns, nr, sk, rk, sz, rz, nf, laplace, rpts):
    from symx import load, core
    from symx.core import var, PI
    src = points(sk, ns, sz, 's', ([20], [10]), [(50, 120), (330, 400)])
    rec = points(rk, nr, rz, 'r', ([0, 90, 30][:nr], [10]),
                 [(500, 600), (210, 280), (1100, 1200)])
    freq = mk('f', nf, 1e4, 1e6)
    if laplace:
        freq = [-f for f in freq]
    par = dict(res=[var(f'res{i}', lo=100, hi=900) for i in range(4)],
               epermH=[var(f'ep{i}', lo=1, hi=9) for i in range(4)],
               mpermH=[var(f'mu{i}', lo=1, hi=9) for i in range(4)])
    kw = dict(depth=DEPTH, epermV=par['epermH'], mpermV=par['mpermH'],
              srcpts=3, recpts=rpts, xdirect=False, **par)
    S = api.Stubs(real=laplace)
    for x in fin_roots(src) + fin_roots(rec):
        core_register(x)

    def L():
        return load.model.bipole(src, rec, freqtime=freq, verb=0, msrc=msrc,
                                 mrec=mrec, squeeze=False, **kw)
    base_s = True if msrc == 'b' else msrc
    base_r = {'b': True, 'j': False}.get(mrec, mrec)

    def mid(p, i, n):
        q = pick(p, i, n)
        return q[4][0] if len(q) == 6 else q[2][0]

    def R():
        import numpy as np
        out = np.empty((nf, nr, ns), dtype=object)
        o = api.arr(load.model.bipole(
            src, rec, freqtime=freq, verb=0, msrc=base_s, mrec=base_r,
            squeeze=False, **kw))
        for k in range(nf):
            s = sval(freq[k], laplace, PI())
            for i in range(ns):
                for j in range(nr):
                    v = o[k, j, i]
                    if msrc == 'b':
                        v = v*factor(s, 'b', layer_of(mid(src, i, ns)), par,
                                     PI())
                    if mrec in ('b', 'j'):
                        v = v*factor(s, mrec, layer_of(mid(rec, j, nr)), par,
                                     PI())
                    out[k, j, i] = v
        return out
    at = [(load.utils.sp.special, 'roots_legendre', legendre)]
    api.compare(t, f'm{msrc}{mrec}', L, R, S, api.kwcase(
        'b', src=src, rec=rec, freqtime=freq, msrc=msrc, mrec=mrec,
        laplace=laplace, lays=[layer_of(mid(src, i, ns)) for i in range(ns)],
        layr=[layer_of(mid(rec, j, nr)) for j in range(nr)], kw=kw,
        base=[base_s, base_r]), attrs=at, twin=True)


def replay(c):
    import math
    import numpy as np
    kw = c['kw']
    b = dict(kw, src=c['src'], rec=c['rec'], freqtime=c['freqtime'],
             squeeze=False)
    f = api.real_call('bipole', dict(b, msrc=c['msrc'], mrec=c['mrec']))
    o = api.real_call('bipole', dict(b, msrc=c['base'][0],
                                     mrec=c['base'][1])).astype(complex)
    for k, fr in enumerate(c['freqtime']):
        s = sval(fr, c['laplace'], math.pi)
        for i, ls in enumerate(c['lays']):
            for j, lr in enumerate(c['layr']):
                if c['msrc'] == 'b':
                    o[k, j, i] *= factor(s, 'b', ls, kw, math.pi)
                if c['mrec'] in ('b', 'j'):
                    o[k, j, i] *= factor(s, c['mrec'], lr, kw, math.pi)
    d = float('inf')
    if o.shape == f.shape and np.all(np.isfinite(f)):
        d = float(np.max(np.abs(f-o)/(np.abs(f)+np.abs(o)+1e-300)))
    return not d < 1e-6, (f"msrc {c['msrc']} mrec {c['mrec']}: returned "
                          f"{f.ravel()[:4]}, scaled field {o.ravel()[:4]} "
                          f"(rel. diff {d:.1e})")


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C26', 'c26', api.FUNCTIONS, dict(
        batch='1-2 sources x 1-3 receivers x 1-2 frequencies (or Laplace '
        'values), 4 layers', values='positions, resistivities, permittivities,'
        ' permeabilities, frequencies, quadrature symbolic'), api.ASSUME)
    for ms in (False, True, 'b'):
        for mr in (False, True, 'b', 'j'):
            if ms != 'b' and mr in (False, True):
                continue
            for lap in (False, True):
                for ns, nr, nf in ((1, 1, 1), (1, 1, 2), (2, 3, 2),
                                   (2, 2, 1)):
                    for sz in ('common', 'own')[:ns]:
                        for rz in ('common', 'own')[:nr]:
                            chk.add(t_scale, f'{ms}{mr}{lap}{ns}{nr}{nf}{sz}'
                                    f'{rz}', ms, mr, ns, nr, 'dip', 'dip',
                                    sz, rz, nf, lap, 1)
                for sk, rk in (('bip', 'dip'), ('dip', 'bip')):
                    chk.add(t_scale, f'{ms}{mr}{lap}{sk}{rk}', ms, mr, 1, 1,
                            sk, rk, 'common', 'common', 2, lap, 3)
                    if chk.thorough:
                        chk.add(t_scale, f'2{ms}{mr}{lap}{sk}{rk}', ms, mr,
                                2, 2, sk, rk, 'own', 'own', 2, lap, 3)
    return chk
