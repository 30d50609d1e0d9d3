"""C25: looping over frequencies, offsets or nothing gives the same field."""
from . import api
from .c12 import wnr, mk

DEPTH = [0., 300., 1000.]
RES = [2e14, 0.3, 2., 5.]


def task(t, fn, ht, htarg, ns, nr, nf, loop, same, extra):
    from symx import load
    from symx.core import var
    src = [mk('sx', ns, -300, -100), mk('sy', ns, -50, 50),
           var('sz', lo=50, hi=120)]
    rec = [mk('rx', nr, 400, 900), mk('ry', nr, 100, 200)]
    if same:
        rec.append(var('rz', lo=130, hi=280))
    else:
        rec.append(var('rz', lo=400, hi=800))
    if fn == 'bipole':
        real = htarg.get('real')        # one component (8 otherwise)
        src += [0, 0] if real else [20, 10]
        rec += [90, 0] if real else [30, 40]
    freq = mk('f', nf, 1, 10)
    S = api.Stubs(conv=None)
    attrs = []
    h = dict(htarg)
    real = h.pop('real', False)
    if real:
        h['dlf'] = api.fakefilter(3, ('j0', 'j1'))
        attrs = [(load.kernel, 'wavenumber', wnr(S)),
                 (load.transform, 'hankel_dlf', REAL['dlf'])]
    kw = {**dict(depth=DEPTH, res=RES, ht=ht, htarg=h), **extra}

    def L():
        return getattr(load.model, fn)(src, rec, freqtime=freq, verb=0,
                                       loop=loop, squeeze=False, **kw)

    def R():
        import numpy as np
        # no loop at all over frequencies nor offsets
        o = getattr(load.model, fn)(src, rec, freqtime=freq, verb=0,
                                    loop=None, squeeze=False, **kw)
        return o
    kk = dict(kw)
    kk['htarg'] = dict(h)
    if real:
        kk['htarg']['dlf'] = 'fake3'
    api.compare(t, f'{fn} {ht} {loop}', L, R, S, api.kwcase(
        fn, src=src, rec=rec, freqtime=freq, loop=loop, **kk),
        attrs=attrs, extra=None, mods=(load.transform,) if real else (),
        twin=True)


REAL = {}


def replay(c):
    kind, loop = c.pop('kind'), c.pop('loop')
    if isinstance(c['htarg'].get('dlf'), str) and \
            c['htarg']['dlf'] == 'fake3':
        del c['htarg']['dlf']
    c['squeeze'] = False
    f = api.real_call(kind, dict(c, loop=loop))
    g = api.real_call(kind, dict(c, loop=None))
    import numpy as np
    d = float('inf')
    if f.shape == g.shape:
        e = np.abs(f-g)/(np.maximum(np.abs(f), np.abs(g))+1e-300)
        d = float(np.max(e)) if np.all(np.isfinite(e)) else float('inf')
    return not d < 1e-6, (f'{kind} loop={loop}: {f.ravel()[:4]}, loop=None: '
                          f'{g.ravel()[:4]} (rel. diff {d:.1e})')


def build():
    from symx import load
    from symx.report import Check
    REAL['dlf'] = load.transform.hankel_dlf
    chk = Check('C25', 'c25', api.FUNCTIONS + [
        'empymod.utils.check_loop', 'empymod.transform.hankel_dlf',
        'empymod.transform.dlf', 'empymod.transform.get_dlf_points'], dict(
        batch='1-3 frequencies, 1-3 sources x 1-3 receivers',
        filter='3 symbolic abscissae and weights (real hankel_dlf), '
        'uninterpreted transforms otherwise',
        values='positions, frequencies, filter values, kernels symbolic'),
        api.ASSUME)
    T = chk.add
    hts = [('dlf', {}), ('dlf', dict(real=True)), ('dlf', dict(
        pts_per_dec=-1)), ('dlf', dict(pts_per_dec=20)), ('qwe', {}),
        ('quad', {})]
    for fn in ('bipole', 'dipole'):
        for ht, ha in hts:
            for loop in ('freq', 'off'):
                for same in (True, False):
                    for xd in (True, False, None):
                        for ns, nr, nf in ((1, 1, 1), (1, 3, 2), (2, 2, 3),
                                           (1, 2, 1), (1, 1, 3)):
                            if ha.get('real') and (ns*nr*nf > 6 or
                                    ns*nr > 3) and \
                                    not chk.thorough:
                                continue
                            ex = [dict(xdirect=xd)]
                            if fn == 'dipole':
                                ex = [dict(xdirect=xd, ab=a) for a in
                                      ((11, 24, 33, 36, 62) if not ha.get(
                                          'real') or chk.thorough
                                       else (14, 33))]
                            elif xd is False:
                                ex.append(dict(xdirect=xd, mrec=True))
                            for e in ex:
                                T(task, f'{fn}{ht}{ha}{loop}{same}{ns}{nr}'
                                  f'{nf}{e}', fn, ht, ha, ns, nr, nf, loop,
                                  same, e)
    for xd in (True, False, None):
        for loop in ('freq', 'off'):
            for m in (dict(depth=[], res=[2.]), dict(depth=DEPTH,
                                                     res=[2.]*4)):
                T(task, f'full{xd}{loop}{m}', 'dipole', 'dlf', {}, 1, 2, 2,
                  loop, True, dict(xdirect=xd, ab=11, **m))
    return chk
