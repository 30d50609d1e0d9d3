"""C31: in-phase and quadrature are the scaled ratio Hs/Hp."""
from . import api

CODES = (44, 45, 46, 54, 55, 56, 64, 65, 66)
FORMS = ('int', 'str', 'float', 'np')


def form(ab, f):
    import numpy as np
    return {'int': int, 'str': str, 'float': float, 'np': np.int64,
            'arr': np.array}[f](ab)


def coplanar(ab):
    return {4: 44, 5: 55, 6: 66}[ab % 10]


PAR = ('aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')


def ratio(dipole, kw, ab, scale):
    """Documented result from two dipole calls."""
    import numpy as np
    q = {k: v for k, v in kw.items() if k not in ('xdirect', 'scale')}
    Hs = dipole(**dict(q, ab=ab, xdirect=None))
    p = dict(q, ab=coplanar(ab), xdirect=True, depth=[])
    for k in ('res',)+PAR:
        if p.get(k) is not None:
            p[k] = np.atleast_1d(p[k])[0]
    Hp = dipole(**p)
    return scale*Hs/Hp


def t_ipq(t, ab, fm, pars, batch, sc, extra):
    import numpy as np
    from symx import load
    from symx.core import var, CSym
    from symx.npx import SArr
    ns, nr, nf = batch
    nl = 3
    src = [[var(f'sx{i}', lo=-50, hi=50) for i in range(ns)],
           [var(f'sy{i}', lo=-50, hi=50) for i in range(ns)],
           var('sz', lo=-90, hi=-10)]
    rec = [[var(f'rx{i}', lo=200, hi=300) for i in range(nr)],
           [var(f'ry{i}', lo=-50, hi=50) for i in range(nr)],
           var('rz', lo=-80, hi=-20)]
    kw = dict(src=src, rec=rec, depth=[0, 100],
              res=[var('res0', lo=1e12, hi=2e14)] +
              [var(f'res{i}', lo=1, hi=9) for i in range(1, nl)],
              freqtime=[var(f'f{i}', lo=1e3+1e3*i, hi=1.5e3+1e3*i)
                        for i in range(nf)], verb=0)
    for k in pars:
        kw[k] = [var(f'{k}{i}', lo=1, hi=3) for i in range(nl)]
    kw.update(extra)
    scale = var('scale', lo=.5, hi=1e6) if sc else 1e3
    S = api.Stubs()
    case = api.kwcase('ipq', ab=ab, form=fm, scale=scale, sc=sc, kw=kw)

    def L():
        k = dict(kw, ab=form(ab, fm))
        if sc:
            k['scale'] = scale
        a, b = load.model.ip_and_q(**k)
        return np.array([api.arr(a), api.arr(b)])

    def R():
        H = api.arr(ratio(load.model.dipole, kw, ab, scale))
        o = np.empty((2,)+H.shape, dtype=object)
        for i in np.ndindex(H.shape):
            c = CSym.of(H[i])
            o[(0,)+i], o[(1,)+i] = c.re, c.im
        return o.view(SArr)
    api.compare(t, f'ab {ab}', L, R, S, case, twin=True, attrs=[
        (load.model, 'EMArray', lambda d: api.arr(d).view(SArr))])


def t_reject(t, ab, extra):
    from symx import load
    kw = dict(src=[0, 0, -10], rec=[100, 0, -20], depth=[0], res=[2e14, 1.],
              freqtime=1., verb=0, ab=ab, **extra)
    S = api.Stubs()

    class Computed(Exception):
        pass

    def dipole(**k):
        load.utils.check_ab(k['ab'], 0)
        raise Computed
    try:
        with api.env(S, attrs=[(load.model, 'dipole', dipole)]):
            load.model.ip_and_q(**kw)
    except ValueError:
        t.passed('rejected')
        return
    except Computed:
        pass
    t.fail('rejected', dict(kind='rej', ab=ab, extra=extra))


def replay(c):
    import numpy as np
    import empymod
    if c['kind'] == 'rej':
        try:
            empymod.model.ip_and_q(
                src=[0, 0, -10], rec=[100, 0, -20], depth=[0], res=[2e14, 1.],
                freqtime=1., verb=0, ab=c['ab'], **c['extra'])
        except ValueError:
            return False, 'rejected'
        return True, f"ab {c['ab']} {c['extra']} computed"
    kw = c['kw']
    k = dict(kw, ab=form(c['ab'], c['form']))
    if c['sc']:
        k['scale'] = c['scale']
    try:
        ip, q = empymod.model.ip_and_q(**k)
    except Exception as e:
        return True, f'raises {e!r}'
    H = np.asarray(ratio(empymod.dipole, kw, c['ab'], c['scale']))
    if np.shape(ip) != H.shape or np.iscomplexobj(ip):
        return True, f'shape/type {np.shape(ip)} {H.shape}'
    d = np.max(abs(np.asarray(ip)+1j*np.asarray(q)-H)/(abs(H)+1e-300))
    return not d < 1e-6, (
        f"ab {form(c['ab'], c['form'])!r}: {ip}, {q}, ratio {H}")


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C31', 'c31', api.FUNCTIONS + ['empymod.model.ip_and_q'],
                dict(batch='1-2 sources x 1-2 receivers x 1-2 frequencies, '
                     '3 layers', codes='all 9 codes as int, str, float, '
                     'numpy integer', values='positions, media, '
                     'frequencies, scale symbolic'), api.ASSUME)
    T = chk.add
    for ab in CODES:
        for fm in FORMS:
            for sc in (False, True):
                T(t_ipq, f'{ab}{fm}{sc}', ab, fm, (), (1, 1, 1), sc, {})
        for pars in [(p,) for p in PAR]+[PAR]:
            T(t_ipq, f'{ab}{pars}', ab, 'int', pars, (1, 1, 2), True, {})
        for b in ((2, 2, 1), (1, 2, 2), (2, 1, 2), (2, 2, 2)):
            T(t_ipq, f'{ab}{b}', ab, 'int', PAR[1:3], b, True, {})
        for x in (None, True, False):
            T(t_ipq, f'{ab}x{x}', ab, 'int', (), (1, 1, 1), True,
              dict(xdirect=x))
        T(t_ipq, f'{ab}sq', ab, 'int', (), (1, 2, 1), True,
          dict(squeeze=False, loop='off'))
        T(t_ipq, f'{ab}qwe', ab, 'int', (), (1, 2, 1), True,
          dict(ht='quad', aniso=None, mpermV=None))
    for ab in (11, 14, 41, 33, 36, 63):
        T(t_reject, f'rej{ab}', ab, {})
    for s in (0, 1, -1):
        T(t_reject, f'sig{s}', 44, dict(signal=s))
    return chk
