"""C21: minima are enforced, independent of each other and reported."""
import itertools

from . import api
from .c12 import wnr, half

NAMES = ('min_freq', 'min_time', 'min_off', 'min_res', 'min_angle')
DEFAULT = dict(min_freq=1e-20, min_time=1e-20, min_off=1e-3, min_res=1e-20,
               min_angle=1e-10)


class keep:
    """Restore the minima afterwards, whatever happens."""

    def __init__(self, utils, **now):
        self.u, self.now = utils, now

    def __enter__(self):
        self.old = dict(self.u.get_minimum())
        self.u.set_minimum(**self.now)

    def __exit__(self, *a):
        self.u.set_minimum(**self.old)


def smax(a, b):
    """max as a pair of implications: list of claims for r = max(a, b)."""
    from symx import core

    def claims(r):
        a_, b_, r_ = core.lift(a), core.lift(b), core.lift(r)
        return [('at least the minimum', r_ >= b_),
                ('at least the input', r_ >= a_),
                ('one of both', core.sor(r_ == a_, r_ == b_))]
    return claims


def mins():
    from symx.core import var
    return {n: var(n, pos=True, lo=1e-3, hi=50) for n in NAMES}


def t_defaults(t):
    from symx import load
    d = load.utils.get_minimum()
    for n in NAMES:
        if n in d and float(d[n]) == DEFAULT[n]:
            t.passed(n)
        else:
            t.fail(n, dict(kind='default'))
    if set(d) != set(NAMES):
        t.fail('keys', dict(kind='default'))


def t_set(t, names, zero):
    """From any state: only the given ones change; reported as set."""
    from symx import load, core, solve
    from symx.core import var
    old = mins()
    new = {n: (var('new_'+n, lo=-1, hi=1) if not zero else core.const(0))
           for n in names}

    def f():
        with keep(load.utils, **old):
            with load.symbolic(load.utils):
                load.utils.set_minimum(**new)
                return dict(load.utils.get_minimum())
    case = api.kwcase('set', old=old, new=new)
    for pc, o in solve.paths(f):
        if isinstance(o, Exception):
            t.fail('raises', case, repr(o), env=solve.pc_model(pc))
            continue
        if set(o) != set(NAMES):
            t.fail('keys', case, env=solve.pc_model(pc))
            continue
        for n in NAMES:
            t.eq(n, o[n], new.get(n, old[n]), pc, case=case)


def explore(t, f, case, check):
    from symx import solve
    n = 0
    for pc, o in solve.paths(f):
        n += 1
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', case, repr(o)[:200], env=e)
            continue
        check(pc, o)
        if t.full():
            return
    if not n:
        t.errors.append('no path')


def claims(t, nm, r, a, b, pc, case):
    for c, x in smax(a, b)(r):
        t.claim(f'{nm}: {c}', x, pc, case=case)


def t_freq(t, n, sign):
    from symx import load
    from symx.core import var, PI, CSym, lift
    m = mins()
    f = [var(f'f{i}', lo=0 if sign > 0 else -60, hi=60 if sign > 0 else 0)
         for i in range(n)]
    if sign > 0:
        f[0] = var('fp', pos=True, lo=0, hi=60)     # at least one positive
    elif sign < 0:
        f = [-var(f'fn{i}', pos=True, lo=0, hi=60) for i in range(n)]
    case = api.kwcase('freq', f=f, m=m)

    def g():
        with keep(load.utils, **m), load.symbolic(load.utils):
            import numpy as np
            return load.utils.check_frequency(
                list(f), np.array([1., 2.]), np.array([1., 1.]),
                np.array([1., 1.]), np.array([1., 1.]), np.array([1., 1.]),
                np.array([1., 1.]), 0)

    def check(pc, o):
        for i in range(n):
            a = f[i] if sign > 0 else -f[i]
            claims(t, 'frequency', o[0][i], a, m['min_freq'], pc, case)
            # ... and it is that frequency which is used
            for q in (0, 1):
                z = CSym.of(o[3][i, q])
                s = CSym(0, 2*PI()*o[0][i]) if sign > 0 else CSym(
                    lift(o[0][i]), 0)
                t.eq('used', z, s*(4e-7*PI()), pc, case=case)
    explore(t, g, case, check)


def t_time(t, n, new):
    from symx import load
    from symx.core import var
    m = mins()
    x = [var(f't{i}', lo=-10, hi=60) for i in range(n)]
    case = api.kwcase('time', x=x, m=m, new=new)

    def g():
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with keep(load.utils, **m), load.symbolic(load.utils):
                o = load.utils.check_time_only(list(x), 0, 0, new=new)
        return o[0] if new else o

    def check(pc, o):
        for i in range(n):
            claims(t, 'time', o[i], x[i], m['min_time'], pc, case)
    explore(t, g, case, check)


def t_model(t, n, down, hook):
    from symx import load
    from symx.core import var
    m = mins()
    depth = [10.*i for i in range(n-1)]
    if down:
        depth = depth[::-1]
    res = [var(f'r{i}', lo=-10, hi=60) for i in range(n)]
    an = [var(f'a{i}', lo=0, hi=5) for i in range(n)]
    case = api.kwcase('model', depth=depth, res=res, an=an, m=m, hook=hook)

    def g():
        with keep(load.utils, **m), load.symbolic(load.utils):
            r = dict(res=list(res), func_eta=None) if hook else list(res)
            o = load.utils.check_model(depth, r, list(an), None, None, None,
                                       None, True, 0)
        return (o[1]['res'] if hook else o[1]), o[2]

    def check(pc, o):
        d = -1 if down else 1
        import numpy as np
        rr, aa = [np.asarray(q, dtype=object)[::d] for q in o]
        for i in range(n):
            claims(t, 'resistivity', rr[i], res[i], m['min_res'], pc, case)
            # vertical resistivity
            claims(t, 'vertical', aa[i]*aa[i]*rr[i], an[i]*an[i]*rr[i],
                   m['min_res'], pc, case)
    explore(t, g, case, check)


def t_off(t, ns, nr, coincide):
    from symx import load, core
    from symx.core import var
    from symx.layered import oarr
    m = mins()
    src = [oarr([var(f'sx{i}', lo=-2, hi=2) for i in range(ns)]),
           oarr([var(f'sy{i}', lo=-2, hi=2) for i in range(ns)])]
    rec = [oarr([var(f'rx{i}', lo=-2, hi=4) for i in range(nr)]),
           oarr([var(f'ry{i}', lo=-2, hi=4) for i in range(nr)])]
    if coincide:
        rec[0][0], rec[1][0] = src[0][0], src[1][0]
    case = api.kwcase('off', src=src, rec=rec, m=m)

    def g():
        with keep(load.utils, **m), load.symbolic(load.utils):
            return load.utils.get_off_ang(src, rec, ns, nr, 0)

    def check(pc, o):
        off, ang = o
        for i in range(ns):
            for j in range(nr):
                dx, dy = rec[0][j]-src[0][i], rec[1][j]-src[1][i]
                k = i*nr+j
                if coincide and i == j == 0:
                    t.eq('offset', off[k], m['min_off'], pc, case=case)
                    t.eq('angle', ang[k], core.const(0), pc, case=case)
                    continue
                claims(t, 'offset', off[k], core.sqrt(dx*dx+dy*dy),
                       m['min_off'], pc, case)
                t.eq('angle', ang[k], core.atan2(dy, dx), pc, case=case)
    explore(t, g, case, check)


def t_fact(t, ab, msrc, mrec):
    """Angle factors below the minimum are zero, others are kept."""
    from symx import load, core
    from symx.core import var
    from symx.layered import oarr
    from symx.npx import emap
    m = mins()
    core.CTX.varinfo['min_angle'].update(lo=1e-4, hi=0.5)
    v = [var(q, lo=-3, hi=3) for q in ('sa', 'sd', 'ra', 'rd')]
    case = api.kwcase('fact', ab=ab, v=v, m=m, msrc=msrc, mrec=mrec)

    def g():
        a = [oarr([q]) for q in v]
        ab_ = {'abs': lambda x: emap(core.absu, x)}
        with load.symbolic(load.utils, extra=ab_):
            with keep(load.utils, **dict(m, min_angle=0)):
                raw = load.utils.get_geo_fact(ab, a[0], a[1], a[2], a[3],
                                              msrc, mrec)
            with keep(load.utils, **m):
                o = load.utils.get_geo_fact(ab, a[0], a[1], a[2], a[3],
                                            msrc, mrec)
        return raw, o

    def check(pc, o):
        raw, r = [core.lift(q[0, 0]) for q in o]
        z, mn = core.const(0), m['min_angle']
        small = core.absu(raw) < mn
        t.claim('small is zero', core.sor(~small, r == z), pc, case=case)
        t.claim('other kept', core.sor(small, r == raw), pc, case=case)
    explore(t, g, case, check)


def t_public(t, fn, extra):
    """A zero offset / frequency / time never produces 0/0 and reaches the
    kernels as the minimum."""
    from symx import load, core
    from symx.core import var, CSym
    import numpy as np
    m = mins()
    m['min_res'], m['min_time'] = 1e-20, 1e-20
    x, y = var('x', lo=-5, hi=5), var('y', lo=-5, hi=5)
    S = api.Stubs()
    attrs = [(load.kernel, 'wavenumber', wnr(S)),
             (load.kernel, 'halfspace', half(S))]
    src, rec = [x, y, 10.], [x, y, 20.]
    if fn == 'bipole':
        src, rec = src+[0, 0], rec+[0, 0]
    kw = dict(src=src, rec=rec, verb=0, **extra)
    fq = 'freq' if fn == 'dipole_k' else 'freqtime'
    f0 = var('f0', pos=True, lo=0.01, hi=2)
    kw[fq] = [f0, 200.]
    if fn == 'dipole_k':
        kw['wavenumber'] = np.array([0.01])
    case = api.kwcase('public', fn=fn, kw=kw, m=m)

    def g():
        S.calls.clear()
        with keep(load.utils, **m), api.env(S, attrs=attrs):
            o = getattr(load.model, fn)(**kw)
        return o, list(S.calls)

    def check(pc, o):
        mf = m['min_freq']
        for kind, q in o[1]:
            if 'off' in q:
                off = np.asarray(q['off'], dtype=object).reshape(-1)
                t.eq(f'{kind} offset', off[0], m['min_off'], pc, case=case)
            z = np.asarray(q['zetaH'], dtype=object)
            if z.shape[0] == 2:
                z = CSym.of(z.reshape(2, -1)[0, 0]).im
                claims(t, f'{kind} frequency', z/(8e-7*core.PI()**2), f0, mf,
                       pc, case)
        if not o[1] and fn != 'dipole_k':
            t.errors.append('no calls')
    explore(t, g, case, check)


def replay(c):
    import warnings
    import numpy as np
    from empymod import utils
    k = c['kind']
    if k == 'default':
        d = utils.get_minimum()
        return d != DEFAULT, f'defaults {d}'
    if k == 'set':
        with keep(utils, **c['old']):
            utils.set_minimum(**c['new'])
            d = dict(utils.get_minimum())
        e = dict(c['old'], **c['new'])
        return d != e, f'set {c["new"]} in state {c["old"]}: reports {d}'
    m = c['m']
    with keep(utils, **m), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return _replay(c, k, m, utils, np)
        except Exception as e:
            return True, f'{c} raises {e!r}'


def _replay(c, k, m, utils, np):
    one = np.array([1., 1.])
    if k == 'freq':
        f = np.array(c['f'], dtype=float)
        o = utils.check_frequency(c['f'], one, one, one, one, one, one, 0)
        lap = not np.any(f > 0)
        e = np.maximum(-f if lap else f, m['min_freq'])
        z = e*(4e-7*np.pi)*(1 if lap else 2j*np.pi)
        bad = not np.allclose(o[0], e, rtol=1e-12, atol=0) or \
            not np.allclose(o[3][:, 0], z, rtol=1e-9, atol=0)
        return bad, f'freq {f}, min {m["min_freq"]}: {o[0]}'
    if k == 'time':
        o = utils.check_time_only(c['x'], 0, 0, new=c['new'])
        o = o[0] if c['new'] else o
        e = np.maximum(c['x'], m['min_time'])
        return not np.allclose(o, e, rtol=1e-12, atol=0), \
            f'time {c["x"]}, min {m["min_time"]}: {o}'
    if k == 'model':
        r = c['res']
        if c['hook']:
            r = dict(res=r, func_eta=None)
        o = utils.check_model(c['depth'], r, c['an'], None, None, None, None,
                              True, 0)
        rr = o[1]['res'] if c['hook'] else o[1]
        aa = o[2]
        if len(c['depth']) > 1 and c['depth'][0] > c['depth'][-1]:
            rr, aa = rr[::-1], aa[::-1]
        er = np.maximum(c['res'], m['min_res'])
        ea = np.sqrt(np.maximum(np.array(c['an'])**2*er, m['min_res'])/er)
        bad = not (np.allclose(rr, er, rtol=1e-9, atol=0) and
                   np.allclose(aa, ea, rtol=1e-9, atol=0))
        return bad, f'res {c["res"]} aniso {c["an"]} -> {rr}, {aa}'
    if k == 'off':
        s, r = np.array(c['src']), np.array(c['rec'])
        o, a = utils.get_off_ang(s, r, s.shape[1], r.shape[1], 0)
        dx = (r[0][None, :]-s[0][:, None]).ravel()
        dy = (r[1][None, :]-s[1][:, None]).ravel()
        e = np.maximum(np.hypot(dx, dy), m['min_off'])
        bad = not (np.allclose(o, e, rtol=1e-9, atol=1e-12) and
                   np.allclose(a, np.arctan2(dy, dx), atol=1e-9))
        return bad, f'offset {o}, angle {a}; expected {e}'
    if k == 'fact':
        v = [np.array([q]) for q in c['v']]
        a = (c['ab'], v[0], v[1], v[2], v[3], c['msrc'], c['mrec'])
        o = utils.get_geo_fact(*a)[0, 0]
        with keep(utils, min_angle=0):
            r = utils.get_geo_fact(*a)[0, 0]
        e = 0 if abs(r) < m['min_angle'] else r
        return abs(o-e) > 1e-12, f'factor {o}, expected {e}'
    if k == 'public':
        kw = dict(c['kw'])
        if 'wavenumber' in kw:
            kw['wavenumber'] = np.array(kw['wavenumber'])
        kw['src'], kw['rec'] = list(kw['src']), list(kw['rec'])
        f = api.real_call(c['fn'], kw)
        # same result for the explicit minimum
        fq = 'freq' if 'freq' in kw else 'freqtime'
        kw[fq] = [max(kw[fq][0], m['min_freq']), 200.]
        kw['rec'] = [kw['rec'][0] + m['min_off']] + kw['rec'][1:]
        if m['min_off'] > 0.3:
            # away from the rounding of coordinates
            pass
        with keep(utils, min_freq=1e-20, min_off=1e-3):
            g = api.real_call(c['fn'], kw)
        bad = not np.all(np.isfinite(f)) or api.ndiff(f, g) > 1e-4
        return bad, f'{c["fn"]} at the minima: {f.ravel()[:3]} {g.ravel()[:3]}'
    raise ValueError(k)


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C21', 'c21', ['empymod.utils.set_minimum',
                               'empymod.utils.get_minimum',
                               'empymod.utils._check_min',
                               'empymod.utils.check_frequency',
                               'empymod.utils.check_time_only',
                               'empymod.utils.check_model',
                               'empymod.utils.get_off_ang',
                               'empymod.utils.get_geo_fact'], dict(
        states='all minima symbolic; every subset of them set to symbolic '
        'values or zero', arrays='1-4 frequencies/times, 1-3 layers, 1-2 x '
        '1-3 offsets, all values symbolic of any sign'), api.ASSUME[:1])
    T = chk.add
    T(t_defaults, 'defaults')
    for n in range(6):
        for s in itertools.combinations(NAMES, n):
            T(t_set, f'set {s}', s, False)
            T(t_set, f'set0 {s}', s, True)
    for n in (1, 2, 3, 4):
        for sg in (1, -1):
            T(t_freq, f'freq {n}{sg}', n, sg)
        for new in (True, False):
            T(t_time, f'time {n}{new}', n, new)
    for n in (1, 2, 3):
        for down in (False, True):
            for hook in (False, True):
                if n < 3 and down:
                    continue
                T(t_model, f'model {n}{down}{hook}', n, down, hook)
    for ns in (1, 2):
        for nr in (1, 2, 3):
            for c in (True, False):
                if ns*nr > 2 + c and not chk.thorough:
                    continue
                T(t_off, f'off {ns}{nr}{c}', ns, nr, c)
    for ab in range(11, 67):
        if 1 <= ab % 10 <= 6:
            ms, mr = ab % 10 > 3, ab // 10 > 3
            T(t_fact, f'fact {ab}', ab, ms, mr)
            if mr:
                T(t_fact, f'factx {ab}', ab, False, True)
    lay = dict(depth=[0., 100.], res=[2e14, 1., 3.])
    full = dict(depth=[], res=[3.])
    for ab in (11, 14, 33, 42, 55):
        for d in (lay, full):
            T(t_public, f'dipole {ab}{len(d["res"])}', 'dipole',
              dict(d, ab=ab))
        T(t_public, f'ana {ab}', 'analytical', dict(
            res=3., solution='fs', ab=ab))
    T(t_public, 'bipole', 'bipole', dict(lay))
    T(t_public, 'bipolem', 'bipole', dict(lay, mrec=True))
    return chk
