"""C15: eta / zeta follow their definitions per frequency and layer."""
import itertools

from . import api
from .c12 import wnr

OPT = ('aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')


def params(n, given, equal=False):
    from symx.core import var
    p = {'res': [var(f'res{i}', pos=True, lo=0.5, hi=50) for i in range(n)]}
    for k in OPT:
        if k in given:
            p[k] = [var(f'{k}{i}', pos=True, lo=0.5, hi=9) for i in range(n)]
        else:
            p[k] = None
    return p


def spec(p, f, laplace, i, pi):
    """(etaH, etaV, zetaH, zetaV) of layer i (given order)."""
    mu0 = 4e-7*pi
    eps0 = 1/(mu0*299792458**2)
    s = -f if laplace else 2j*pi*f
    one = 1
    g = lambda k: p[k][i] if p[k] is not None else None
    an = g('aniso')
    an = one if an is None else an
    eh = g('epermH')
    eh = one if eh is None else eh
    ev = g('epermV')
    ev = eh if ev is None else ev
    mh = g('mpermH')
    mh = one if mh is None else mh
    mv = g('mpermV')
    mv = mh if mv is None else mv
    r = p['res'][i]
    return (1/r + s*eps0*eh, 1/(r*an*an) + s*eps0*ev, s*mu0*mh, s*mu0*mv)


def freqs(nf, lap):
    from symx.core import var
    # mixed: at least one positive frequency
    return [(-1 if lap else 1)*var(f'f{i}', pos=True, lo=0.1, hi=1e5)
            for i in range(nf)]


def depths(n, order):
    d = [0., 100., 250., 700., 900., 1000.][:n-1]
    return d if order == 'up' else d[::-1]


def t_direct(t, n, order, given, nf, lap, hook):
    import numpy as np
    from symx import load, solve
    from symx.core import PI
    p = params(n, given)
    f = freqs(nf, lap)
    d = depths(n, order)
    q = {k: p[k] for k in OPT}
    case = api.kwcase('direct', p=p, f=f, depth=d, lap=lap, hook=hook)

    def run():
        with load.symbolic(load.utils):
            r = dict(res=list(p['res']), func_eta=None) if hook else \
                list(p['res'])
            m = load.utils.check_model(d, r, xdirect=True, verb=0, **q)
            return (m[:7] + (bool(m[7]),),
                    load.utils.check_frequency(f, *m[1:7], verb=0))
    cnt = 0
    for pc, o in solve.paths(run):
        cnt += 1
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', case, repr(o)[:200], env=e)
            continue
        m, fr = o
        for j in range(nf):
            t.eq('freq', fr[0][j], -f[j] if lap else f[j], pc, case=case)
            for i in range(n):
                k = i if order == 'up' else n-1-i
                s = spec(p, f[j], lap, i, PI())
                for w in range(4):
                    a = np.asarray(fr[1+w], dtype=object)
                    if a.shape != (nf, n):
                        t.fail(f'shape {a.shape}', case,
                               env=solve.pc_model(pc))
                        return
                    t.eq(('etaH', 'etaV', 'zetaH', 'zetaV')[w], a[j, k],
                         s[w], pc, case=case)
                if t.full():
                    return
        # declared a full-space only if all layers are the same
        if bool(m[7]):
            from symx import core
            for k in ('res',) + OPT:
                if p[k] is None or hook:
                    continue
                for i in range(1, n):
                    t.claim(f'full-space: {k}', p[k][i] == p[k][0], pc,
                            case=case)
            if hook:
                t.fail('full-space with hook', case, env=solve.pc_model(pc))
    if not cnt:
        t.errors.append('no path')


def t_routine(t, fn, n, order, given, nf, lap, extra):
    """The same at the kernels, called through the modelling routines."""
    import numpy as np
    from symx import load, solve
    from symx.core import PI
    p = params(n, given)
    f = freqs(nf, lap)
    kw = {k: v for k, v in p.items() if v is not None}
    kw.update(extra, verb=0)
    S = api.Stubs(real=lap)
    attrs = []
    src, rec = [0., 0., 130.], [300., 40., 170.]
    if fn == 'bipole':
        src, rec = src+[0, 0], rec+[90, 0]
    if fn == 'analytical':
        kw['res'] = p['res'][0]
        kw.update({k: p[k][0] for k in given})
    else:
        kw['depth'] = depths(n, order)
    if fn == 'dipole_k':
        w = wnr(S)

        def wn(*a, **k):
            S.calls.append(('wn', dict(api._bind(w.real)(a, k))))
            return w(*a, **k)
        attrs.append((load.kernel, 'wavenumber', wn))
        kw['freq'] = f
        kw['wavenumber'] = np.array([0.01])
    else:
        kw['freqtime'] = f
    case = api.kwcase('routine', fn=fn, src=src, rec=rec, p=p, f=f, lap=lap,
                      order=order, n=n, kw=kw)

    def run():
        S.calls.clear()
        getattr(load.model, fn)(src, rec, **kw)
        return list(S.calls)
    cnt = 0
    for pc, o in api.run(run, S, attrs=attrs, one=False):
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', case, repr(o)[:200], env=e)
            continue
        for kind, q in o:
            cnt += 1
            a = [np.asarray(q[k], dtype=object) for k in
                 ('etaH', 'etaV', 'zetaH', 'zetaV')]
            lay = None
            if a[0].ndim == 1:      # full-space: one layer
                lay = 0
                if n > 1:
                    lay = int(api._sc(o[-1][1]['lrec'])) if \
                        'lrec' in o[-1][1] else None
                if lay is None:
                    continue
            for j in range(nf):
                for i in range(n):
                    k = i if order == 'up' else n-1-i
                    if lay is not None and k != lay:
                        continue
                    s = spec(p, f[j], lap, i, PI())
                    for w_ in range(4):
                        v = a[w_][j] if lay is not None else a[w_][j, k]
                        t.eq(f'{kind}{w_}', v, s[w_], pc, case=case)
                    if t.full():
                        return
    if not cnt:
        t.errors.append('no call')


def replay(c):
    import math
    import numpy as np
    from empymod import utils
    p, f = c['p'], c['f']
    if c['kind'] == 'direct':
        r = dict(res=p['res'], func_eta=None) if c['hook'] else p['res']
        try:
            m = utils.check_model(c['depth'], r, xdirect=True, verb=0,
                                  **{k: p[k] for k in OPT})
            o = utils.check_frequency(f, *m[1:7], verb=0)
        except Exception as e:
            return True, f'raises {e!r}'
        a = o[1:]
        n = len(p['res'])
        down = len(c['depth']) > 1 and c['depth'][0] > c['depth'][-1]
        if bool(m[7]) and any(p[k] is not None and
                              len(set(p[k])) > 1 for k in ('res',)+OPT):
            return True, 'different layers treated as full-space'
    else:
        calls = []
        from empymod import model, transform, kernel
        mod, nm = (kernel, 'wavenumber') if c['fn'] == 'dipole_k' else (
            (kernel, 'fullspace') if c['fn'] == 'analytical' else
            (transform, 'hankel_dlf'))
        real = getattr(mod, nm)
        b = api._bind(getattr(real, 'py_func', real))

        def spy(*aa, **kk):
            calls.append(dict(b(aa, kk)))
            return real(*aa, **kk)
        setattr(mod, nm, spy)
        try:
            kw = dict(c['kw'])
            if 'wavenumber' in kw:
                kw['wavenumber'] = np.array(kw['wavenumber'])
            if nm == 'hankel_dlf':
                kw['xdirect'] = False
            getattr(model, c['fn'])(c['src'], c['rec'], **kw)
        except Exception as e:
            return True, f'raises {e!r}'
        finally:
            setattr(mod, nm, real)
        if not calls:
            return False, 'no call'
        a = [calls[0][k] for k in ('etaH', 'etaV', 'zetaH', 'zetaV')]
        a = [q[:, None] if q.ndim == 1 else q for q in a]
        n = 1 if c['fn'] == 'analytical' else c['n']
        down = c['order'] == 'down'
    for j, fr in enumerate(f):
        for i in range(n):
            k = n-1-i if down else i
            s = spec(p, fr, c['lap'], i, math.pi)
            for w in range(4):
                v = complex(a[w][j, k])
                if abs(v-s[w]) > 1e-9*abs(s[w]) or \
                        abs((v-s[w]).imag) > 1e-6*abs(complex(s[w]).imag):
                    return True, (
                        f"{('etaH', 'etaV', 'zetaH', 'zetaV')[w]} of layer "
                        f"{i} at {fr}: {v} instead of {s[w]} (model {p})")
    return False, 'eta/zeta as defined'


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C15', 'c15', ['empymod.utils.check_model',
                               'empymod.utils.check_frequency',
                               'empymod.model.bipole', 'empymod.model.dipole',
                               'empymod.model.dipole_k',
                               'empymod.model.analytical',
                               'empymod.model.fem'], dict(
        model='1-4 layers, every subset of the optional parameters, both '
        'orders of the layers, with and without hook dictionary',
        values='1-3 frequencies or Laplace values; all parameters symbolic '
        'positive (minima: C21)'), api.ASSUME[:1])
    T = chk.add
    for r in range(6):
        for given in itertools.combinations(OPT, r):
            for lap in (False, True):
                for n, order, nf in ((1, 'up', 1), (2, 'up', 2),
                                     (3, 'up', 3), (3, 'down', 2),
                                     (4, 'down', 1), (4, 'up', 1)):
                    for hook in (False, True):
                        if hook and n == 4:
                            continue
                        if not chk.thorough and n > 2 and r in (2, 3) and \
                                hook:
                            continue
                        T(t_direct, f'd{given}{lap}{n}{order}{nf}{hook}', n,
                          order, given, nf, lap, hook)
    for fn in ('bipole', 'dipole', 'dipole_k', 'analytical'):
        for given in ((), OPT, ('aniso',), ('epermH', 'mpermH'),
                      ('epermV', 'mpermV')):
            for lap in (False, True):
                for n, order in ((1, 'up'), (3, 'up'), (4, 'down')):
                    if fn == 'analytical' and n > 1:
                        continue
                    for ex in ((dict(),) if fn == 'bipole' else
                               (dict(ab=11), dict(ab=24), dict(ab=63),
                                dict(ab=46))):
                        if fn == 'dipole_k' and ex.get('ab') == 63:
                            continue
                        if ex.get('ab') == 63:
                            ex = dict(ab=33)
                        T(t_routine, f'{fn}{given}{lap}{n}{order}{ex}', fn,
                          n, order, given, 2, lap, ex)
    return chk
