"""C29: inconsistent or impossible input is rejected, never computed."""
import copy
from . import api

ROUT = ('bipole', 'dipole', 'analytical', 'gpr', 'dipole_k')
PAR = ('res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')
DOC = set('src rec depth res freqtime freq wavenumber signal ab aniso epermH '
          'epermV mpermH mpermV verb ht htarg ft ftarg xdirect loop msrc '
          'srcpts mrec recpts strength squeeze bandpass solution cf gain'
          .split())


class Computed(Exception):
    """The routine went on to the modelling."""

    def __init__(self, **k):
        Exception.__init__(self)
        self.__dict__.update(k)


def base_kw(name):
    kw = dict(src=[0, 0, 10], rec=[50, 0, 20], verb=0)
    if name == 'bipole':
        kw.update(src=[0, 0, 10, 0, 0], rec=[50, 0, 20, 0, 0])
    kw['freq' if name == 'dipole_k' else 'freqtime'] = 1.
    if name != 'analytical':
        kw['depth'] = []
    kw['res'] = [1.]
    if name == 'dipole_k':
        import numpy as np
        kw['wavenumber'] = np.array([1e-3])
    if name == 'gpr':
        kw.update(cf=1e8, freqtime=1e-8)
    return kw


# -- strings, signals, attributes (path executor on z3 strings and reals) ----

class stops:
    """Modelling replaced by 'Computed'; builtins keep symbolic values."""

    def __init__(self, at='fem'):
        self.at = at

    def __enter__(self):
        import numpy as np
        from symx import load, strs
        m, k = load.model, load.kernel
        self.saved = []

        def comp(*a, **q):
            raise Computed(kind='kernel', args=a, kw=q)

        def fem(*a, **q):
            b = self.sig['fem'](a, q)
            if self.at == 'fem':
                raise Computed(kind='fem', **b)
            n = (np.size(b['freq']), np.size(b['off']))
            return np.zeros(n, dtype=complex), 1, True

        def tem(*a, **q):
            raise Computed(kind='tem', **self.sig['tem'](a, q))
        self.sig = {'fem': api._bind(m.fem), 'tem': api._bind(m.tem)}
        strs.SymStr.CONST = strs.constants(
            load.utils, m, more=dir(load.filters.Hankel()) +
            dir(load.filters.Fourier()))
        for o, n, v in [(m, 'fem', fem), (m, 'tem', tem),
                        (k, 'fullspace', comp), (k, 'halfspace', comp),
                        (k, 'wavenumber', comp)]:
            self.saved.append((o, n, getattr(o, n)))
            setattr(o, n, v)
        for mod in (load.utils, m):
            mod.getattr, mod.hasattr = strs.sgetattr, strs.shasattr
            mod.int = strs.sint
        return self

    def __exit__(self, *a):
        from symx import load
        for o, n, v in reversed(self.saved):
            setattr(o, n, v)
        for mod in (load.utils, load.model):
            del mod.getattr, mod.hasattr, mod.int


def own(e):
    """Raised on purpose: unknown filter, or filter without attributes."""
    return isinstance(e, AttributeError) and (
        str(e) in ('<sym>', 'base', 'factor', 'j0', 'j1', 'sin', 'cos') or
        'missing' in str(e))


def explore(t, name, kw, ok, case, at='fem', must=None, hit=None):
    """Every path of the call: computed => ok(exc) is valid there,
    rejected => not must (if given)."""
    import z3
    from symx import load, ints
    with stops(at):
        P = ints.paths(lambda: getattr(load.model, name)(**kw()), own)
    n = [0, 0]
    for pc, r in P:
        if isinstance(r, RuntimeError):
            raise r
        if isinstance(r, Computed):
            n[0] += 1
            bad = ints.model(pc, ok(r))
            what = 'impossible input is computed'
        elif isinstance(r, Exception):
            n[1] += 1
            bad = None if must is None else ints.model(pc, z3.Not(must))
            what = 'valid input is rejected'
        else:
            bad, what = ints.model(pc), 'returned'
        if bad is not None:
            t.fail(f'{name}: {what}', lambda e, b=bad: case(b), repr(r)[:100])
        else:
            t.passed(name)
        if t.full():
            return
    t.twins += 1
    if n[0] == 0 or n[1] == 0:
        t.errors.append(f'vacuous: {n} computed/rejected paths')


def sval(e):
    from symx import strs
    return lambda m: strs.strval(m, e)


def t_signal(t, name, wave):
    import z3
    from symx import strs, ints
    s = strs.SR('signal')
    good = z3.Or(*[s.e == v for v in (-1, 0, 1)])

    def kw():
        k = base_kw(name)
        k['signal'] = dict(nodes=[-1., 0.], amplitudes=[1., 0.], signal=s) \
            if wave else s
        if name == 'analytical':
            k['solution'] = 'dhs'
        return k

    def case(m):
        v = m.eval(s.e, model_completion=True)
        return dict(kind='signal', name=name, wave=wave,
                    value=float(v.as_fraction()))
    explore(t, name, kw, lambda r: good, case, must=good)


OPTS = {'ht': ('dlf', 'qwe', 'quad'), 'ft': ('dlf', 'qwe', 'fftlog', 'fft'),
        'solution': ('fs', 'dfs', 'dhs', 'dsplit', 'dtetm'),
        'mrec': ('b', 'j', 'loop'), 'msrc': ('b', 'loop'),
        'kind': ('sin', 'cos')}


def t_option(t, name, opt, dom):
    """One option as symbolic string; dom: signal (None: frequency)."""
    import z3
    from symx import strs
    s = strs.SymStr('s')
    names = OPTS[opt]
    low = opt in ('ht', 'ft')
    m_ = [(z3.InRe(s.e, strs._fold(c)) if low else s.e == z3.StringVal(c), c)
          for c in names]
    exact = [s.e == z3.StringVal(c) for c in names]

    def kw():
        k = base_kw(name)
        if opt == 'kind':
            k['ftarg'] = {'kind': s}
        else:
            k[opt] = s
        if opt in ('msrc', 'mrec'):
            k['src'], k['rec'] = [0, 0, 10, 0, 0], [50, 0, 20, 0, 0]
        if name == 'gpr':
            k['ft'] = k.get('ft', 'dlf')
        elif dom is not None:
            k['signal'] = dom
        return k

    def ok(r):
        acc = z3.Or(*[e for e, _ in m_])
        if opt == 'solution':
            f = s.e == z3.StringVal('fs')
            return z3.And(acc, f if dom is None else z3.Not(f)) \
                if dom is not None else acc
        if low:
            v = getattr(r, opt)
            eqs = []
            for e, c in m_:
                q = v.eqx(c) if isinstance(v, strs.SymStr) else \
                    z3.BoolVal(v == c)
                eqs.append(z3.And(e, q))
            return z3.Or(*eqs)
        if opt == 'kind':
            if dom:
                return z3.BoolVal(r.ftarg['kind'] == {1: 'sin', -1: 'cos'}[
                    dom])
            v = r.ftarg['kind']
            return z3.Or(*[z3.And(e, v.eqx(c) if isinstance(v, strs.SymStr)
                                  else z3.BoolVal(v == c)) for e, c in m_])
        return acc

    def case(m):
        return dict(kind='option', name=name, opt=opt, dom=dom,
                    value=strs.strval(m, s.e))
    must = z3.Or(*exact)
    if opt == 'solution' and dom is not None:
        must = z3.And(must, s.e != z3.StringVal('fs'))
    at = 'tem' if opt in ('ft', 'kind') else 'fem'
    explore(t, name, kw, ok, case, at=at, must=must)


def t_filter(t, name, arg, dom, kind):
    """Filter given by (symbolic) name."""
    import z3
    from symx import strs, load
    s = strs.SymStr('s')

    def kw():
        k = base_kw(name)
        k[arg] = {'dlf': s}
        k['ht'] = 'dlf'
        if arg == 'ftarg':
            if kind:
                k[arg]['kind'] = kind
            if name != 'gpr':
                k['signal'] = dom
            else:
                k['ft'] = 'dlf'
        return k
    F = load.filters.Hankel() if arg == 'htarg' else load.filters.Fourier()
    need = ('base', 'factor') + (('j0', 'j1') if arg == 'htarg' else
                                 (kind or 'sin',))
    good = [n for n in F.available
            if all(hasattr(getattr(F, n), q) for q in need)]

    def ok(r):
        f = getattr(r, arg)['dlf']
        sn = getattr(f, 'savename', None)
        if sn not in good or not all(hasattr(f, q) for q in need):
            return z3.BoolVal(False)
        return s.e == z3.StringVal(sn)

    def case(m):
        return dict(kind='filter', name=name, arg=arg, dom=dom, fkind=kind,
                    value=strs.strval(m, s.e))
    explore(t, name, kw, ok, case, at='tem' if arg == 'ftarg' else 'fem',
            must=z3.Or(*[s.e == z3.StringVal(n) for n in good]))


def t_attrs(t, name, arg, dom, kind):
    """Filter object with a symbolic set of attributes."""
    import numpy as np
    import z3
    from symx import ints
    names = ('base', 'factor', 'j0', 'j1', 'sin', 'cos')
    flags = {n: z3.Bool('has_'+n) for n in names}

    class Filt:
        name = savename = 'given'

        def __getattr__(self, n):
            if n in flags:
                if ints.EX.decide(flags[n]):
                    return 1.1 if n == 'factor' else np.array([.1, 1., 10.])
            raise AttributeError(n)

        def __deepcopy__(self, memo):
            return self

    def kw():
        k = base_kw(name)
        k[arg] = {'dlf': Filt()}
        if arg == 'ftarg':
            if kind:
                k[arg]['kind'] = kind
            k['signal'] = dom
        return k
    need = ('base', 'factor')
    if arg == 'htarg':
        need += ('j0', 'j1')
    else:
        need += ({1: 'sin', -1: 'cos', 0: kind or 'sin'}[dom],)
    good = z3.And(*[flags[n] for n in need])

    def case(m):
        return dict(kind='attrs', name=name, arg=arg, dom=dom, fkind=kind,
                    has=[n for n in names if z3.is_true(m.eval(
                        flags[n], model_completion=True))])
    explore(t, name, kw, lambda r: good, case, must=good,
            at='tem' if arg == 'ftarg' else 'fem')


def t_keyword(t, name):
    """A symbolic keyword."""
    import z3
    from symx import strs, load, ints
    s = strs.SymStr('key')
    fn = getattr(load.model, name)

    def one():
        return fn(**{**base_kw(name), s: 1})
    known = z3.Or(*[s.e == z3.StringVal(c) for c in sorted(DOC)])
    n = [0, 0]
    with stops():
        strs.SymStr.CONST = [c for c in strs.SymStr.CONST
                             if c.isidentifier()]
        P = ints.paths(one, lambda e: isinstance(e, AttributeError))
    for pc, r in P:
        if isinstance(r, RuntimeError):
            raise r
        unknown = ints.model(pc, known)
        if isinstance(r, TypeError):
            n[1] += 1
            t.passed(name)
        elif unknown is None:
            n[0] += 1
            t.passed(name)
        else:
            v = strs.strval(unknown, s.e)
            t.fail(f'{name}: unknown keyword', lambda e, v=v: dict(
                kind='keyword', name=name, value=v), repr(r)[:100])
    t.twins += 1
    if not (n[0] and n[1]):
        t.errors.append(f'vacuous {n}')


# -- arrays (symbolic values) ------------------------------------------------

def accept(t, name, kw, case, must=None, bad=None, assume=(), more=()):
    """Every path: computed => bad is not valid; rejected => not must."""
    from symx import core, load
    S = api.Stubs()

    def comp(*a, **k):
        raise Computed(kind='x')
    attrs = [(load.model, 'fem', comp), (load.kernel, 'wavenumber', comp),
             (load.kernel, 'halfspace', comp),
             (load.kernel, 'fullspace', comp)]
    attrs += [(load.model, q, comp) for q in more]
    n = 0
    for pc, r in api.run(lambda: getattr(load.model, name)(**kw), S,
                         attrs=attrs, assume=assume, one=False):
        n += 1
        pc = list(assume)+list(pc)
        if isinstance(r, (core.Unsupported, AttributeError, NameError)):
            raise r
        if isinstance(r, Computed) or not isinstance(r, Exception):
            c = core.FALSE if bad is True else (
                core.TRUE if bad is None else ~bad)
            t.claim(f'{name}: computed', c, pc, case=case)
        else:
            c = core.FALSE if must is True else (
                core.TRUE if must is None else ~must)
            t.claim(f'{name}: rejected', c, pc, case=case)
        if t.full():
            return
    if n == 0:
        t.errors.append('no path')


def sv(name, n, lo=1, hi=9):
    from symx.core import var
    return [var(f'{name}{i}', lo=lo, hi=hi) for i in range(n)]


def t_depth(t, name, n, inf):
    from symx.core import sand
    from symx.layered import oarr
    import numpy as np
    d = sv('d', n, -1e3, 1e3)
    full = list(d)
    if 'b' in inf:
        full = [-np.inf]+full
    if 'e' in inf:
        full = full+[np.inf]
    if 'r' in inf:
        full = full[::-1]
    kw = base_kw(name)
    z = 2 if name != 'bipole' else 2
    kw['src'][z], kw['rec'][z] = 5e3, 6e3
    kw['depth'] = oarr(full)
    kw['res'] = [float(i+1) for i in range(n+1)]
    up = [d[i+1] > d[i] for i in range(n-1)]
    dn = [d[i+1] < d[i] for i in range(n-1)]
    wup = [d[i+1] >= d[i] for i in range(n-1)]
    wdn = [d[i+1] <= d[i] for i in range(n-1)]
    if inf and 'r' not in inf:
        must, mono = sand(*up), sand(*wup)
    elif inf:
        must, mono = sand(*up), sand(*wup)     # d listed reversed
    else:
        must = sand(*up) | sand(*dn)
        mono = sand(*wup) | sand(*wdn)
    case = api.kwcase('depth', name=name, inf=inf, d=d)
    accept(t, name, kw, case, must=must if n > 1 else True, bad=~mono if
           n > 1 else None)


def t_length(t, name, par, nl, L, usr):
    """Parameter `par` of length L in a model of nl layers."""
    from symx.layered import oarr
    kw = base_kw(name)
    if name != 'analytical':
        kw['depth'] = [100.*i for i in range(nl-1)]
    kw['res'] = sv('res', nl)
    if usr:
        kw['res'] = {'res': kw['res'], 'func_eta': eta, 'usr': None}
        tgt = kw['res']
    else:
        tgt = kw
    two = L == '2d'
    v = oarr(sv('p', nl if two else L))
    tgt[par] = v.reshape(1, -1) if two else v
    if par == 'res' and not usr:
        tgt[par] = v.reshape(1, -1) if two else v
    if usr and par == 'res':
        kw['res']['usr'] = [1.]*nl
    good = L == nl
    case = api.kwcase('length', name=name, par=par, nl=nl, L=str(L), usr=usr)
    accept(t, name, kw, case, must=True if good else None,
           bad=None if good else True)


def eta(inp, pd):
    return pd['etaH'], pd['etaV']


def t_shape(t, name, who, sizes):
    """Source or receiver elements of the given sizes."""
    from symx.layered import oarr
    kw = base_kw(name)
    el = [oarr(sv(f'e{i}', n, 10*(i+1), 10*(i+1)+5)) if n else
          sv(f'e{i}', 1, 10*(i+1), 10*(i+1)+5)[0]
          for i, n in enumerate(sizes)]
    kw[who] = el
    s = [n or 1 for n in sizes]
    if name == 'bipole':
        good = len(s) in (5, 6) and all(q in (1, max(s)) for q in s)
    else:
        good = len(s) == 3 and s[2] == 1 and (
            s[0] == s[1] or 1 in s[:2])
    case = api.kwcase('shape', name=name, who=who, sizes=sizes)
    accept(t, name, kw, case, must=True if good else None,
           bad=None if good else True)


def t_point(t, who, n):
    """A finite bipole without length is rejected."""
    from symx.core import sand, sor
    from symx.layered import oarr
    kw = base_kw('bipole')
    e = [sv(f'e{i}', n, 5, 50) for i in range(6)]
    kw[who] = [oarr(x) if n > 1 else x[0] for x in e]
    zero = sor(*[sand(e[0][i] == e[1][i], e[2][i] == e[3][i],
                      e[4][i] == e[5][i]) for i in range(n)])
    case = api.kwcase('point', who=who, e=e)
    accept(t, 'bipole', kw, case, must=~zero, bad=zero,
           more=('get_azm_dip', 'get_layer_nr'))


# -- replay -----------------------------------------------------------------

def call(name, kw):
    import empymod
    kw = copy.deepcopy(kw)
    try:
        return None, getattr(empymod.model, name)(**kw)
    except Exception as e:
        return e, None


def verdict(name, kw, good, what):
    """good: True must be computed, False must be rejected, None either."""
    e, r = call(name, kw)
    if e is None and good is False:
        return True, f'{name}: {what}: computed {str(r)[:100]}'
    if e is not None and good is True:
        return True, f'{name}: {what}: rejected {e!r}'
    return False, f'{name}: {what}: {"rejected" if e else "computed"}'


def replay(c):
    import numpy as np
    k, name = c['kind'], c.get('name', 'bipole')
    kw = base_kw(name)
    if k == 'signal':
        v = c['value']
        if v == int(v):
            v = int(v)
        kw['signal'] = dict(nodes=[-1., 0.], amplitudes=[1., 0.], signal=v) \
            if c['wave'] else v
        if name == 'analytical':
            kw['solution'] = 'dhs'
        return verdict(name, kw, v in (-1, 0, 1), f'signal {v}')
    if k == 'option':
        opt, v, dom = c['opt'], c['value'], c['dom']
        if opt == 'kind':
            kw['ftarg'] = {'kind': v}
        else:
            kw[opt] = v
        if name == 'gpr':
            kw.setdefault('ft', 'dlf')
        elif dom is not None:
            kw['signal'] = dom
        names = OPTS[opt]
        good = v in names
        if opt in ('ht', 'ft'):
            if not good and v.lower() in names:
                good = None
            # the method must be the one named
            if good is not False:
                ref = dict(kw)
                ref[opt] = v.lower()
                canon = True
                e, r = call(name, kw)
                if e is None:
                    canon = method(name, kw, opt) == v.lower()
                if not canon:
                    return True, f'{name}: {opt}={v!r}: other method used'
        if opt == 'solution' and dom is not None and v == 'fs':
            good = False
        if opt == 'kind' and dom:
            good = True
        return verdict(name, kw, good, f'{opt}={v!r}')
    if k == 'filter':
        from empymod import filters
        arg = c['arg']
        kw[arg] = {'dlf': c['value']}
        kw['ht'] = 'dlf'
        F = filters.Hankel() if arg == 'htarg' else filters.Fourier()
        need = ('base', 'factor', 'j0', 'j1')
        if arg == 'ftarg':
            need = ('base', 'factor', c['fkind'] or 'sin')
            if c['fkind']:
                kw[arg]['kind'] = c['fkind']
            if name == 'gpr':
                kw['ft'] = 'dlf'
            else:
                kw['signal'] = c['dom']
        good = c['value'] in F.available and all(
            hasattr(getattr(F, c['value']), q) for q in need)
        return verdict(name, kw, good, f"{arg} dlf={c['value']!r}")
    if k == 'attrs':
        arg = c['arg']

        class Filt:
            name = savename = 'given'
        f = Filt()
        for n in c['has']:
            setattr(f, n, 1.1 if n == 'factor' else np.array([.1, 1., 10.]))
        kw[arg] = {'dlf': f}
        need = ('base', 'factor', 'j0', 'j1')
        if arg == 'ftarg':
            if c['fkind']:
                kw[arg]['kind'] = c['fkind']
            kw['signal'] = c['dom']
            need = ('base', 'factor',
                    {1: 'sin', -1: 'cos', 0: c['fkind'] or 'sin'}[c['dom']])
        good = all(n in c['has'] for n in need)
        return verdict(name, kw, good, f"{arg} filter with {c['has']}")
    if k == 'keyword':
        kw[c['value']] = 1
        e, r = call(name, kw)
        if e is None:
            return True, f"{name}: unknown keyword {c['value']!r} accepted"
        return False, f'rejected: {e!r}'
    if k == 'depth':
        d = c['d']
        z = 2
        kw['src'][z], kw['rec'][z] = 5e3, 6e3
        full = list(d)
        if 'b' in c['inf']:
            full = [-np.inf]+full
        if 'e' in c['inf']:
            full = full+[np.inf]
        if 'r' in c['inf']:
            full = full[::-1]
        kw['depth'] = full
        kw['res'] = [float(i+1) for i in range(len(d)+1)]
        f = np.diff(np.array(full, dtype=float)) if len(full) > 1 else \
            np.array([])
        good = None
        if np.all(f > 0) or np.all(f < 0):
            good = True
        elif not (np.all(f >= 0) or np.all(f <= 0)):
            good = False
        return verdict(name, kw, good, f'depth {full}')
    if k == 'length':
        nl, par, L = c['nl'], c['par'], c['L']
        if name != 'analytical':
            kw['depth'] = [100.*i for i in range(nl-1)]
        kw['res'] = [float(i+1) for i in range(nl)]
        tgt = kw
        if c['usr']:
            kw['res'] = tgt = {'res': kw['res'], 'func_eta': eta,
                               'usr': [1.]*nl}
        v = np.arange(1., 1+(nl if L == '2d' else int(L)))
        tgt[par] = v[None, :] if L == '2d' else v
        return verdict(name, kw, L == str(nl), f'{par} of length {L} in '
                       f'{nl} layers')
    if k == 'shape':
        s = [n or 1 for n in c['sizes']]
        kw[c['who']] = [np.arange(n)+10.*(i+1) if n else 10.*(i+1)
                        for i, n in enumerate(c['sizes'])]
        if name == 'bipole':
            good = len(s) in (5, 6) and all(q in (1, max(s)) for q in s)
        else:
            good = len(s) == 3 and s[2] == 1 and (
                s[0] == s[1] or 1 in s[:2])
        return verdict(name, kw, good, f"{c['who']} sizes {c['sizes']}")
    if k == 'point':
        e = np.array(c['e'])
        kw[c['who']] = list(e)
        zero = np.any(np.all(e[::2] == e[1::2], axis=0))
        return verdict(name, kw, not zero, f"{c['who']} {c['e']}")
    if k == 'wave':
        kw['signal'] = dict(nodes=np.arange(c['n'])-5.,
                            amplitudes=np.arange(c['m'])*1.)
        return verdict(name, kw, c['n'] == c['m'] if c['n'] > 1 else None,
                       f"{c['n']} nodes, {c['m']} amplitudes")
    raise ValueError(k)


def method(name, kw, opt):
    """The transform which is really used."""
    import empymod
    m, used = empymod.model, []
    pre = 'hankel_' if opt == 'ht' else 'fourier_'
    names = OPTS[opt]
    saved = {n: getattr(m.transform, pre+n) for n in names}

    def rec(n):
        def f(*a, **k):
            used.append(n)
            return saved[n](*a, **k)
        return f
    try:
        for n in names:
            setattr(m.transform, pre+n, rec(n))
        q = copy.deepcopy(kw)
        if opt == 'ht':
            q['depth'], q['res'] = [0], [1., 2.]
        getattr(m, name)(**q)
    finally:
        for n in names:
            setattr(m.transform, pre+n, saved[n])
    return used[0] if len(set(used)) == 1 else used


def t_wave(t, name, n, m):
    """Waveform with n nodes and m amplitudes (values symbolic)."""
    import numpy as np
    from symx import load, core, solve
    from symx.layered import oarr
    from symx.core import var
    nodes = [var(f'n{i}', lo=-5+i-.2, hi=-5+i+.2) for i in range(n)]
    amp = [var(f'a{i}', lo=i, hi=i+.5) for i in range(m)]
    kw = base_kw(name)
    kw['signal'] = dict(nodes=oarr(nodes), amplitudes=oarr(amp))
    case = api.kwcase('wave', name=name, n=n, m=m)

    def uniq(a, return_inverse=False):
        a = np.asarray(a, dtype=object)
        f = a.reshape(-1).view(load.npx.SArr)
        return f, np.arange(a.size).reshape(a.shape)
    S = api.Stubs()

    def comp(*a, **k):
        raise Computed(kind='x')
    attrs = [(load.model, 'fem', comp),
             (load.transform, 'get_dlf_points', comp)]
    k = 0
    for pc, r in api.run(lambda: getattr(load.model, name)(**kw), S,
                         attrs=attrs, extra={'unique': uniq}, one=False):
        k += 1
        if isinstance(r, (core.Unsupported, AttributeError, NameError)):
            raise r
        if isinstance(r, Computed) != (n == m):
            t.fail('waveform lengths', case, repr(r)[:100],
                   env=solve.pc_model(pc))
        else:
            t.passed('waveform lengths')
    if k == 0:
        t.errors.append('no path')


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C29', 'c29', [
        'empymod.utils.check_model', 'empymod.utils.check_hankel',
        'empymod.utils.check_time', 'empymod.utils.check_time_only',
        'empymod.utils.check_waveform', 'empymod.utils.check_solution',
        'empymod.utils.check_bipole', 'empymod.utils.check_dipole',
        'empymod.utils.get_kwargs', 'empymod.utils._check_var',
        'empymod.utils._check_shape'] + ['empymod.model.'+r for r in ROUT],
        dict(strings='all strings (z3 string theory)', signal='all reals',
             depth='up to 4 (thorough 6) finite interfaces in [-1000, 1000], '
             'with and without explicit infinities',
             lengths='parameter lengths 0-4 and 2-D, 1-3 layers',
             shapes='source/receiver element sizes 1-3 (0: scalar)',
             attributes='all subsets of the filter attributes'),
        ['Floats are treated as mathematical reals.',
         'The modelling itself (fem, tem, kernels) is replaced by a stop '
         'after the checks; lower() folds ASCII letters.'])
    T = chk.add
    for name in ('dipole', 'bipole', 'analytical'):
        T(t_signal, f'sig {name}', name, False)
    for name in ('dipole', 'bipole'):
        T(t_signal, f'wsig {name}', name, True)
    for name in ('dipole', 'bipole', 'gpr'):
        for opt in ('ht', 'ft'):
            for dom in ((None,) if opt == 'ht' else (0, 1, -1)):
                T(t_option, f'{name} {opt} {dom}', name, opt, dom)
        T(t_filter, f'filt {name}', name, 'htarg', None, None)
        for kd in (None, 'sin', 'cos'):
            T(t_filter, f'filt {name} {kd}', name, 'ftarg', 0, kd)
    for dom in (None, 0, 1, -1):
        T(t_option, f'sol {dom}', 'analytical', 'solution', dom)
    T(t_option, 'msrc', 'bipole', 'msrc', None)
    T(t_option, 'mrec', 'bipole', 'mrec', None)
    for name in ('dipole', 'bipole'):
        T(t_option, f'kind {name}', name, 'kind', 0)
        T(t_attrs, f'attr h {name}', name, 'htarg', None, None)
        for dom, kd in ((0, None), (0, 'sin'), (0, 'cos'), (1, None),
                        (-1, None), (1, 'cos'), (-1, 'sin')):
            T(t_attrs, f'attr f {name}{dom}{kd}', name, 'ftarg', dom, kd)
    for name in ROUT:
        T(t_keyword, f'key {name}', name)
    for name in ('dipole', 'bipole', 'gpr', 'dipole_k'):
        for n in range(1, 7 if chk.thorough else 5):
            for inf in ('', 'b', 'e', 'be', 'ber'):
                T(t_depth, f'dep {name}{n}{inf}', name, n, inf)
    for name in ROUT:
        for nl in ((1,) if name == 'analytical' else (1, 2, 3)):
            for par in PAR:
                for L in (0, 1, 2, 3, 4, '2d'):
                    T(t_length, f'len {name}{par}{nl}{L}', name, par, nl, L,
                      False)
            for L in (0, 1, 2, 3, 4, '2d'):
                for par in ('usr', 'res'):
                    if name != 'analytical' or nl == 1:
                        T(t_length, f'usr {name}{par}{nl}{L}', name, par, nl,
                          L, True)
    for who in ('src', 'rec'):
        for name in ('dipole', 'analytical', 'dipole_k', 'gpr'):
            for s in ((0, 0, 0), (2, 2, 0), (2, 0, 0), (1, 3, 1), (2, 3, 0),
                      (3, 2, 1), (2, 2, 2), (1, 1, 2), (0, 0, 2), (3, 3, 3),
                      (0, 0), (0, 0, 0, 0), (0, 0, 0, 0, 0)):
                T(t_shape, f'shp {name}{who}{s}', name, who, s)
        for s in ((0,)*5, (2,)*5, (2, 0, 0, 0, 0), (0, 0, 0, 0, 2),
                  (0, 0, 2, 0, 0), (0, 3, 0, 1, 3), (3, 2, 0, 0, 0),
                  (0, 0, 3, 0, 2), (2, 2, 2, 3, 2), (2, 2, 3, 2, 2),
                  (0, 0, 3, 2, 2), (0, 0, 0, 2, 3), (0,)*4, (0,)*3, (0,)*7,
                  (0,)*6, (2,)*6, (2, 0, 0, 0, 0, 0), (0, 0, 0, 0, 2, 2),
                  (0, 0, 0, 0, 0, 2), (0, 2, 0, 0, 3, 0), (3, 3, 3, 3, 2, 3),
                  (3, 3, 3, 3, 3, 2), (2, 3, 3, 3, 3, 3), (3, 3, 2, 3, 3, 3)):
            T(t_shape, f'shp bipole{who}{s}', 'bipole', who, s)
        for n in (1, 2, 3) if chk.thorough else (1, 2):
            T(t_point, f'pt {who}{n}', who, n)
    for name in ('dipole', 'bipole'):
        for n in (1, 2, 3, 4):
            for m in (1, 2, 3, 4):
                if n > 1 or m > 1:
                    T(t_wave, f'wave {name}{n}{m}', name, n, m)
    return chk
