"""Modelling routines on symbols: the kernels / Hankel transforms are
uninterpreted functions of everything they are given; the real bipole,
dipole, fem, check_*, get_* functions run on symbolic input."""
import contextlib
import inspect


FUNCTIONS = ['empymod.model.bipole', 'empymod.model.dipole',
             'empymod.model.fem', 'empymod.utils.check_bipole',
             'empymod.utils.check_dipole', 'empymod.utils.check_model',
             'empymod.utils.check_frequency', 'empymod.utils.get_azm_dip',
             'empymod.utils.get_abs', 'empymod.utils.get_geo_fact',
             'empymod.utils.get_layer_nr', 'empymod.utils.get_off_ang']

ASSUME = [
    'Floats are treated as mathematical reals; closeness tests '
    '(np.isclose/allclose) and coordinate rounding are exact; the smallest '
    'geometrical factor kept (min_angle) is 0.',
    'kernel.fullspace and transform.hankel_* are uninterpreted functions, '
    'per frequency and offset, of all their arguments (component, flags, '
    'layers, depths, offset, angle factor, all layer properties, direct-'
    'field option); their own content is decided by C01-C09, C16, C18, C32.',
]


def _sc(x):
    """0-d / size-1 array -> scalar."""
    import numpy as np
    a = np.asarray(x, dtype=object)
    return a.reshape(-1)[0] if a.size == 1 else a


def _flat(x):
    """List of real Sym of a scalar / array (complex split)."""
    import numpy as np
    from symx import core
    out = []
    for v in np.asarray(x, dtype=object).reshape(-1):
        if core.is_inf(v):
            out.append(core.const(-10**9 if v < 0 else 10**9))
            continue
        c = core.CSym.of(v)
        out.append(c.re)
        if not c.im.is_const(0):
            out.append(c.im)
    return out


def cval(name, args):
    from symx import core
    return core.CSym(core.cuf(name+'.re', *args), core.cuf(name+'.im', *args))


def _bind(real):
    sig = inspect.signature(real)

    def b(a, k):
        ba = sig.bind(*a, **k)
        ba.apply_defaults()
        return ba.arguments
    return b


class Stubs:
    """attrs for load.symbolic; calls recorded in .calls"""

    def __init__(self, conv=None, real=False):
        from symx import load
        self.calls = []
        self.kernel, self.transform = load.kernel, load.transform
        self.conv = conv            # callable(kind, args) -> bool/SBool
        self.real = real            # real-valued (Laplace)
        self.attrs = [(load.kernel, 'fullspace', self._fullspace()),
                      (load.kernel, 'angle_factor', self._angle())]
        for h in ('dlf', 'qwe', 'quad'):
            self.attrs.append((load.transform, 'hankel_'+h, self._hankel(h)))

    def _angle(self):
        bind = _bind(self.kernel.angle_factor)

        def angle_factor(*a, **k):
            from symx import core
            from symx.npx import emap
            q = bind(a, k)
            nm = f"ang{int(q['ab'])}{bool(q['msrc'])}{bool(q['mrec'])}"
            return emap(lambda x: core.cuf(nm, x), q['angle'])
        return angle_factor

    def _val(self, name, args):
        from symx import core
        if self.real:
            return core.cuf(name+'.re', *args)
        return cval(name, args)

    def _fullspace(self):
        bind = _bind(self.kernel.fullspace)

        def fullspace(*a, **k):
            import numpy as np
            from symx.npx import SArr
            q = bind(a, k)
            self.calls.append(('fullspace', dict(q)))
            off = np.atleast_1d(np.asarray(q['off'], dtype=object))
            ang = np.atleast_1d(np.asarray(q['angle'], dtype=object))
            med = [np.atleast_1d(np.asarray(q[n], dtype=object)) for n in
                   ('etaH', 'etaV', 'zetaH', 'zetaV')]
            nm = f"FS{int(q['ab'])}{bool(q['msrc'])}{bool(q['mrec'])}"
            out = np.empty((med[0].size, off.size), dtype=object)
            for i in range(out.shape[0]):
                for j in range(out.shape[1]):
                    args = [off[j], ang[j]] + _flat(q['zsrc']) + \
                        _flat(q['zrec'])
                    for m in med:
                        args += _flat(m[i])
                    out[i, j] = self._val(nm, args)
            return out.view(SArr)
        return fullspace

    def _hankel(self, kind):
        real = getattr(self.transform, 'hankel_'+kind)
        bind = _bind(real)

        def hankel(*a, **k):
            import numpy as np
            from symx.npx import SArr
            q = bind(a, k)
            self.calls.append((kind, dict(q)))
            off = np.asarray(q['off'], dtype=object)
            ang = np.asarray(q['ang_fact'], dtype=object)
            if off.shape != ang.shape or off.ndim != 1:
                raise ValueError('shape of off/ang_fact')
            med = [np.asarray(q[n], dtype=object) for n in
                   ('etaH', 'etaV', 'zetaH', 'zetaV')]
            # etaH/etaV/zetaH/zetaV do not have to have the same nfreq only
            # if a hook made them so; keep what the code gives
            nf = med[0].shape[0]
            nm = (f"H{kind}{int(q['ab'])}{bool(q['msrc'])}{bool(q['mrec'])}"
                  f"{bool(q['xdirect'])}L{int(_sc(q['lsrc']))}"
                  f"{int(_sc(q['lrec']))}n{med[0].shape[1]}")
            out = np.empty((nf, off.size), dtype=object)
            for i in range(nf):
                for j in range(off.size):
                    args = [off[j], ang[j]] + _flat(q['zsrc']) + \
                        _flat(q['zrec']) + _flat(q['depth'])
                    for m in med:
                        args += _flat(m[i])
                    out[i, j] = self._val(nm, args)
            conv = True if self.conv is None else self.conv(kind, q)
            return out.view(SArr), 1, conv
        return hankel


@contextlib.contextmanager
def env(stubs, extra=None, attrs=(), mods=(), **kw):
    from symx import load, core, npx
    extra = {'abs': lambda x: npx.emap(core.absu, x), **(extra or {})}
    with load.symbolic(load.model, load.utils, *mods, extra=extra,
                       attrs=list(stubs.attrs) +
                       [(load.utils, '_min_angle', 0)] + list(attrs),
                       **kw) as p:
        yield p


def run(fn, stubs, extra=None, attrs=(), assume=(), one=True, **kw):
    """Run fn() inside the symbolic environment; result or list of paths."""
    from symx import solve

    def f():
        with env(stubs, extra, attrs, **kw):
            return fn()
    if one:
        return solve.single(f, assume)
    return solve.paths(f, assume)


def arr(x):
    """Result -> plain object array."""
    import numpy as np
    return np.asarray(x, dtype=object)


def fl(x, env_):
    """Nested input with Sym -> floats."""
    import numpy as np
    from symx import core
    if isinstance(x, core.Sym):
        return float(core.neval(x, env_))
    if isinstance(x, core.SBool):
        return bool(core.beval(x, env_))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return fl(x.tolist(), env_)
        return x.tolist()
    if isinstance(x, dict):
        return {k: fl(v, env_) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [fl(v, env_) for v in x]
    return x


def cleanenv(e):
    return {k: float(v) for k, v in (e or {}).items()
            if isinstance(k, str) and k != '#'}


# -- replay ------------------------------------------------------------------

def real_call(name, kw):
    import copy
    import numpy as np
    import empymod
    kw = copy.deepcopy(kw)
    kw.setdefault('verb', 0)
    return np.asarray(getattr(empymod.model, name)(**kw))


def ndiff(a, b, tol=1e-6, floor=0.0):
    """Maximum relative difference; inf for shape mismatch."""
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float('inf')
    if a.size == 0:
        return 0.0
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return float('inf')
    sc = max(np.max(np.abs(a)), np.max(np.abs(b)), floor)
    if sc == 0:
        return 0.0
    return float(np.max(np.abs(a-b))/sc)


# -- comparing two ways of calling -------------------------------------------

def compare(t, name, L, R, stubs, case, assume=(), extra=None, attrs=(),
            twin=False, **kw):
    """L() and R() run in the same path; element-wise equality per path."""
    import numpy as np
    n = 0
    for pc, r in run(lambda: (L(), R()), stubs, extra, attrs, assume,
                     one=False, **kw):
        n += 1
        pc = list(assume) + list(pc)
        if isinstance(r, Exception):
            from symx import solve
            e = solve.pc_model(pc)
            if e is not None:
                t.fail(f'{name}: raises', case, repr(r)[:200], env=e)
            continue
        a, b = arr(r[0]), arr(r[1])
        if a.shape != b.shape:
            from symx import solve
            t.fail(f'{name}: shape {a.shape} instead of {b.shape}', case,
                   env=solve.pc_model(pc))
            continue
        for i in np.ndindex(a.shape):
            t.eq(f'{name}{list(i)}', a[i], b[i], pc, case=case)
            if t.full():
                return
        if twin:
            t.twin('perturbed', a[i], b[i] + 1, pc)
            twin = False
    if n == 0:
        t.errors.append(f'{name}: no path')


def kwcase(kind, **kw):
    """case builder from (nested, symbolic) keyword values."""
    def f(env_):
        e = cleanenv(env_)
        return dict(kind=kind, **fl(kw, e))
    return f


def link_angle(*angles):
    """Facts about a multiple of 90 degrees: mod/floordiv vs sine/cosine."""
    from symx import core
    h = core.PI()/2
    for a in angles:
        a = core.lift(a)
        if a.op == 'c':
            continue
        m = a % h
        if m.op == 'c':
            continue
        p = (a//h) % core.const(2)
        z = m == 0
        core.CTX.defs += [core.sor(~z, ~(p == 0), core.sin(a) == 0),
                          core.sor(~z, ~(p == 1), core.cos(a) == 0),
                          core.sor(p == 0, p == 1)]


class Filter:
    """Digital filter with the given attributes."""

    def __init__(self, name, **kw):
        self.name = self.savename = name
        self.filter_coeff = ['j0', 'j1', 'sin', 'cos']
        self.__dict__.update(kw)


def fakefilter(n, kinds, lo=0.1, hi=20):
    """n symbolic (positive) abscissae and weights."""
    from symx.core import var, const
    from symx.layered import oarr
    kw = {}
    st = (hi/lo)**(1/max(n-1, 1))
    kw['base'] = oarr([var(f'base{n}_{i}', pos=True, lo=lo*st**(i-0.2),
                           hi=lo*st**(i+0.2)) for i in range(n)])
    for k in kinds:
        kw[k] = oarr([var(f'{k}w{n}_{i}', lo=-2, hi=2) for i in range(n)])
    kw['factor'] = st
    return Filter('fake', **kw)
