"""Shared helpers of the layered-kernel checks (symbolic side + replay)."""
import math

ABS = [10*r+s for r in range(1, 7) for s in range(1, 7) if (r, s) not in
       ((3, 6), (6, 3))]

FUNCTIONS = ['empymod.kernel.wavenumber', 'empymod.kernel.greenfct',
             'empymod.kernel.reflections', 'empymod.kernel.fields',
             'empymod.utils.check_ab']

ASSUME = [
    'Floats are treated as mathematical reals (no rounding).',
    'The un-jitted Python source is encoded; numba (fastmath for '
    'reflections) is assumed to preserve its real-arithmetic meaning; '
    'counterexamples are replayed on the jitted code.',
    'Media are positive real (Laplace domain): eta_h, zeta_h, and the two '
    'vertical wavenumbers of every layer are free, eta_v and zeta_v follow '
    'from them.  Polynomial identities proved this way hold for complex '
    'values too wherever the code takes the principal square root.',
    'exp(-Gamma h) of each sub-interval is a free variable in (0,1).',
]


# --------------------------------------------------------------------------
# symbolic side (import lazily: the replay must not disable the JIT)
# --------------------------------------------------------------------------

def setup(n, conc=None, eqprop=(), tag=''):
    """Model with n layers; conc: None (all symbolic), 'media' (media
    concrete integers, thicknesses symbolic), 'tm'/'te' (the other mode's
    wavenumbers concrete), 'thick' handled at export."""
    from symx import layered, core
    return layered.Model(n, eqprop=eqprop, tag=tag, conc=conc)


def noclose():
    import numpy as np
    return {'isclose': lambda a, b, *k, **kw: np.zeros(np.shape(a), bool)}


def ang(ab, th):
    from symx import layered, core, load
    a, ms, mr = layered.split_ab(ab)
    r = load.kernel.angle_factor(layered.oarr([th]), a, ms, mr)
    return core.lift(r[0])


def run_pj(M, zs, zr, ls, lr, ab, xdirect=False):
    from symx import layered, solve
    return solve.single(lambda: layered.pj(M, zs, zr, ls, lr, ab, xdirect))


def spectral(p, angf):
    """Spectral symbol of the field of one component pair as CSym.

    J0 -> 1; J1 cos/sin(phi) -> -i cos/sin(theta); the J2 combination
    PJ1 J1/r + PJ0b J0 = -PJ0b J2 -> +ang PJ0b.
    """
    from symx.core import const, CSym
    p0, p1, p0b = p
    if p0 is None and p0b is None:
        return CSym(const(0), -(angf*p1))
    r = const(0)
    if p0 is not None:
        r = r + p0
    if p0b is not None:
        r = r + angf*p0b
    return CSym(r, const(0))


def env_case(M, env, kind, **extra):
    """Concrete numbers of the model for the replay."""
    from symx import core
    e = {k: float(v) for k, v in env.items() if isinstance(k, str)}
    e.pop('#', None)
    f = lambda x: core.neval(core.lift(x), e)
    import numpy as np
    case = dict(kind=kind, lam=f(M.lam),
                etaH=[f(x) for x in M.eH], etaV=[f(x) for x in M.eV],
                zetaH=[f(x) for x in M.zH], zetaV=[f(x) for x in M.zV],
                depth=[f(x) if not core.is_inf(x) else -1e300
                       for x in M.depth])
    for k, v in extra.items():
        case[k] = f(v) if isinstance(v, core.Sym) else v
    return case


# --------------------------------------------------------------------------
# replay side: real jitted functions on floats
# --------------------------------------------------------------------------

def num_pj(c, zs, zr, ls, lr, ab, xdirect=False, lam=None):
    import numpy as np
    from empymod import kernel, utils
    a, ms, mr = utils.check_ab(ab, 0)
    d = np.array(c['depth'], dtype=float)
    d[d < -1e200] = -np.inf
    A = [np.array(c[k], dtype=float)[None, :]
         for k in ('etaH', 'etaV', 'zetaH', 'zetaV')]
    r = kernel.wavenumber(float(zs), float(zr), ls, lr, d, *A,
                          np.array([[c['lam'] if lam is None else lam]]),
                          a, xdirect, ms, mr)
    return [None if q is None else float(q[0, 0, 0]) for q in r]


def num_ang(ab, th):
    import numpy as np
    from empymod import kernel, utils
    a, ms, mr = utils.check_ab(ab, 0)
    return float(kernel.angle_factor(np.array([float(th)]), a, ms, mr)[0])


def num_spec(c, zs, zr, ls, lr, ab, th, xdirect=False):
    if ab in (36, 63):
        return 0j
    p0, p1, p0b = num_pj(c, zs, zr, ls, lr, ab, xdirect)
    a = num_ang(ab, th)
    if p0 is None and p0b is None:
        return -1j*a*p1
    return complex((p0 or 0) + (a*p0b if p0b is not None else 0))


def differ(a, b, tol=1e-6, scale=0.0):
    if not (math.isfinite(abs(a)) and math.isfinite(abs(b))):
        return True
    return abs(a-b) > tol*max(abs(a), abs(b), scale)


def configs(n):
    """(ls, lr, rec-below-src-if-same-layer)."""
    for ls in range(n):
        for lr in range(n):
            for below in ((False, True) if ls == lr else (lr > ls,)):
                yield ls, lr, below


def points(ls, lr, below):
    if lr > ls or (lr == ls and below):
        return [(ls, 's'), (lr, 'r')], 0, 1
    return [(lr, 'r'), (ls, 's')], 1, 0
