"""Full-space closed form: symbolic set-up and replay."""
import math

from . import lay

NAMES = ('off', 'th', 'zs', 'zr', 'p', 'q', 'a', 'b')


def variables(iso=False):
    from symx.core import var
    v = {n: var(n, pos=True) for n in ('off', 'th', 'p', 'q', 'a', 'b')}
    v['zs'], v['zr'] = var('zs'), var('zr')
    if iso:
        v['q'], v['b'] = v['p'], v['a']
    return v


def field(ab, swap=False, iso=False, vals=None):
    """Real fullspace() on symbols: etaH=p^2, etaV=q^2, zetaH=a^2,
    zetaV=b^2; returns (expr, case builder)."""
    from symx import load, core, solve, layered
    v = vals or variables(iso)
    ac, ms, mr = layered.split_ab(ab)
    o = lambda x: layered.oarr([x])
    zs, zr, th = v['zs'], v['zr'], v['th']
    if swap:
        zs, zr, th = zr, zs, th + core.PI()

    def run():
        with load.symbolic(load.kernel):
            r = load.kernel.fullspace(
                o(v['off']), o(th), zs, zr, o(v['p']*v['p']),
                o(v['q']*v['q']), o(v['a']*v['a']), o(v['b']*v['b']),
                ac, ms, mr)
        return r[0, 0]
    f = solve.single(run)

    def case(env):
        e = {k: float(x) for k, x in env.items() if isinstance(x, (
            int, float)) or hasattr(x, 'numerator')}
        d = {}
        for n in NAMES:
            d[n] = float(core.neval(v[n], e))
        return d
    return f, case


def num(c, ab, swap=False, **over):
    import numpy as np
    from empymod import kernel, utils
    c = dict(c, **over)
    ac, ms, mr = utils.check_ab(ab, 0)
    zs, zr, th = c['zs'], c['zr'], c['th']
    if swap:
        zs, zr, th = zr, zs, th+math.pi
    r = kernel.fullspace(np.array([c['off']]), np.array([th]), zs, zr,
                         np.array([c['p']**2]), np.array([c['q']**2]),
                         np.array([c['a']**2]), np.array([c['b']**2]),
                         ac, ms, mr)
    r = complex(np.asarray(r)[0, 0])
    return r if r.imag else r.real


def num_xyz(c, ab, x, y, z):
    """At receiver position relative to the source."""
    return num(c, ab, off=math.hypot(x, y), th=math.atan2(y, x),
               zr=c['zs']+z)
