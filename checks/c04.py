"""C04: reciprocity (layered kernel + angle factor)."""
from . import lay
from . import c02


def swap(ab):
    return 10*(ab % 10) + ab//10


def sgn(ab):
    return -1 if (ab//10 > 3) != (ab % 10 > 3) else 1


def task(t, n, ls, lr, below, conc, symth):
    from symx import load, core
    from symx.core import const
    M = lay.setup(n, conc)
    pts, i_s, i_r = lay.points(ls, lr, below)
    M.place(pts)
    zs, zr = M.z[i_s], M.z[i_r]
    th, kx, ky, angs = c02.direction(M, symth)
    from symx import solve
    with load.symbolic(load.kernel, extra=lay.noclose()):
        angp = {}
        for ab in lay.ABS:
            a = solve.paths(lambda: lay.ang(ab, th + core.PI()))[0][1]
            if not symth:
                from fractions import Fraction
                a = core.subst(a, {core.cos(th): const(Fraction(3, 5)),
                                   core.sin(th): const(Fraction(4, 5))})
            angp[ab] = a
        for ab in lay.ABS:
            ba = swap(ab)
            f = lay.spectral(lay.run_pj(M, zs, zr, ls, lr, ab), angs[ab])
            g = lay.spectral(lay.run_pj(M, zr, zs, lr, ls, ba), angp[ba])

            def case(env):
                thv = env.get('th', 0.7) if symth else 0.9272952180016122
                return lay.env_case(M, env, 'recip', zs=zs, zr=zr, ls=ls,
                                    lr=lr, ab=ab, th=thv)
            t.eq(f'n{n} {ls}->{lr} ab{ab}', f, sgn(ab)*g, case=case)
            if t.full():
                return
        if not t.cex:
            t.twin('perturbed', f.re + f.im, sgn(ab)*(g.re+g.im) + 1)


def task_fs(t):
    """Full space closed form: swap positions (azimuth + pi)."""
    from symx import load, core, solve, layered
    from symx.core import var
    from . import fsp
    for ab in lay.ABS:
        f, case = fsp.field(ab)
        g, _ = fsp.field(swap(ab), swap=True)

        def cs(env):
            return dict(case(env), kind='fs', ab=ab)
        t.eq(f'fullspace ab{ab}', f, sgn(ab)*g, case=cs)
        if t.full():
            return


def replay(c):
    import numpy as np
    ab = c['ab']
    if c['kind'] == 'fs':
        from . import fsp
        f = fsp.num(c, ab)
        g = fsp.num(c, swap(ab), swap=True)
    else:
        f = lay.num_spec(c, c['zs'], c['zr'], c['ls'], c['lr'], ab, c['th'])
        g = lay.num_spec(c, c['zr'], c['zs'], c['lr'], c['ls'], swap(ab),
                         c['th']+np.pi)
    return lay.differ(f, sgn(ab)*g), f'ab={ab}: {f!r}; exchanged: {g!r}'


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C04', 'c04', lay.FUNCTIONS + [
        'empymod.kernel.angle_factor', 'empymod.kernel.fullspace'], dict(
        layers='1-2 layers: all symbolic incl. azimuth; 3 layers: all but '
        'the azimuth (3-4-5); 4 (quick) and 5 (thorough): media concrete',
        positions='every pair of layers, both orders',
        fullspace='all symbolic, offset > 0'), lay.ASSUME)
    cf = []
    for n in (1, 2, 3):
        for ls, lr, below in lay.configs(n):
            cf.append((n, ls, lr, below, None, n < 3))
    for n in ((4,) if not chk.thorough else (4, 5)):
        for ls, lr, below in lay.configs(n):
            cf.append((n, ls, lr, below, 'media', False))
    for a in sorted(cf, key=lambda a: -a[0] if a[4] is None else 0):
        chk.add(task, 'n%d s%d r%d %d %s' % a[:5], *a)
    chk.add(task_fs, 'fullspace')
    return chk
