"""C07: duality (eta <-> zeta, electric <-> magnetic)."""
from . import lay


def dual(ab):
    """Component pair with electric and magnetic exchanged."""
    f = lambda k: k+3 if k < 4 else k-3
    return 10*f(ab//10) + f(ab % 10)


def sgn(ab):
    return -1 if (ab//10 > 3) != (ab % 10 > 3) else 1


def dualmodel(M):
    import copy
    D = copy.copy(M)
    D.eH, D.eV, D.zH, D.zV = M.zH, M.zV, M.eH, M.eV
    D.GT, D.GE = M.GE, M.GT
    return D


def task(t, n, ls, lr, below, conc):
    from symx import load, core, solve
    M = lay.setup(n, conc)
    pts, i_s, i_r = lay.points(ls, lr, below)
    M.place(pts)
    zs, zr = M.z[i_s], M.z[i_r]
    D = dualmodel(M)
    th = core.var('th', pos=True)
    with load.symbolic(load.kernel, extra=lay.noclose()):
        for ab in lay.ABS:
            for xd in (False, True):
                f = lay.spectral(lay.run_pj(D, zs, zr, ls, lr, ab, xd),
                                 solve.paths(lambda: lay.ang(ab, th))[0][1])
                da = dual(ab)
                g = lay.spectral(lay.run_pj(M, zs, zr, ls, lr, da, xd),
                                 solve.paths(lambda: lay.ang(da, th))[0][1])

                def case(env):
                    return lay.env_case(M, env, 'dual', zs=zs, zr=zr, ls=ls,
                                        lr=lr, ab=ab, xd=xd,
                                        th=env.get('th', 0.7))
                t.eq(f'n{n} {ls}->{lr} ab{ab} xdirect={xd}', f, sgn(ab)*g,
                     case=case)
                if t.full():
                    return
        t.twin('perturbed', f.re+f.im, sgn(ab)*(g.re+g.im)+1)


def task_fs(t):
    from . import fsp
    v = fsp.variables()
    d = dict(v, p=v['a'], q=v['b'], a=v['p'], b=v['q'])
    for ab in lay.ABS:
        f, case = fsp.field(ab, vals=v)
        g, _ = fsp.field(dual(ab), vals=d)

        def cs(env):
            return dict(case(env), kind='fs', ab=ab)
        t.eq(f'fullspace ab{ab}', f, sgn(ab)*g, case=cs)
        if t.full():
            return


def replay(c):
    ab = c['ab']
    if c['kind'] == 'fs':
        from . import fsp
        d = dict(c, p=c['a'], q=c['b'], a=c['p'], b=c['q'])
        f, g = fsp.num(c, ab), fsp.num(d, dual(ab))
    else:
        d = dict(c, etaH=c['zetaH'], etaV=c['zetaV'], zetaH=c['etaH'],
                 zetaV=c['etaV'])
        a = (c['zs'], c['zr'], c['ls'], c['lr'])
        f = lay.num_spec(d, *a, ab, c['th'], c['xd'])
        g = lay.num_spec(c, *a, dual(ab), c['th'], c['xd'])
    return lay.differ(f, sgn(ab)*g), \
        f'ab={ab} in the dual medium: {f!r}; ab={dual(ab)}: {g!r}'


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C07', 'c07', lay.FUNCTIONS + [
        'empymod.kernel.angle_factor', 'empymod.kernel.fullspace'], dict(
        layers='1-3 layers all symbolic incl. azimuth; 4 (quick), 5 '
        '(thorough): media concrete, depths symbolic',
        xdirect='False and True', fullspace='all symbolic'), lay.ASSUME)
    cf = []
    for n in (1, 2, 3):
        for ls, lr, below in lay.configs(n):
            cf.append((n, ls, lr, below, None))
    for n in ((4,) if not chk.thorough else (4, 5)):
        for ls, lr, below in lay.configs(n):
            cf.append((n, ls, lr, below, 'media'))
    for a in sorted(cf, key=lambda a: -a[0] if a[4] is None else 0):
        chk.add(task, 'n%d s%d r%d %d %s' % a, *a)
    chk.add(task_fs, 'fullspace')
    return chk
