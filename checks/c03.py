"""C03: jump of the field across the source level = unit dipole."""
from . import lay
from . import c02


def expected(lam, PI, s, r, eta, zeta, kx, ky):
    """Jump [F](below - above) of receiver r for unit source s; None: not
    prescribed."""
    a = lam/(2*PI)
    H = c02.H
    tab = {
        (1, 5): -a*H, (2, 4): a*H,          # electric x, y
        (4, 2): a*H, (5, 1): -a*H,          # magnetic x, y
    }
    if r in (1, 2, 4, 5):
        if s == 3 and r in (1, 2):
            k = kx if r == 1 else ky
            return -k*a/eta[1]
        if s == 6 and r in (4, 5):
            k = kx if r == 4 else ky
            return -k*a/zeta[1]
        return {(1, 5): -a*H, (2, 4): a*H, (4, 2): a*H,
                (5, 1): -a*H}.get((s, r), 0)
    return None


def task(t, n, ls, conc, symth):
    from symx import load, core, layered
    from symx.core import const, CSym
    M = lay.setup(n, conc)
    h = core.var('hh', pos=True)
    M.place([(ls, 's')])
    zs = M.z[0]
    # receiver h above / below the source; the interfaces keep clear of it
    # because sub-intervals are split as h + h'
    th, kx, ky, angs = c02.direction(M, symth)
    with load.symbolic(load.kernel, extra=lay.noclose()):
        for s in range(1, 7):
            lim = []
            for side in (-1, 1):
                pts, i_s, i_r = lay.points(ls, ls, side > 0)
                M.place(pts)
                zs, zr = M.z[i_s], M.z[i_r]
                # interval between source and receiver -> 0
                F = c02.tensor(M, zs, zr, ls, ls, s, angs)
                if n == 1:
                    seg = 'h0_1'
                elif ls == 0:
                    seg = 'h0_1'
                else:
                    seg = f'h{ls}_1'
                z0 = {core.var(seg): const(0)}
                F = [CSym(core.subst(f.re, z0), core.subst(f.im, z0))
                     for f, _ in F]
                # rename: the remaining intervals around the source have the
                # same names in both layouts except the first/second segment
                lim.append((F, M, pts, zs, zr))
            (Fa, _, _, _, _), (Fb, _, _, _, _) = lim
            M.place([(ls, 's')])
            for r in range(1, 7):
                e = expected(M.lam, core.PI(), s, r, (M.eH[ls], M.eV[ls]),
                             (M.zH[ls], M.zV[ls]), kx, ky)
                if e is None:
                    continue

                def case(env):
                    thv = env.get('th', 0.7) if symth else 0.9272952180016122
                    M.place([(ls, 's')])
                    return lay.env_case(M, env, 'jump', zs=M.z[0], ls=ls,
                                        s=s, r=r, th=thv)
                t.eq(f'n{n} src{ls} s{s} r{r} jump', Fb[r-1]-Fa[r-1],
                     CSym.of(e), case=case)
                if t.full():
                    return
        if not t.cex:
            t.twin('perturbed', Fb[0].re-Fa[0].re, const(1))


def replay(c):
    import numpy as np
    zs, ls, s, r, th = c['zs'], c['ls'], c['s'], c['r'], c['th']
    G = max(c['lam'], 1.)
    h = 1e-9/G*max(1, abs(zs))
    ab = 10*r+s
    d = lay.num_spec(c, zs, zs+h, ls, ls, ab, th) - \
        lay.num_spec(c, zs, zs-h, ls, ls, ab, th)
    kx, ky = 1j*c['lam']*np.cos(th), 1j*c['lam']*np.sin(th)
    e = expected(c['lam'], np.pi, s, r, (c['etaH'][ls], c['etaV'][ls]),
                 (c['zetaH'][ls], c['zetaV'][ls]), kx, ky)
    return lay.differ(d, e, 1e-5, c['lam']/2/np.pi), \
        f'source {s} receiver {r}: jump {d!r}, unit dipole {e!r}'


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C03', 'c03', lay.FUNCTIONS + ['empymod.kernel.angle_factor'],
                dict(
        layers='1-3 layers: everything symbolic incl. azimuth; 4 (quick), '
        '5 (thorough): media concrete, depths symbolic, 3-4-5 direction',
        sources='every layer', components='24 tangential jumps'),
        lay.ASSUME)
    for n in (1, 2, 3):
        for ls in range(n):
            chk.add(task, f'n{n} s{ls}', n, ls, None, True)
    for n in (4, 5) if chk.thorough else (4,):
        for ls in range(n):
            chk.add(task, f'n{n} s{ls} media', n, ls, 'media', False)
    return chk
