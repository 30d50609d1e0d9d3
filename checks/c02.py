"""C02: Maxwell's equations inside every layer, decay outwards."""
from . import lay

H = 1   # curl orientation of empymod's coordinate system


def tensor(M, zs, zr, ls, lr, s, angs, deriv=None, xdirect=False):
    """Six receiver components for source s: [(F, dF/dz)]."""
    from symx.core import CSym
    out = []
    for r in range(1, 7):
        ab = 10*r+s
        if ab in (36, 63):
            out.append((CSym.of(0), CSym.of(0)))
            continue
        p = lay.run_pj(M, zs, zr, ls, lr, ab, xdirect)
        f = lay.spectral(p, angs[ab])
        d = None
        if deriv is not None:
            d = lay.spectral([None if q is None else deriv(q) for q in p],
                             angs[ab])
        out.append((f, d))
    return out


def rows(F, eta, zeta, kx, ky):
    """Maxwell rows (lhs, rhs); F = six (value, dz); eta=(H,V)."""
    (Ex, dEx), (Ey, dEy), (Ez, _), (Hx, dHx), (Hy, dHy), (Hz, _) = F
    return [('Faraday x', ky*Ez-dEy, -H*zeta[0]*Hx),
            ('Faraday y', dEx-kx*Ez, -H*zeta[0]*Hy),
            ('Faraday z', kx*Ey-ky*Ex, -H*zeta[1]*Hz),
            ('Ampere x', ky*Hz-dHy, H*eta[0]*Ex),
            ('Ampere y', dHx-kx*Hz, H*eta[0]*Ey),
            ('Ampere z', kx*Hy-ky*Hx, H*eta[1]*Ez)]


def direction(M, symth):
    """(kx, ky, {ab: angle factor}) with symbolic or 3-4-5 direction."""
    from symx import core, load
    from symx.core import const, CSym, var
    from fractions import Fraction
    th = var('th', pos=True)
    with load.symbolic(load.kernel, extra=lay.noclose()):
        from symx import solve
        angs = {}
        for ab in lay.ABS:
            ps = solve.paths(lambda: lay.ang(ab, th))
            angs[ab] = ps[0][1]
    c, s = core.cos(th), core.sin(th)
    if not symth:
        m = {c: const(Fraction(3, 5)), s: const(Fraction(4, 5))}
        angs = {k: core.subst(v, m) for k, v in angs.items()}
        c, s = m[c], m[s]
    kx = CSym(const(0), M.lam*c)
    ky = CSym(const(0), M.lam*s)
    return th, kx, ky, angs


def task(t, n, ls, lr, below, conc, symth, srcs=range(1, 7)):
    from symx import load, core
    from symx.core import const
    M = lay.setup(n, conc)
    pts, i_s, i_r = lay.points(ls, lr, below)
    M.place(pts)
    zs, zr, dz = M.z[i_s], M.z[i_r], M.deriv[i_r]
    th, kx, ky, angs = direction(M, symth)
    outer = (lr == 0 and (ls > 0 or not below)) or \
        (lr == n-1 and (ls < n-1 or below))
    with load.symbolic(load.kernel, extra=lay.noclose()):
        for s in srcs:
            F = tensor(M, zs, zr, ls, lr, s, angs, dz)
            for nm, a, b in rows(F, (M.eH[lr], M.eV[lr]),
                                 (M.zH[lr], M.zV[lr]), kx, ky):
                def case(env):
                    thv = env.get('th', 0.7) if symth else 0.9272952180016122
                    return lay.env_case(M, env, 'row', zs=zs, zr=zr, ls=ls,
                                        lr=lr, s=s, row=nm, th=thv)
                t.eq(f'n{n} src{ls} rec{lr} s{s} {nm}', a, b, case=case)
            if outer and not t.full():
                decay(t, M, F, n, ls, lr, s, zs, zr, pts, i_r)
            if t.full():
                return
        if not t.cex:
            t.twin('perturbed', core.lift(a.re if hasattr(a, 're') else a),
                   core.lift(b.re if hasattr(b, 're') else b) + 1)


def decay(t, M, F, n, ls, lr, s, zs, zr, pts, i_r):
    """Outermost segment -> infinity: the field must vanish."""
    from symx import core
    from symx.core import const
    if n == 1:
        seg = 'h0_1'
    else:
        inl = [k for k, p in enumerate(pts) if p[0] == lr]
        seg = f'h{lr}_{len(inl)-1}'
    zero = {}
    for (v, mono, sc) in core.CTX.expatoms.values():
        if core.var(seg) in core.vars_of(mono):
            zero[v] = const(0)

    def case(env):
        return lay.env_case(M, env, 'decay', zs=zs, zr=zr, ls=ls, lr=lr, s=s,
                            th=0.7)
    for r, (f, _) in enumerate(F):
        for q in ('re', 'im'):
            x = getattr(f, q)
            try:
                y = core.subst(x, zero)
            except ZeroDivisionError:
                t.fail(f'n{n} src{ls} rec{lr} s{s} r{r+1} grows', case)
                return
            t.eq(f'n{n} src{ls} rec{lr} s{s} r{r+1} decays', y, const(0),
                 case=case)


def replay(c):
    import numpy as np
    zs, zr, ls, lr, s = c['zs'], c['zr'], c['ls'], c['lr'], c['s']
    th = c['th']
    if c['kind'] == 'decay':
        sg = -1 if lr == 0 and (zr < zs) else 1
        g = max(c['lam'], 1e-3)
        G = np.sqrt(min(c['etaH'][lr]/c['etaV'][lr]*g*g,
                        c['zetaH'][lr]/c['zetaV'][lr]*g*g))
        far = zr + sg*200/G
        v0 = [lay.num_spec(c, zs, zr, ls, lr, 10*r+s, th)
              for r in range(1, 7)]
        v1 = [lay.num_spec(c, zs, far, ls, lr, 10*r+s, th)
              for r in range(1, 7)]
        bad = any(not abs(b) <= 1e-10*(1e-30+max(map(abs, v0))) for b in v1)
        return bad, f'near {v0}, far {v1}'
    kx, ky = 1j*c['lam']*np.cos(th), 1j*c['lam']*np.sin(th)
    h = 1e-4*max(1e-6, abs(zr-zs)) if ls == lr else 1e-4
    lo, hi = c['depth'][lr], (c['depth']+[1e300])[lr+1]
    h = min(h, 0.2*abs(zr-lo), 0.2*abs(hi-zr))
    F, sc = [], 0
    for r in range(1, 7):
        f = lambda z: lay.num_spec(c, zs, z, ls, lr, 10*r+s, th)
        d = (8*(f(zr+h)-f(zr-h))-(f(zr+2*h)-f(zr-2*h)))/(12*h)
        F.append((f(zr), d))
        sc = max(sc, abs(f(zr)))
    for nm, a, b in rows(F, (c['etaH'][lr], c['etaV'][lr]),
                         (c['zetaH'][lr], c['zetaV'][lr]), kx, ky):
        if nm == c['row']:
            return lay.differ(a, b, 1e-6, 1e-3*sc), \
                f'source {s}: {nm}: {a!r} vs {b!r}'
    return False, 'row not found'


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C02', 'c02', lay.FUNCTIONS + ['empymod.kernel.angle_factor'],
                dict(
        layers='1-2 layers: all media, wavenumber, azimuth, depths symbolic; '
        '3 layers: azimuth fixed to a 3-4-5 direction, all else symbolic; '
        '4 (quick) and 5 (thorough) layers: media concrete, depths symbolic',
        positions='every source layer x receiver layer x above/below',
        rows='six Maxwell rows x six sources; decay in outer half-spaces'),
        lay.ASSUME + ['Field(r, phi) is assembled from PJ0, PJ1, PJ0b with '
                      'J0, J1 and the angle factor as documented.'])
    big = []
    for n in (1, 2, 3):
        for ls, lr, below in lay.configs(n):
            big.append((n, ls, lr, below, None, n < 3))
    for n in ((4,) if not chk.thorough else (4, 5)):
        for ls, lr, below in lay.configs(n):
            big.append((n, ls, lr, below, 'media', False))
    for a in sorted(big, key=lambda a: -a[0] if a[4] is None else 0):
        if a[0] == 3 and a[4] is None and abs(a[1]-a[2]) == 1:
            for s in range(1, 7):
                chk.add(task, 'n%d s%d r%d %d %s ' % a[:5] + str(s), *a,
                        (s,))
        else:
            chk.add(task, 'n%d s%d r%d %d %s' % a[:5], *a)
    return chk
