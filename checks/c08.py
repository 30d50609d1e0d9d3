"""C08: the full-space closed form solves Maxwell, unit dipole."""
import math

from . import lay, fsp

H = 1


def rows(E, D, eta, zeta):
    """E[r], D[r] = (dx, dy, dz)."""
    return [
        ('Faraday x', D[2][1]-D[1][2], -H*zeta[0]*E[3]),
        ('Faraday y', D[0][2]-D[2][0], -H*zeta[0]*E[4]),
        ('Faraday z', D[1][0]-D[0][1], -H*zeta[1]*E[5]),
        ('Ampere x', D[5][1]-D[4][2], H*eta[0]*E[0]),
        ('Ampere y', D[3][2]-D[5][0], H*eta[0]*E[1]),
        ('Ampere z', D[4][0]-D[3][1], H*eta[1]*E[2]),
    ]


def exp_atoms():
    """E-atoms whose exponent contains R_TM / R_TE (the sqrt atoms)."""
    from symx import core
    return [(v, mono) for (v, mono, sc) in core.CTX.expatoms.values()]


def task_maxwell(t, s, mode):
    from symx import load, core, solve
    from symx.core import const, var
    v = fsp.variables()
    # parametrise off, dz so that the root of this mode is rational
    R, w = var('R', pos=True), var('w')
    ratio = (v['p']/v['q']) if mode == 'TM' else (v['a']/v['b'])
    cw, sw = (1-w*w)/(1+w*w), 2*w/(1+w*w)
    core.CTX.varinfo['w'].update(lo=0, hi=1)
    E, D, cases = [], [], None
    c, sn = core.cos(v['th']), core.sin(v['th'])
    for r in range(1, 7):
        ab = 10*r+s
        if ab in (36, 63):
            E.append(const(0))
            D.append([const(0)]*3)
            continue
        f, case = fsp.field(ab, vals=v)
        cases = case
        f = core.lift(f)
        do, dt = core.diff(f, v['off']), core.diff(f, v['th'])
        dx = c*do - sn/v['off']*dt
        dy = sn*do + c/v['off']*dt
        E.append(f)
        D.append([dx, dy, core.diff(f, v['zr'])])
    X = {'TM': v['p']*v['p']/(v['q']*v['q']),
         'TE': v['a']*v['a']/(v['b']*v['b'])}[mode]
    # other mode's exponentials -> 0 (the field is linear in them)
    dz = v['zr']-v['zs']
    env = core.samples()[0]
    rt = math.sqrt(core.neval(v['off'], env)**2 +
                   core.neval(dz, env)**2*core.neval(X, env))
    arg = rt*core.neval(v['a']*v['q'] if mode == 'TM' else v['b']*v['p'],
                        env)
    zero = {}
    for vv, mono in exp_atoms():
        if abs(abs(core.neval(mono, env)) - arg) > 1e-9:
            zero[vv] = const(0)
    core.register_root(R)
    mp = {v['off']: R*cw, v['zr']: v['zs'] + R*sw/ratio}

    def cs(envv):
        e = {k: float(x) for k, x in envv.items()}
        d = cases(e)
        if 'R' in e and 'w' in e:
            d['off'] = core.neval(R*cw, e)
            d['zr'] = core.neval(v['zs'] + R*sw/ratio, e)
        return dict(d, kind='maxwell', s=s)
    eta = (v['p']*v['p'], v['q']*v['q'])
    zeta = (v['a']*v['a'], v['b']*v['b'])
    for nm, a, b in rows(E, D, eta, zeta):
        a, b = core.lift(a), core.lift(b)
        a1, b1 = core.subst(a, zero), core.subst(b, zero)
        a2, b2 = core.subst(a1, mp), core.subst(b1, mp)

        def case(envv, nm=nm):
            return dict(cs(envv), row=nm)
        t.eq(f's{s} {mode} {nm}', a2, b2, case=case)
        if t.full():
            return
    t.twin('perturbed', a2, b2+1)


def task_lin(t, s):
    """The closed form is a linear combination of the two exponentials only:
    without them it vanishes."""
    from symx import core
    from symx.core import const
    v = fsp.variables()
    for r in range(1, 7):
        ab = 10*r+s
        if ab in (36, 63):
            continue
        f, case = fsp.field(ab, vals=v)
        z = {vv: const(0) for vv, m in exp_atoms()}

        def cs(env):
            return dict(case(env), kind='far', ab=ab)
        t.eq(f'ab{ab} vanishes without exponentials', core.subst(f, z),
             const(0), case=cs)


def dyadic(lib, r, s, x, y, z, eta, zeta, R, g):
    """Isotropic whole-space Green tensors (unit dipole), by definition:
    E^e = (-zeta d_rs + d_r d_s/eta) G,  G = exp(-gR)/(4 pi R); H^e = curl."""
    pi, exp = lib
    X = (x, y, z)
    G = exp(-(g*R))/(4*pi*R)
    g1 = -(g + 1/R)*G                       # dG/dR
    g2 = (g*g + 2*g/R + 2/(R*R))*G          # d2G/dR2

    def d1(i):
        return g1*X[i]/R

    def d2(i, j):
        k = g2*X[i]*X[j]/(R*R) - g1*X[i]*X[j]/(R*R*R)
        return k + g1/R if i == j else k
    i, j = (r-1) % 3, (s-1) % 3
    if (r <= 3) == (s <= 3):
        e, zt = (eta, zeta) if r <= 3 else (zeta, eta)
        v = d2(i, j)/e
        return v - zt*G if i == j else v
    # curl term: (curl (G e_j))_i = eps_{i k j} d_k G
    if i == j:
        return 0*G
    k = 3-i-j
    eps = {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1}.get((i, k, j), -1)
    # H due to J: curl H = eta E + J -> H = curl A with sign of Ampere; E
    # due to K: -curl
    return H*(eps if r > 3 else -eps)*d1(k)


def task_iso(t, r, s):
    from symx import core
    from symx.core import const, var
    v = fsp.variables(iso=True)
    ab = 10*r+s
    f, case = fsp.field(ab, vals=v)
    R, w = var('R', pos=True), var('w')
    core.CTX.varinfo['w'].update(lo=0, hi=1)
    core.register_root(R)
    cw, sw = (1-w*w)/(1+w*w), 2*w/(1+w*w)
    f = core.subst(core.lift(f), {v['off']: R*cw, v['zr']: v['zs'] + R*sw})
    x, y = core.cos(v['th'])*R*cw, core.sin(v['th'])*R*cw
    g = dyadic((core.PI(), core.exp), r, s, x, y, R*sw, v['p']*v['p'],
               v['a']*v['a'], R, v['p']*v['a'])

    def cs(env):
        e = {k: float(q) for k, q in env.items()}
        d = case(e)
        d['off'] = core.neval(R*cw, e)
        d['zr'] = core.neval(v['zs'] + R*sw, e)
        d['q'], d['b'] = d['p'], d['a']
        return dict(d, kind='iso', r=r, s=s)
    t.eq(f'isotropic ab{ab}', f, g, case=cs)
    t.twin('perturbed', f, core.lift(g)+1)


def replay(c):
    s = c.get('s')
    if c['kind'] == 'far':
        f = fsp.num(c, c['ab'])
        k = 1e3
        g = fsp.num(c, c['ab'], p=c['p']*k, q=c['q']*k, a=c['a']*k,
                    b=c['b']*k)
        return not abs(g) < 1e-20, f'field far in exponent range: {g!r}'
    x, y = c['off']*math.cos(c['th']), c['off']*math.sin(c['th'])
    z = c['zr']-c['zs']
    if c['kind'] == 'iso':
        f = fsp.num(c, 10*c['r']+s)
        R = math.sqrt(x*x+y*y+z*z)
        g = dyadic((math.pi, math.exp), c['r'], s, x, y, z, c['p']**2,
                   c['a']**2, R, c['p']*c['a'])
        sc = (c['a']**2+1/(c['p']*R)**2)*math.exp(-c['p']*c['a']*R)/R/12
        return lay.differ(f, g, 1e-7, 1e-4*sc), \
            f"ab={c['r']}{s}: {f!r}, dyadic {g!r}"
    h = 2e-4*math.sqrt(x*x+y*y+z*z)
    E, D, sc = [], [], 0
    for r in range(1, 7):
        ab = 10*r+s
        if ab in (36, 63):
            E.append(0)
            D.append((0, 0, 0))
            continue
        F = lambda dx, dy, dz: fsp.num_xyz(c, ab, x+dx, y+dy, z+dz)
        E.append(F(0, 0, 0))
        d = []
        for u in ((1, 0, 0), (0, 1, 0), (0, 0, 1)):
            f = lambda k: F(*[k*h*q for q in u])
            d.append((8*(f(1)-f(-1))-(f(2)-f(-2)))/(12*h))
        D.append(d)
        sc = max(sc, *[abs(q) if q == q else 1e300 for q in d])
    for nm, a, b in rows(E, D, (c['p']**2, c['q']**2),
                         (c['a']**2, c['b']**2)):
        if nm == c['row']:
            return lay.differ(a, b, 1e-5, 1e-3*sc), \
                f'source {s}: {nm}: {a!r} vs {b!r}'
    return False, ''


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C08', 'c08', ['empymod.kernel.fullspace',
                               'empymod.utils.check_ab'], dict(
        media='eta_h, eta_v, zeta_h, zeta_v all symbolic positive (Laplace '
        'domain); isotropic for the dyadic comparison',
        geometry='offset > 0, azimuth, source and receiver depth symbolic',
        rows='six Maxwell rows x six sources, TM and TE parts separately; '
        '34 isotropic components'), [
        lay.ASSUME[0], 'The field is split by its two exponentials (TM, TE), '
        'each proved with its own rational parametrisation of the distance; '
        'a remainder without exponentials is shown to be zero.'])
    for s in range(1, 7):
        chk.add(task_maxwell, f'TM s{s}', s, 'TM')
        chk.add(task_maxwell, f'TE s{s}', s, 'TE')
        chk.add(task_lin, f'lin s{s}', s)
    for ab in lay.ABS:
        chk.add(task_iso, f'iso {ab}', ab//10, ab % 10)
    return chk
