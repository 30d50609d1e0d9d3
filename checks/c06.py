"""C06: vertical shift, mirror, depth conventions."""
from . import lay


def sgn(ab):
    p = lambda k: -1 if k in (3, 4, 5) else 1
    return p(ab//10)*p(ab % 10)


def task(t, n, ls, lr, below, conc):
    """Kernel: shift by T, and mirror z -> -z (layers reversed)."""
    import copy
    import numpy as np
    from symx import load, core, solve, layered
    M = lay.setup(n, conc)
    pts, i_s, i_r = lay.points(ls, lr, below)
    M.place(pts)
    zs, zr = M.z[i_s], M.z[i_r]
    T = core.var('T')
    S = copy.copy(M)
    S.depth = layered.oarr([d if core.is_inf(d) else d + T for d in M.depth])
    R = copy.copy(M)
    for k in ('eH', 'eV', 'zH', 'zV', 'GT', 'GE'):
        setattr(R, k, getattr(M, k)[::-1])
    R.depth = layered.oarr([-np.inf] + [-d for d in M.depth[1:][::-1]])
    with load.symbolic(load.kernel, extra=lay.noclose()):
        for ab in lay.ABS:
            f = lay.run_pj(M, zs, zr, ls, lr, ab)
            g = lay.run_pj(S, zs+T, zr+T, ls, lr, ab)
            h = lay.run_pj(R, -zs, -zr, n-1-ls, n-1-lr, ab)
            for k in range(3):
                def case(env, kind):
                    return lay.env_case(M, env, kind, zs=zs, zr=zr, ls=ls,
                                        lr=lr, ab=ab, k=k,
                                        T=env.get('T', 1.5))
                if f[k] is None:
                    continue
                t.eq(f'n{n} {ls}->{lr} ab{ab} shift PJ{k}', f[k], g[k],
                     case=lambda e: case(e, 'shift'))
                t.eq(f'n{n} {ls}->{lr} ab{ab} mirror PJ{k}', f[k],
                     sgn(ab)*h[k], case=lambda e: case(e, 'mirror'))
                last = f[k], h[k]
                if t.full():
                    return
        t.twin('perturbed', last[0], last[1]+1)


def task_fs(t):
    """Closed form: shift and mirror."""
    from symx import core
    from . import fsp
    v = fsp.variables()
    T = core.var('T')
    for ab in lay.ABS:
        f, case = fsp.field(ab, vals=v)
        g, _ = fsp.field(ab, vals=dict(v, zs=v['zs']+T, zr=v['zr']+T))
        h, _ = fsp.field(ab, vals=dict(v, zs=-v['zs'], zr=-v['zr']))

        def cs(env):
            return dict(case(env), kind='fs', ab=ab,
                        T=float(env.get('T', 1.5)))
        t.eq(f'fullspace shift ab{ab}', f, g, case=cs)
        t.eq(f'fullspace mirror ab{ab}', f, sgn(ab)*h, case=cs)
        if t.full():
            return


PAR = ('res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')


def task_model(t, n):
    """check_model + get_layer_nr: the conventions for one n-layer model."""
    from symx import load, core, solve, layered
    from symx.core import var
    import numpy as np
    o = layered.oarr
    d0 = var('d0')
    d = [d0]
    for i in range(n-2):
        d.append(d[-1] + var(f'h{i}', pos=True))
    d = d[:n-1]
    P = {}
    for p in PAR:
        P[p] = [var(f'{p}{i}', lo=1, hi=100) for i in range(n)]
    # points: one in every layer, and one on every interface
    zs = []
    for i in range(n):
        u = var(f'u{i}', pos=True)
        if n == 1:
            zs.append(var('z'))
        elif i == 0:
            zs.append(d[0]-u)
        elif i == n-1:
            zs.append(d[-1]+u)
        else:
            w = var(f'w{i}', lo=0, hi=1)
            zs.append(d[i-1] + w*var(f'h{i-1}', pos=True))
    zs += d
    inf = np.inf
    variants = {'plain': (d, 1), '-inf': ([-inf] + d, 1),
                '+inf': (d + [inf], 1), '+-inf': ([-inf] + d + [inf], 1)}
    if n > 2:
        variants['reversed'] = (d[::-1], -1)
    if n > 1:
        variants['reversed -inf'] = (d[::-1] + [-inf], -1)
        variants['reversed +inf'] = ([inf] + d[::-1], -1)
        variants['reversed +-inf'] = ([inf] + d[::-1] + [-inf], -1)

    def case(env):
        e = {k: float(v) for k, v in env.items() if k != '#'}
        ev = lambda L: [core.neval(core.lift(x), e) for x in L]
        return dict(kind='model', n=n, depth=ev(d), z=ev(zs),
                    par={p: ev(P[p]) for p in PAR})

    def run(dep, sw):
        with load.symbolic(load.utils):
            r = load.utils.check_model(
                o(dep) if dep else [], *[o(P[p][::sw]) for p in PAR], True, 0)
            L = [load.utils.get_layer_nr([o([0]), o([0]), o([z])], r[0])[0]
                 for z in zs]
        return r, [int(x) for x in L]

    for nm, (dep, sw) in variants.items():
        ps = solve.paths(lambda: run(dep, sw))
        for pc, out in ps:
            if isinstance(out, Exception):
                if solve.pc_model(pc) is not None:
                    t.fail(f'n{n} {nm} raises {out!r}', case, env=solve.
                           pc_model(pc))
                continue
            r, L = out
            if len(r[0]) != n:
                t.fail(f'n{n} {nm} number of layers {len(r[0])}', case,
                       env=solve.pc_model(pc))
                continue
            t.claim(f'n{n} {nm} first is -inf', bool(
                core.is_inf(r[0][0]) and r[0][0] < 0), pc, case)
            for i in range(n-1):
                t.eq(f'n{n} {nm} depth {i}', r[0][i+1], d[i], pc, case)
            for k, p in enumerate(PAR):
                for i in range(n):
                    t.eq(f'n{n} {nm} {p} {i}', r[1+k][i], P[p][i], pc, case)
            exp = list(range(n)) + list(range(n-1))
            for i, (a, b) in enumerate(zip(L, exp)):
                t.claim(f'n{n} {nm} layer of point {i}', a == b, pc, case)
            if t.full():
                return


def replay(c):
    import numpy as np
    ab = c.get('ab')
    if c['kind'] == 'model':
        from empymod import utils
        n, d = c['n'], c['depth']
        inf = np.inf
        bad = []
        for nm, (dep, sw) in {
                'plain': (d, 1), '-inf': ([-inf] + d, 1),
                '+inf': (d + [inf], 1), '+-inf': ([-inf] + d + [inf], 1),
                'reversed': (d[::-1], -1),
                'reversed -inf': (d[::-1] + [-inf], -1),
                'reversed +inf': ([inf] + d[::-1], -1),
                'reversed +-inf': ([inf] + d[::-1] + [-inf], -1)}.items():
            if (sw == -1 and n == 1) or (nm == 'reversed' and n < 3):
                continue
            try:
                r = utils.check_model(dep, *[c['par'][p][::sw] for p in PAR],
                                      True, 0)
                ok = np.array_equal(r[0][1:], d) and r[0][0] == -inf
                for k, p in enumerate(PAR):
                    ok = ok and np.allclose(r[1+k], c['par'][p], rtol=1e-12)
                L = [int(utils.get_layer_nr([0, 0, z], r[0])[0])
                     for z in c['z']]
                ok = ok and L == list(range(n)) + list(range(n-1))
            except Exception as e:
                ok, L = False, repr(e)
            if not ok:
                bad.append(nm)
        return bool(bad), f'conventions that differ: {bad}'
    if c['kind'] == 'fs':
        from . import fsp
        f = fsp.num(c, ab)
        g = fsp.num(c, ab, zs=c['zs']+c['T'], zr=c['zr']+c['T'])
        h = fsp.num(c, ab, zs=-c['zs'], zr=-c['zr'])
        return lay.differ(f, g) or lay.differ(f, sgn(ab)*h), \
            f'ab={ab}: {f!r}, shifted {g!r}, mirrored {h!r}'
    a = (c['zs'], c['zr'], c['ls'], c['lr'])
    n = len(c['etaH'])
    f = lay.num_pj(c, *a, ab)[c['k']]
    if c['kind'] == 'shift':
        d = dict(c, depth=[x + c['T'] for x in c['depth']])
        g = lay.num_pj(d, a[0]+c['T'], a[1]+c['T'], a[2], a[3], ab)[c['k']]
    else:
        d = dict(c, depth=[-1e300] + [-x for x in c['depth'][1:][::-1]])
        for k in ('etaH', 'etaV', 'zetaH', 'zetaV'):
            d[k] = c[k][::-1]
        g = sgn(ab)*lay.num_pj(d, -a[0], -a[1], n-1-a[2], n-1-a[3],
                               ab)[c['k']]
    return lay.differ(f, g), f"ab={ab} {c['kind']}: {f!r} vs {g!r}"


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C06', 'c06', lay.FUNCTIONS + [
        'empymod.kernel.fullspace', 'empymod.utils.check_model',
        'empymod.utils.get_layer_nr'], dict(
        kernel='1-3 layers all symbolic; 4 (quick) 5 (thorough): media '
        'concrete, depths symbolic; shift symbolic',
        conventions='1-4 layers (6 thorough), all interface depths and six '
        'parameters per layer symbolic, points in every layer and on every '
        'interface'), lay.ASSUME)
    cf = []
    for n in (1, 2, 3):
        for ls, lr, below in lay.configs(n):
            cf.append((n, ls, lr, below, None))
    for n in ((4,) if not chk.thorough else (4, 5)):
        for ls, lr, below in lay.configs(n):
            cf.append((n, ls, lr, below, 'media'))
    for a in sorted(cf, key=lambda a: -a[0] if a[4] is None else 0):
        chk.add(task, 'n%d s%d r%d %d %s' % a, *a)
    chk.add(task_fs, 'fullspace')
    for n in range(1, 5 if not chk.thorough else 7):
        chk.add(task_model, f'model n{n}', n)
    return chk
