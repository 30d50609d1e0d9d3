"""C12: batched calls equal individual calls (bipole, dipole, analytical,
dipole_k, loop), in the documented order and shape."""
from . import api

DEPTH = [0., 300., 1000.]
RES = [2e14, 0.3, 2., 5.]


def mk(name, n, lo, hi):
    from symx.core import var
    return [var(f'{name}{i}', lo=lo, hi=hi) for i in range(n)]


def points(kind, n, z, side, ang, depths):
    """Input of n dipoles/bipoles; z: 'common' | 'own' depths."""
    sx = (-300, -100) if side == 's' else (400, 900)
    sy = (-50, 50) if side == 's' else (100, 200)
    nz = n if z == 'own' else 1
    zz = [depths[i % len(depths)] for i in range(nz)]
    zv = []
    from symx.core import var
    for i, (a, b) in enumerate(zz):
        zv.append(var(f'{side}z{i}', lo=a, hi=b))
    if kind == 'dip':
        return [mk(side+'x', n, *sx), mk(side+'y', n, *sy), zv,
                list(ang[0]), list(ang[1])]
    # finite dipoles; directions concrete (all directions: C13)
    x0, y0 = mk(side+'x', n, *sx), mk(side+'y', n, *sy)
    d = [(30, 40, 10), (-24, 32, 10), (40, 0, 10)]
    x1 = [x + d[i][0] for i, x in enumerate(x0)]
    y1 = [y + d[i][1] for i, y in enumerate(y0)]
    return [x0, x1, y0, y1, zv, [q + 10 for q in zv]]


def pick(p, i, n):
    return [[q[i] if len(q) == n else q[0]] for q in p]


def t_bipole(t, ns, nr, sk, rk, sz, rz, sang, rang, nf, extra):
    from symx import load
    from symx.core import var
    # source depths in layer 1, receiver depths in layers 1 and 2
    src = points(sk, ns, sz, 's', sang, [(50, 120), (130, 200)])
    rec = points(rk, nr, rz, 'r', rang, [(400, 500), (210, 280), (600, 700)])
    freq = mk('f', nf, 1, 10)
    kw = dict(depth=DEPTH, res=RES, **extra)
    if kw.get('strength'):
        kw['strength'] = var('strength', pos=True, lo=2, hi=5)

    def L():
        return load.model.bipole(src, rec, freqtime=freq, verb=0,
                                 squeeze=False, **kw)

    def R():
        import numpy as np
        out = np.empty((nf, nr, ns), dtype=object)
        for i in range(ns):
            for j in range(nr):
                for k in range(nf):
                    out[k, j, i] = api.arr(load.model.bipole(
                        pick(src, i, ns), pick(rec, j, nr),
                        freqtime=freq[k], verb=0, **kw)).reshape(-1)[0]
        return out
    S = api.Stubs()
    at = [(load.utils.sp.special, 'roots_legendre', legendre)]
    for x in fin_roots(src) + fin_roots(rec):
        core_register(x)
    api.compare(t, f'bipole {ns}{sk}{sz}x{nr}{rk}{rz} f{nf}', L, R, S,
                api.kwcase('bipole', src=src, rec=rec, freqtime=freq, ns=ns,
                           nr=nr, nf=nf, **kw), twin=True, attrs=at)


def core_register(r):
    from symx import core
    core.register_root(r)


def fin_roots(p):
    """Closed form of cos(dip) = horizontal over total length."""
    from symx import core
    if len(p) != 6:
        return []
    out = []
    for i in range(len(p[0])):
        g = lambda q: q[i] if len(q) > 1 else q[0]
        dx, dy, dz = [g(p[2*k+1])-g(p[2*k]) for k in range(3)]
        out.append(core.sqrt(dx*dx+dy*dy)/core.sqrt(dx*dx+dy*dy+dz*dz))
    return out


def legendre(n):
    """Symbolic nodes (antisymmetric) and weights (sum 2)."""
    import numpy as np
    from symx import core
    from symx.core import var, const
    from symx.npx import SArr
    n = int(n)
    x, w = [None]*n, [None]*n
    for i in range(n//2):
        v = var(f'node{n}_{i}', pos=True, hi=1)
        x[n-1-i], x[i] = v, -v
        w[i] = w[n-1-i] = var(f'wgt{n}_{i}', pos=True, hi=0.5)
    if n % 2:
        x[n//2] = const(0)
        rest = const(2)
        for i in range(n):
            if i != n//2:
                rest = rest - w[i]
        w[n//2] = rest
    else:
        rest = const(2)
        for i in range(n):
            if i not in (n//2-1, n//2):
                rest = rest - w[i]
        w[n//2-1] = w[n//2] = rest/2
    o = lambda q: np.array(q, dtype=object).view(SArr)
    return o(x), o(w)


def t_simple(t, fn, ns, nr, nf, extra):
    """dipole / analytical / dipole_k with one common source / receiver
    depth."""
    from symx import load
    from symx.core import var
    src = [mk('sx', ns, -300, -100), mk('sy', ns, -50, 50),
           var('sz', lo=50, hi=120)]
    rec = [mk('rx', nr, 400, 900), mk('ry', nr, 100, 200),
           var('rz', lo=200, hi=280)]
    freq = mk('f', nf, 1, 10)
    S = api.Stubs()
    attrs = []
    kw = dict(extra)
    if fn == 'analytical':
        kw['res'] = RES[1]
        attrs = [(load.kernel, 'halfspace', half(S))]
        fq = 'freqtime'
    else:
        kw['depth'], kw['res'] = DEPTH, RES
        fq = 'freqtime' if fn == 'dipole' else 'freq'
    if fn == 'dipole_k':
        from symx.layered import oarr
        kw['wavenumber'] = oarr(mk('lam', 2, 0.001, 0.1))
        attrs = [(load.kernel, 'wavenumber', wnr(S))]
    f = getattr(load.model, fn)

    def one(s, r, fr):
        o = f(s, r, verb=0, **{fq: fr}, **kw)
        return o

    def flat(o, nk):
        import numpy as np
        if fn == 'dipole_k':
            return np.stack([api.arr(o[0]).reshape(nk),
                             api.arr(o[1]).reshape(nk)])
        o = api.arr(o)
        parts = o.shape[0] if kw.get('solution', '')[1:] in (
            'split', 'tetm') else 1
        return o.reshape((parts,)+nk)

    def L():
        if fn == 'dipole_k':
            return flat(one(src, rec, freq), (nf, nr*ns, 2))
        o = f(src, rec, verb=0, squeeze=False, **{fq: freq}, **kw)
        a = api.arr(o)
        parts = kw.get('solution', '')[1:] in ('split', 'tetm')
        if a.shape[-3:] != (nf, nr, ns):
            return a
        return a if parts else a[None]

    def R():
        import numpy as np
        blocks = []
        for i in range(ns):
            for j in range(nr):
                for k in range(nf):
                    s = [[src[0][i]], [src[1][i]], src[2]]
                    r = [[rec[0][j]], [rec[1][j]], rec[2]]
                    nk = (1, 1, 2) if fn == 'dipole_k' else (1, 1, 1)
                    blocks.append(((i, j, k), flat(one(s, r, freq[k]), nk)))
        p = blocks[0][1].shape[0]
        if fn == 'dipole_k':
            out = np.empty((p, nf, nr*ns, 2), dtype=object)
            for (i, j, k), v in blocks:
                out[:, k, i*nr+j] = v[:, 0, 0]
        else:
            out = np.empty((p, nf, nr, ns), dtype=object)
            for (i, j, k), v in blocks:
                out[:, k, j, i] = v[:, 0, 0, 0]
        return out
    api.compare(t, f'{fn} {ns}x{nr} f{nf} {extra}', L, R, S,
                api.kwcase(fn, src=src, rec=rec, fq=fq, freqs=freq, ns=ns,
                           nr=nr, nf=nf, **kw), attrs=attrs, twin=True)


def half(S):
    """halfspace stub: uninterpreted per frequency/offset, all parts."""
    from symx import load
    bind = api._bind(load.kernel.halfspace)

    def halfspace(*a, **k):
        import numpy as np
        from symx.npx import SArr
        q = bind(a, k)
        off = np.atleast_1d(np.asarray(q['off'], dtype=object))
        ang = np.atleast_1d(np.asarray(q['angle'], dtype=object))
        ft = np.asarray(q['freqtime'], dtype=object)
        if ft.ndim != 2 or ft.shape[1] != 1:
            raise ValueError('freqtime')
        eH, eV = [np.asarray(q[n], dtype=object) for n in ('etaH', 'etaV')]
        sol = str(q['solution'])
        n = {'split': 3, 'tetm': 5}.get(sol[1:], 1)
        outs = []
        for p in range(n):
            nm = f"HS{int(q['ab'])}{q['signal']}{sol}{p}"
            o = np.empty((ft.shape[0], off.size), dtype=object)
            for i in range(o.shape[0]):
                for j in range(off.size):
                    args = [off[j], ang[j]] + api._flat(q['zsrc']) + \
                        api._flat(q['zrec']) + api._flat(ft[i])
                    for m in (eH, eV):
                        args += api._flat(m[i % m.shape[0]])
                    o[i, j] = S._val(nm, args)
            outs.append(o.view(SArr))
        return outs[0] if n == 1 else tuple(outs)
    return halfspace


def wnr(S):
    """kernel.wavenumber stub: uninterpreted per frequency and wavenumber."""
    from symx import load
    bind = api._bind(load.kernel.wavenumber)
    real = load.kernel.wavenumber
    have = {}

    def wavenumber(*a, **k):
        import numpy as np
        from symx.npx import SArr
        q = bind(a, k)
        ab = int(q['ab'])
        lam = np.asarray(q['lambd'], dtype=object)
        if lam.ndim != 2:
            raise ValueError('lambd')
        med = [np.asarray(q[n], dtype=object) for n in
               ('etaH', 'etaV', 'zetaH', 'zetaV')]
        # which parts exist for this component: from the real function
        if ab not in have:
            have[ab] = parts(ab)
        nm0 = (f"{ab}{bool(q['msrc'])}{bool(q['mrec'])}{bool(q['xdirect'])}"
               f"L{int(api._sc(q['lsrc']))}{int(api._sc(q['lrec']))}"
               f"n{med[0].shape[1]}")
        outs = []
        for p in range(3):
            if not have[ab][p]:
                outs.append(None)
                continue
            o = np.empty((med[0].shape[0],)+lam.shape, dtype=object)
            for i in np.ndindex(o.shape):
                args = [lam[i[1:]]] + api._flat(q['zsrc']) + \
                    api._flat(q['zrec']) + api._flat(q['depth'])
                for m in med:
                    args += api._flat(m[i[0]])
                o[i] = S._val(f'PJ{p}_{nm0}', args)
            outs.append(o.view(SArr))
        return tuple(outs)
    wavenumber.real = real
    return wavenumber


# PJ0 / PJ1 / PJ0b existence per (calculated) component pair: the documented
# structure of the kernels.
def parts(ab):
    if ab in (13, 23, 31, 32, 16, 26, 34, 35):
        return (False, True, False)
    if ab in (33,):
        return (True, False, False)
    return (True, True, True)


def replay(c):
    import numpy as np
    kind = c['kind']
    c = {k: v for k, v in c.items() if k != 'kind'}
    ns, nr, nf = c.pop('ns'), c.pop('nr'), c.pop('nf')
    src, rec = c.pop('src'), c.pop('rec')
    if kind == 'bipole':
        fr = c.pop('freqtime')
        f = api.real_call('bipole', dict(c, src=src, rec=rec, freqtime=fr,
                                         squeeze=False))
        g = np.empty((nf, nr, ns), dtype=complex)
        for i in range(ns):
            for j in range(nr):
                for k in range(nf):
                    g[k, j, i] = api.real_call('bipole', dict(
                        c, src=pick(src, i, ns), rec=pick(rec, j, nr),
                        freqtime=fr[k])).ravel()[0]
    else:
        fq, fr = c.pop('fq'), c.pop('freqs')
        if kind == 'dipole_k':
            c['wavenumber'] = np.array(c['wavenumber'], dtype=float)

        def one(s, r, q, **k):
            return api.real_call(kind, dict(c, src=s, rec=r, **{fq: q}, **k))
        if kind == 'dipole_k':
            f = one(src, rec, fr).reshape(2, nf, nr*ns, 2)
            g = np.empty_like(f)
        else:
            f = one(src, rec, fr, squeeze=False)
            p = c.get('solution', '')[1:] in ('split', 'tetm')
            if not p:
                f = f[None]
            g = np.empty((f.shape[0], nf, nr, ns), dtype=complex)
        for i in range(ns):
            for j in range(nr):
                for k in range(nf):
                    o = one([[src[0][i]], [src[1][i]], src[2]],
                            [[rec[0][j]], [rec[1][j]], rec[2]], fr[k])
                    if kind == 'dipole_k':
                        g[:, k, i*nr+j] = o.reshape(2, 2)
                    else:
                        g[:, k, j, i] = o.reshape(f.shape[0])
    d = 0.0
    if f.shape != g.shape:
        d = float('inf')
    else:
        # entry-wise relative difference
        d = max(api.ndiff(f[i:i+1], g[i:i+1]) for i in range(f.shape[0]))
        e = np.abs(f-g)/(np.maximum(np.abs(f), np.abs(g))+1e-300)
        d = max(d, float(np.nanmax(e)) if e.max() > 1e-3 else d)
    return not d < 1e-6, (f'{kind} {ns} sources x {nr} receivers: batch '
                          f'{f.ravel()[:4]} individual {g.ravel()[:4]} '
                          f'(rel. diff {d:.2e})')


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C12', 'c12', api.FUNCTIONS + [
        'empymod.model.analytical', 'empymod.model.dipole_k'], dict(
        batch='1-3 sources x 1-3 receivers x 1-2 frequencies',
        depths='common or individual source/receiver depths, point and '
        'finite dipoles', values='positions, depths (within fixed layers), '
        'frequencies, strength, quadrature nodes/weights symbolic; '
        'orientations concrete lists'), api.ASSUME)
    A0, A1, A2 = ([0], [0]), ([0, 90, 30], [0]), ([20], [10, 90, 0])

    def ang(a, n):
        return [q[:n] if len(q) > 1 else q for q in a]
    N = (1, 2, 3)
    kinds = [('dip', 'dip'), ('bip', 'dip'), ('dip', 'bip'), ('bip', 'bip')]
    for sk, rk in kinds:
        for ns in N:
            for nr in N:
                if ns*nr == 1:
                    continue
                if 'bip' in (sk, rk) and ns*nr > 4 and not chk.thorough and \
                        (ns, nr) not in ((3, 2), (2, 3)):
                    continue
                for sz in ('common', 'own') if ns > 1 else ('common',):
                    for rz in ('common', 'own') if nr > 1 else ('common',):
                        for a, b in ((A1, A2), (A0, A0)):
                            if (sk, rk) != ('dip', 'dip') and a is A0 and \
                                    not chk.thorough:
                                continue
                            ex = {}
                            if sk == 'bip':
                                ex['srcpts'] = 3
                                ex['strength'] = 1
                            if rk == 'bip':
                                ex['recpts'] = 3 if sk == 'dip' else 1
                            chk.add(t_bipole, f'{sk}{rk}{ns}{nr}{sz}{rz}'
                                    f'{a is A0}', ns, nr, sk, rk, sz, rz,
                                    ang(a, ns), ang(b, nr),
                                    2 if ns*nr < 6 else 1, ex)
    for ex in (dict(mrec=True), dict(msrc=True), dict(msrc='b', mrec='j'),
               dict(mrec='b', msrc=True), dict(mrec='j')):
        for sz in ('common', 'own'):
            for rz in ('common', 'own'):
                chk.add(t_bipole, f'flag {ex}{sz}{rz}', 2, 2, 'dip', 'dip',
                        sz, rz, ang(A1, 2), ang(A2, 2), 2, ex)
    for ns in N:
        for nr in N:
            if ns*nr > 1:
                for ab in (11, 23, 46, 51, 36, 63):
                    chk.add(t_simple, f'dipole{ns}{nr}{ab}', 'dipole', ns,
                            nr, 2, dict(ab=ab))
    for ns, nr in ((2, 2), (1, 2), (3, 2)):
        for so in ('fs', 'dfs', 'dhs', 'dsplit', 'dtetm'):
            chk.add(t_simple, f'ana{ns}{nr}{so}', 'analytical', ns, nr, 2,
                    dict(solution=so, ab=12))
        chk.add(t_simple, f'ana{ns}{nr}36', 'analytical', ns, nr, 2,
                dict(solution='fs', ab=36))
        for ab in (11, 31, 42, 56, 33, 36, 63):
            chk.add(t_simple, f'dk{ns}{nr}{ab}', 'dipole_k', ns, nr, 2,
                    dict(ab=ab))
    return chk
