"""C14: a point belongs to the layer above < z <= below; that layer's
properties are the ones used."""
from . import api
from .c12 import legendre, wnr, core_register

PTS = (50, 900)


def model(n, form, order):
    """n layers.  (user depth, user res, bounds, resistivities)"""
    from symx.core import var
    d = [var('d0', lo=90, hi=110)]
    for i in range(n-2):
        d.append(d[-1] + var(f'h{i}', pos=True, lo=50, hi=150))
    if n == 1:
        d = []
    res = [0.3+0.7*i for i in range(n)]
    inf = float('inf')
    b = [-inf] + d + [inf]
    bounds = [(b[i], b[i+1]) for i in range(n)]
    u = list(d)
    if form == 'ninf':
        u = [-inf]+u
    elif form == 'inf':
        u = u+[inf]
    elif form == 'both':
        u = [-inf]+u+[inf]
    r = list(res)
    if order == 'down':
        u, r = u[::-1], r[::-1]
    return u, r, bounds, res


def inside(z, b):
    from symx import core
    c = []
    if not core.is_inf(b[0]):
        c.append(core.lift(b[0]) < z)
    if not core.is_inf(b[1]):
        c.append(core.lift(z) <= b[1])
    return core.sand(*c) if c else core.TRUE


def t_direct(t, n, m, shape):
    """get_layer_nr itself; m points, shape 'scalar' | 'list' | 'array'."""
    import numpy as np
    from symx import load, solve, core
    from symx.core import var
    from symx.layered import oarr
    u, r, bounds, res = model(n, '', 'up')
    z = [var(f'z{i}', lo=50, hi=600) for i in range(m)]
    inp = [z[0], oarr(z), oarr(z)]
    zi = {'scalar': z[0], 'list': list(z), 'array': oarr(z)}[shape]
    depth = oarr([-np.inf]+u)
    from symx.npx import SArr
    depth = np.array([-np.inf]+u, dtype=object).view(SArr)

    def f():
        with load.symbolic(load.utils):
            return load.utils.get_layer_nr([z, z, zi], depth)
    cnt = 0
    case = api.kwcase('direct', depth=u, z=z, shape=shape)
    for pc, o in solve.paths(f):
        cnt += 1
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', case, repr(o), env=e)
            continue
        l = np.atleast_1d(np.asarray(o[0]))
        zz = np.atleast_1d(np.asarray(o[1], dtype=object))
        if l.shape != (m,) or zz.shape != (m,):
            t.fail(f'shape {l.shape}', case, env=solve.pc_model(pc))
            continue
        for i in range(m):
            t.claim(f'layer of point {i}', inside(z[i], bounds[int(l[i])]),
                    pc, case=case)
            t.eq('depth', zz[i], z[i], pc, case=case)
    if not cnt:
        t.errors.append('no path')
    elif n > 1:
        t.twin_claim('not always layer 0', inside(z[0], bounds[0]))


def call(fn, load, src, rec, u, r, extra):
    f = getattr(load.model, fn)
    kw = dict(src=src, rec=rec, depth=u, res=r, verb=0, **extra)
    if fn == 'dipole_k':
        kw['freq'] = [1.]
        import numpy as np
        kw['wavenumber'] = np.array([0.01])
    else:
        kw['freqtime'] = [1.]
    return f(**kw)


def t_call(t, fn, n, form, order, sk, rk, ns, nr, extra):
    """At every kernel/transform call: the properties of the layers assigned
    to source and receiver are those of the layer the point is in."""
    import numpy as np
    from symx import load, solve, core
    from symx.core import var
    u, r, bounds, res = model(n, form, order)
    epH = [1.+i for i in range(n)]
    extra = dict(extra, epermH=(epH if order == 'up' else epH[::-1]),
                 xdirect=False)

    def pts(s, k, m):
        x = [(-200. if s == 's' else 300.)+20*i for i in range(m)]
        y = [10.+7*i for i in range(m)]
        z = [var(f'{s}z{i}', lo=PTS[0], hi=PTS[1])
             for i in range(m if k[-1] == 'n' else 1)]
        if k[:3] == 'dip':
            if fn != 'bipole':
                return [x, y, z[0]], z
            return [x, y, z, 10, 20], z
        dz = var(f'{s}len', lo=20, hi=150)
        return [x, [q+30 for q in x], y, [q+40 for q in y], z,
                [q + dz for q in z]], z + [dz]
    S = api.Stubs()
    attrs = [(load.utils.sp.special, 'roots_legendre', legendre)]
    if fn == 'dipole_k':
        w = wnr(S)

        def wn(*a, **k):
            S.calls.append(('wn', dict(api._bind(w.real)(a, k))))
            return w(*a, **k)
        attrs.append((load.kernel, 'wavenumber', wn))
    src, sv = pts('s', sk, ns)
    rec, rv = pts('r', rk, nr)
    case = api.kwcase('call', fn=fn, src=src, rec=rec, depth=u, res=r,
                      extra=extra, bounds=bounds)
    cnt = 0
    if len(src) == 6 or len(rec) == 6:
        core_register(core.const(50))
        for s in (sv, rv):
            pass

    def f():
        S.calls.clear()
        o = call(fn, load, src, rec, u, r, extra)
        return list(S.calls)
    for pc, o in api.run(f, S, attrs=attrs, one=False):
        cnt += 1
        if isinstance(o, Exception):
            e = solve.pc_model(pc)
            if e is not None:
                t.fail('raises', case, repr(o)[:200], env=e)
            continue
        seen = {'s': [], 'r': []}
        for kind, q in o:
            if q['etaH'].shape[-1] != n:
                t.fail('number of layers', case, env=solve.pc_model(pc))
                continue
            for nm, z, l in (('s', q['zsrc'], q['lsrc']),
                             ('r', q['zrec'], q['lrec'])):
                z = core.lift(api._sc(z))
                l = int(api._sc(l))
                key = (nm, id(z), l)
                if key in seen[nm]:
                    continue
                seen[nm].append(key)
                e = core.CSym.of(np.asarray(q['etaH'], dtype=object)[0, l])
                for k in range(n):
                    c = ~inside(z, bounds[k])
                    if c.op == 'k' and c.args[0]:
                        continue
                    same = core.sand(
                        core.lift(e.re) == core.lift(1/np.float64(res[k])))
                    t.claim(f'{nm} layer {l} of {n}: properties of layer '
                            f'{k}', core.sor(c, same), pc, case=case)
                # the layer stack passed on is the given one
        if not (seen['s'] and seen['r']):
            t.errors.append('no calls recorded')
        if t.full():
            return
    if not cnt:
        t.errors.append('no path')


def replay(c):
    import numpy as np
    import empymod
    if c['kind'] == 'direct':
        from empymod import utils
        z = c['z']
        d = np.array([-np.inf]+c['depth'])
        zi = {'scalar': z[0], 'list': z, 'array': np.array(z)}[c['shape']]
        if c['shape'] == 'scalar':
            z = z[:1]
        try:
            l, zz = utils.get_layer_nr([z, z, zi], d)
        except Exception as e:
            return True, f'get_layer_nr({zi}, {d}) raises {e!r}'
        b = np.r_[d, np.inf]
        exp = [max(i for i in range(len(d)) if b[i] < q) for q in z]
        bad = list(np.atleast_1d(l)) != exp
        return bad, (f'get_layer_nr(z={z}, depth={d}) = {l}, expected {exp} '
                     '(upper interface < z <= lower interface)')
    # public routine: compare with an explicit shift of on-interface points
    # -- the recorded layer numbers of the real routine
    calls = []
    from empymod import model, transform, kernel, utils
    saved = []

    def spy(mod, nm):
        real = getattr(mod, nm)
        b = api._bind(real)

        def g(*a, **k):
            calls.append(dict(b(a, k)))
            return real(*a, **k)
        saved.append((mod, nm, real))
        setattr(mod, nm, g)
    # dispatcher objects of numba have a python signature, too
    import inspect
    if c['fn'] == 'dipole_k':
        spy(kernel, 'wavenumber')
    else:
        spy(transform, 'hankel_dlf')
    try:
        class Ld:
            model = empymod.model
        try:
            call(c['fn'], Ld, c['src'], c['rec'], c['depth'], c['res'],
                 c['extra'])
        except Exception as e:
            return True, f'raises {e!r}'
    finally:
        for m, nm, real in saved:
            setattr(m, nm, real)
    down = len(c['res']) > 1 and c['res'][0] > c['res'][-1]
    res = c['res'][::-1] if down else c['res']
    for q in calls:
        for nm, z, l in (('source', q['zsrc'], q['lsrc']),
                         ('receiver', q['zrec'], q['lrec'])):
            z, l = float(np.squeeze(z)), int(np.squeeze(l))
            k = [i for i, b in enumerate(c['bounds']) if b[0] < z <= b[1]][0]
            e = q['etaH'][0, l].real
            if abs(e*res[k]-1) > 1e-9:
                return True, (f'{c["fn"]}: {nm} at z={z} is in layer {k} '
                              f'({c["bounds"][k]}, res {res[k]}), but res '
                              f'{1/e} is used')
    return False, 'right layers used'


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C14', 'c14', ['empymod.utils.get_layer_nr'] + api.FUNCTIONS +
                ['empymod.model.dipole_k'], dict(
        layers='1-6 layers (get_layer_nr), 1-4 (routines), symbolic '
        'interfaces; increasing and decreasing input order, with and without '
        'infinite outer bounds', points='1-4 symbolic depths anywhere '
        '(including exactly on interfaces); dipoles, finite dipoles with 1 '
        'and 3 symbolic integration points'), api.ASSUME)
    T = chk.add
    nl = 8 if chk.thorough else 6
    for n in range(1, nl+1):
        for m, sh in ((1, 'scalar'), (1, 'list'), (1, 'array'), (2, 'array'),
                      (3, 'list'), (4, 'array')):
            if (n+1)**m > (9000 if chk.thorough else 300):
                continue
            T(t_direct, f'direct {n} {m} {sh}', n, m, sh)
    for fn in ('bipole', 'dipole', 'dipole_k'):
        for n in (1, 2, 3, 4):
            for form in ('', 'ninf', 'inf', 'both'):
                for o in ('up', 'down'):
                    if n < 2 and o == 'down':
                        continue
                    if n == 2 and form == '' and o == 'down':
                        continue
                    if form and n == 4 and not chk.thorough:
                        continue
                    T(t_call, f'{fn} {n} {form} {o}', fn, n, form, o, 'dip',
                      'dip', 1, 1, {} if fn == 'bipole' else dict(ab=11))
    for o in ('up', 'down'):
        for a, b, ns, nr, ex in (
                ('dipn', 'dip', 2, 1, {}), ('dip', 'dipn', 1, 2, {}),
                ('dipn', 'dipn', 2, 2, {}), ('dip', 'dip', 2, 3, {}),
                ('bip', 'dip', 1, 1, dict(srcpts=3)),
                ('dip', 'bip', 1, 1, dict(recpts=3)),
                ('bip', 'dip', 1, 1, {}), ('bip', 'bip', 1, 1, {}),
                ('bipn', 'dip', 2, 1, {}),
                ('dip', 'dip', 1, 1, dict(mrec=True)),
                ('dip', 'dip', 1, 1, dict(msrc=True)),
                ('dip', 'dip', 1, 1, dict(msrc=True, mrec=True))):
            n = 3 if len(ex) == 0 or 'mrec' in ex or 'msrc' in ex else 2
            if 'bip' in (a[:3], b[:3]):
                n = 2 if not chk.thorough else 3
            if a == b == 'dipn' and not chk.thorough:
                n = 2
            if n == 2 and o == 'down':
                continue
            T(t_call, f'multi {a}{b}{ns}{nr}{ex}{o}', 'bipole', n, '', o, a,
              b, ns, nr, ex)
    return chk
