"""C13: finite-length bipoles = length-weighted sums of point dipoles."""
from . import api
from .c12 import legendre

DEPTH = [0., 2000.]
RES = [2e14, 0.3, 2.]
AXES = ((0., 0.), (90., 0.), (0., 90.))        # x, y, z (down)


def electrodes(side, n, same_z, shape):
    """n finite dipoles.  shape: which of dx, dy, dz are non-zero (free) or
    concrete zero, e.g. 'xyz', 'xy', 'z', '-x' ..."""
    from symx import core
    from symx.core import var
    lox = -300 if side == 's' else 500
    p = [[] for _ in range(6)]
    z0 = [var(f'{side}z{i}', lo=100+200*i, hi=250+200*i)
          for i in range(1 if same_z else n)]
    cen = []
    for i in range(n):
        d = []
        for k, c in enumerate('xyz'):
            if c in shape:
                # direction sign free
                d.append(var(f'{side}d{c}{i if not (same_z and c == "z") else 0}',
                             lo=-40 if 'g' in shape else 10, hi=40))
            else:
                d.append(core.const(0))
        if '-' in shape:
            d = [-q for q in d]
        x = var(f'{side}x{i}', lo=lox, hi=lox+150)
        y = var(f'{side}y{i}', lo=40, hi=60) if side == 'r' else \
            var(f'{side}y{i}', lo=-60, hi=-40)
        z = z0[i % len(z0)]
        p[0].append(x)
        p[1].append(x+d[0])
        p[2].append(y)
        p[3].append(y+d[1])
        if i < len(z0):
            p[4].append(z)
            p[5].append(z+d[2])
        cen.append((x, y, z, *d))
    return p, cen


def setup_roots(cen):
    from symx import core
    for x, y, z, dx, dy, dz in cen:
        h, l = core.sqrt(dx*dx+dy*dy), core.sqrt(dx*dx+dy*dy+dz*dz)
        core.register_root(h/l)
        if not dy.is_const(0) and not dx.is_const(0):
            az = core.atan2(dy, dx)
            api.link_angle(az)
        if not dz.is_const(0) and not h.is_const(0):
            api.link_angle(core.PI()/2 - core.acos(dz/l))


def expected(call, scen, rcen, snodes, rnodes, strength, nf, sqrt):
    """[f, rec, src] from the definition; s/rcen: (x,y,z,dx,dy,dz) or, for a
    dipole, ('dip', x, y, z, azm, dip)."""
    import numpy as np
    out = np.zeros((nf, len(rcen), len(scen)), dtype=object)

    def quad(c, nodes):
        """[(weight, point, (axis, cosine)...)]"""
        if c[0] is None:
            return [(1, c[1:4], [((c[4], c[5]), 1)])], 1
        x, y, z, dx, dy, dz = c
        l = sqrt(dx*dx+dy*dy+dz*dz)
        cs = [(AXES[0], dx/l), (AXES[1], dy/l), (AXES[2], dz/l)]
        cs = [q for q in cs if not _zero(q[1])]
        r = []
        for nd, w in nodes:
            f = (1+nd)/2
            r.append((w/2, (x+f*dx, y+f*dy, z+f*dz), cs))
        return r, l
    for i, s in enumerate(scen):
        sq, sl = quad(s, snodes)
        for j, r in enumerate(rcen):
            rq, rl = quad(r, rnodes)
            for w1, p1, c1 in sq:
                for w2, p2, c2 in rq:
                    for a, u in c1:
                        for b, v in c2:
                            e = call([[p1[0]], [p1[1]], [p1[2]], [a[0]],
                                      [a[1]]], [[p2[0]], [p2[1]], [p2[2]],
                                                [b[0]], [b[1]]])
                            e = np.asarray(e, dtype=object).reshape(nf)
                            out[:, j, i] += e*(w1*w2*u*v)
            if strength is not None:
                out[:, j, i] = out[:, j, i]*(strength*sl*rl)
    return out


def _zero(x):
    from symx.core import Sym
    return x.is_const(0) if isinstance(x, Sym) else x == 0


def task(t, ns, nr, sshape, rshape, spts, rpts, strength, same_z, msrc, mrec,
         reverse=False):
    from symx import load, core
    from symx.core import var
    S = api.Stubs()

    def side(nm, n, shape):
        if shape == 'dip':
            if nm == 's':
                c = [(None, var('sx', lo=-300, hi=-150),
                      var('sy', lo=-60, hi=-40), var('sz', lo=100, hi=250),
                      30., 20.)]
            else:
                c = [(None, var(f'rx{i}', lo=500, hi=650),
                      var(f'ry{i}', lo=40, hi=60), var('rz', lo=300, hi=400),
                      0., 90.) for i in range(n)]
            p = [[q[k] for q in c] for k in range(1, 6)]
            p[2] = p[2][:1]
            p[3], p[4] = p[3][:1], p[4][:1]
            return p, c
        p, c = electrodes(nm, n, same_z, shape)
        setup_roots(c)
        if reverse:
            setup_roots([q[:3]+tuple(-v for v in q[3:]) for q in c])
        if 'g' in shape:
            assume.append(~(c[0][3] == 0))
        return p, c
    assume = []
    src, scen = side('s', ns, sshape)
    rec, rcen = side('r', nr, rshape)
    st = None
    sval = 0
    if strength:
        st = sval = var('strength', lo=2, hi=9) if strength == 'pos' else \
            -var('strength', lo=2, hi=9)
    freq = [var('f0', lo=1, hi=10)]
    kw = dict(depth=DEPTH, res=RES, freqtime=freq, msrc=msrc, mrec=mrec)

    def nodes(n):
        if n < 3:
            return [(0, 2)]
        x, w = legendre(n)
        return list(zip(x, w))

    def call(s, r):
        return load.model.bipole(s, r, verb=0, **kw)

    def swap(p):
        return [p[1], p[0], p[3], p[2], p[5], p[4]]

    def L():
        s = swap(src) if reverse and sshape != 'dip' else src
        r = swap(rec) if reverse and rshape != 'dip' else rec
        f = api.arr(load.model.bipole(
            s, r, verb=0, srcpts=spts, recpts=rpts, strength=sval,
            squeeze=False, **kw))
        sg = 1
        if reverse:
            sg = (-1)**((sshape != 'dip') + (rshape != 'dip'))
        return f*sg

    def R():
        return expected(call, scen, rcen, nodes(spts), nodes(rpts), st, 1,
                        core.sqrt)
    case = api.kwcase('fin', src=src, rec=rec, scen=[list(c) for c in scen],
                      rcen=[list(c) for c in rcen], srcpts=spts, recpts=rpts,
                      strength=sval, reverse=reverse, **kw)
    api.compare(t, f'{ns}{sshape}{spts}x{nr}{rshape}{rpts} st{strength} '
                f'z{same_z} m{msrc}{mrec} rev{reverse}', L, R, S, case,
                assume, attrs=[(load.utils.sp.special, 'roots_legendre', legendre)],
                twin=True)


def t_weights(t, n):
    """Weights of the real get_azm_dip: sum one, symmetric points on the
    segment (real Gauss-Legendre rule: concrete numbers, tolerance)."""
    import numpy as np
    from symx import load
    x, w = load.sp.special.roots_legendre(n)
    o = load.utils.get_azm_dip([np.array([1.]), np.array([3.]),
                                np.array([5.]), np.array([9.]),
                                np.array([0.]), np.array([4.])], 0, 1, n,
                               False, 0., 'src', 0)
    t.ob += 1
    ok = abs(np.sum(o[3])-1) < 1e-12 and np.all(
        np.abs(o[0][0]-(2+x)) < 2e-3) and np.all(
        np.abs(o[0][1]-(7+2*x)) < 2e-3) and np.all(
        np.abs(o[0][2]-(2+2*x)) < 2e-3)
    if ok:
        t.ok += 1
    else:
        t.fail('real nodes/weights', dict(kind='w', n=n))
        t.ob -= 1


def replay(c):
    import math
    import numpy as np
    if c['kind'] == 'w':
        class T:
            ob = ok = 0
            bad = False

            def fail(self, *a, **k):
                self.bad = True
        t = T()
        from empymod import utils
        import scipy.special as ss
        n = c['n']
        x, w = ss.roots_legendre(n)
        o = utils.get_azm_dip([np.array([1.]), np.array([3.]),
                               np.array([5.]), np.array([9.]),
                               np.array([0.]), np.array([4.])], 0, 1, n,
                              False, 0., 'src', 0)
        bad = abs(np.sum(o[3])-1) > 1e-12 or np.any(
            np.abs(o[0][0]-(2+x)) > 2e-3)
        return bool(bad), f'weights sum {np.sum(o[3])}, points {o[0]}'
    from scipy.special import roots_legendre
    kw = {k: c[k] for k in ('depth', 'res', 'freqtime', 'msrc', 'mrec')}
    src, rec = c['src'], c['rec']

    def swap(p):
        return [p[1], p[0], p[3], p[2], p[5], p[4]]
    sg = 1
    if c['reverse']:
        if len(src) == 6:
            src, sg = swap(src), -sg
        if len(rec) == 6:
            rec, sg = swap(rec), -sg
    f = sg*api.real_call('bipole', dict(
        kw, src=src, rec=rec, srcpts=c['srcpts'], recpts=c['recpts'],
        strength=c['strength'], squeeze=False))

    def nodes(n):
        if n < 3:
            return [(0., 2.)]
        return list(zip(*roots_legendre(n)))

    def call(s, r):
        return api.real_call('bipole', dict(kw, src=s, rec=r))
    g = expected(call, c['scen'], c['rcen'], nodes(c['srcpts']),
                 nodes(c['recpts']),
                 c['strength'] if c['strength'] else None, 1,
                 math.sqrt).astype(complex)
    d = api.ndiff(f, g)
    # coordinates are rounded to min_off (1 mm) by the code
    return d > 1e-4, (f"src {src} rec {rec} srcpts {c['srcpts']} recpts "
                      f"{c['recpts']} strength {c['strength']}: bipole "
                      f"{f.ravel()[:3]} sum of dipoles {g.ravel()[:3]} "
                      f"(rel. diff {d:.1e})")


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C13', 'c13', api.FUNCTIONS, dict(
        bipoles='1-3 finite sources/receivers with symbolic electrodes '
        '(general direction, in-plane, vertical, axis-parallel), common or '
        'individual depths', points='1, 3, 4, 5 integration points with '
        'symbolic symmetric nodes and weights summing to 2',
        strength='0, symbolic positive and negative'), api.ASSUME)
    T = chk.add
    shapes = ['xyz', 'xy', 'z', 'x', 'y', '-x', '-y', '-z', 'xz', '-yz']
    for sh in shapes:
        for sp in (1, 3, 4):
            T(task, f'src {sh} {sp}', 1, 1, sh, 'dip', sp, 1, None, True,
              False, False)
        T(task, f'rec {sh}', 1, 1, 'dip', sh, 1, 3, None, True, False, False)
    for sh in ('gxyz', 'gxy'):
        T(task, f'gsrc {sh}', 1, 1, sh, 'dip', 1, 1, None, True, False, False)
        T(task, f'grec {sh}', 1, 1, 'dip', sh, 1, 3, None, True, False, False)
    for ms in (False, True):
        for mr in (False, True):
            T(task, f'm {ms}{mr}', 1, 1, 'xyz', 'z', 3, 1, None, True, ms, mr)
            T(task, f'mr {ms}{mr}', 1, 1, 'z', 'xy', 1, 3, None, True, ms, mr)
    for st in ('pos', 'neg'):
        for a, b in (('xyz', 'dip'), ('dip', 'xy'), ('xy', 'z'),
                     ('dip', 'dip'), ('z', 'xyz')):
            for sp, rp in ((1, 1), (3, 3)):
                T(task, f'st {st}{a}{b}{sp}{rp}', 1, 1, a, b, sp, rp, st,
                  True, False, False)
    for sz in (True, False):
        for ns, nr in ((1, 2), (2, 1), (2, 2), (1, 3)):
            for a, b in (('xy', 'dip'), ('xyz', 'dip'), ('dip', 'xy'),
                         ('z', 'xy')):
                if (a == 'dip' and ns > 1):
                    continue
                if not chk.thorough and ns*nr > 2 and 'xyz' in (a, b):
                    continue
                for st in (None, 'pos'):
                    T(task, f'multi {ns}{nr}{a}{b}{sz}{st}', ns, nr, a, b, 3,
                      3 if b != 'dip' else 1, st, sz, False, False)
    for a, b in (('xyz', 'dip'), ('xy', 'z'), ('dip', 'xy')):
        for p in (1, 3, 4):
            T(task, f'rev {a}{b}{p}', 1, 1, a, b, p, p, 'pos', True, False,
              False, True)
    T(task, '5pts', 1, 1, 'xyz', 'dip', 5, 1, None, True, False, False)
    for n in (3, 4, 5, 6, 10):
        T(t_weights, f'weights {n}', n)
    return chk
