"""C11: arbitrary orientation = direction-cosine combination of the axes."""
from . import api

DEPTH = [0., 1000.]
RES = [2e14, 0.3, 2.]
AXES = ((0., 0.), (90., 0.), (0., 90.))        # x, y, z (down)


def cosines(azm, dip):
    from symx import core
    a, d = core.lift(azm)*core.PI()/180, core.lift(dip)*core.PI()/180
    return (core.cos(a)*core.cos(d), core.sin(a)*core.cos(d), core.sin(d))


def inputs(ns, nr, sang, rang, zs='common', zr='common'):
    from symx.core import var
    src = [[var(f'sx{i}', lo=-200, hi=-100) for i in range(ns)],
           [var(f'sy{i}', lo=-50, hi=50) for i in range(ns)],
           [var(f'sz{i}', lo=100, hi=800) for i in range(
               ns if zs == 'own' else 1)], list(sang[0]), list(sang[1])]
    rec = [[var(f'rx{i}', lo=300, hi=900) for i in range(nr)],
           [var(f'ry{i}', lo=100, hi=200) for i in range(nr)],
           [var(f'rz{i}', lo=100, hi=800) for i in range(
               nr if zr == 'own' else 1)], list(rang[0]), list(rang[1])]
    return src, rec


def pick(p, i, n, ang):
    """Single point i of the n points of p with given orientation."""
    z = p[2] if len(p[2]) == 1 else [p[2][i]]
    return [[p[0][i]], [p[1][i]], z, [ang[0]], [ang[1]]]


def expected(call, src, rec, ns, nr, msrc, mrec, nf, cos):
    """[f, rec, src] combination of 3x3 axis-aligned single calls; zero
    coefficients are skipped (exact zero contribution)."""
    import numpy as np
    out = np.zeros((nf, nr, ns), dtype=object)
    for i in range(ns):
        u = cos(src[3][i % len(src[3])], src[4][i % len(src[4])])
        for j in range(nr):
            v = cos(rec[3][j % len(rec[3])], rec[4][j % len(rec[4])])
            for a in range(3):
                for b in range(3):
                    r = call(src=pick(src, i, ns, AXES[a]),
                             rec=pick(rec, j, nr, AXES[b]))
                    r = np.asarray(r, dtype=object).reshape(nf)
                    out[:, j, i] += r*(u[a]*v[b])
    return out


def task(t, ns, nr, sang, rang, msrc, mrec, generic=False, zs='common',
         zr='common', nf=1):
    from symx import load, core
    from symx.core import var
    if generic:
        # generic symbolic angles (radians alpha; degrees passed)
        def ang(nm, n):
            out = []
            for i in range(n):
                a = var(f'{nm}{i}', lo='-3.1', hi='3.1') if False else \
                    var(f'{nm}{i}', lo=-3, hi=3)
                api.link_angle(a)
                out.append(a*180/core.PI())
            return out
        sang = [ang('sa', len(sang[0])) if sang[0] is not None else [0.],
                ang('sd', len(sang[1]))]
        rang = [ang('ra', len(rang[0])) if rang[0] is not None else [0.],
                ang('rd', len(rang[1]))]
    src, rec = inputs(ns, nr, sang, rang, zs, zr)
    freq = [var(f'f{i}', lo=1, hi=10) for i in range(nf)]
    kw = dict(depth=DEPTH, res=RES, freqtime=freq, msrc=msrc, mrec=mrec,
              squeeze=False)
    S = api.Stubs()

    def call(src, rec):
        return load.model.bipole(src=src, rec=rec, verb=0, **kw)
    api.compare(t, f'{ns}x{nr} {"generic" if generic else (sang, rang)} '
                f'm{int(msrc)}{int(mrec)}',
                lambda: call(src, rec),
                lambda: expected(call, src, rec, ns, nr, msrc, mrec, nf,
                                 cosines),
                S, api.kwcase('proj', src=src, rec=rec, ns=ns, nr=nr, **kw),
                twin=True)


def replay(c):
    import math
    c = dict(c)
    c.pop('kind')
    ns, nr = c.pop('ns'), c.pop('nr')

    def call(src, rec):
        return api.real_call('bipole', dict(c, src=src, rec=rec))

    def cos(a, d):
        a, d = math.radians(a), math.radians(d)
        return (math.cos(a)*math.cos(d), math.sin(a)*math.cos(d),
                math.sin(d))
    src, rec = c.pop('src'), c.pop('rec')
    f = call(src, rec)
    g = expected(call, src, rec, ns, nr, c['msrc'], c['mrec'],
                 len(c['freqtime']), cos).astype(complex)
    d = api.ndiff(f, g)
    return d > 1e-6, (f'src {src} rec {rec} msrc {c["msrc"]} mrec '
                      f'{c["mrec"]}: bipole {f.ravel()[:3]} projection '
                      f'{g.ravel()[:3]} (rel. diff {d:.2e})')


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C11', 'c11', api.FUNCTIONS, dict(
        sources='1-2 sources x 1-2 receivers (3x2 thorough)',
        angles='fully symbolic azimuths and dips (any real angle except '
        'those with tan(angle/2) infinite), and all multiples of 90 degrees '
        'in [-360, 450] for azimuth and dip, mixed within one call',
        components='electric/magnetic source x receiver; positions and '
        'frequency symbolic'), api.ASSUME)
    mults = [-360, -270, -180, -90, 0, 90, 180, 270, 360, 450]
    for ms in (False, True):
        for mr in (False, True):
            chk.add(task, f'gen11 {ms}{mr}', 1, 1, [[0], [0]], [[0], [0]],
                    ms, mr, True)
            # multiples of 90, all pairs of (azimuth, dip) for the source;
            # receiver pairs matched in a rotated order
            pairs = [(a, d) for a in mults for d in mults]
            if not chk.thorough:
                pairs = [p for p in pairs if abs(p[0]) <= 270 and
                         abs(p[1]) <= 180]
            for k, (a, d) in enumerate(pairs):
                a2, d2 = pairs[(7*k+3) % len(pairs)]
                chk.add(task, f'm90 {a},{d}/{a2},{d2} {ms}{mr}', 1, 1,
                        [[a], [d]], [[a2], [d2]], ms, mr)
            # one side generic, other on axis handled by generic branches
            # several sources / receivers in one call
            for zs, zr in (('common', 'common'), ('own', 'common'),
                           ('common', 'own')):
                for sa, sd in (([0, 90], [0]), ([0, 180], [0, 90]),
                               ([90, -90], [0, 0]), ([0, 30], [0, 20]),
                               ([0], [90, -90]), ([20, 50], [0, 90])):
                    chk.add(task, f'multi {sa}{sd}{zs}{zr} {ms}{mr}', 2, 2,
                            [sa, sd], [[90, 0], [0, 10]], ms, mr, False,
                            zs, zr)
                    chk.add(task, f'multr {sa}{sd}{zs}{zr} {ms}{mr}', 2, 2,
                            [[10, 100], [0, 0]], [sa, sd], ms, mr, False,
                            zs, zr)
            if chk.thorough:
                chk.add(task, f'gen22 {ms}{mr}', 2, 2, [[0, 0], [0]],
                        [[0], [0, 0]], ms, mr, True)
    return chk
