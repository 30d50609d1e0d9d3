"""C01: continuity across interfaces."""
from . import lay


def task(t, n, ls, conc):
    from symx import load, core, layered
    M = lay.setup(n, conc)
    M.place([(ls, 's')])
    zs = M.z[0]
    with load.symbolic(load.kernel):
        for li in range(1, n):
            zr = M.depth[li]
            for ab in lay.ABS:
                up = lay.run_pj(M, zs, zr, ls, li-1, ab)
                dn = lay.run_pj(M, zs, zr, ls, li, ab)
                fu = fd = core.const(1)
                if ab//10 == 3:
                    fu, fd = M.eV[li-1], M.eV[li]
                elif ab//10 == 6:
                    fu, fd = M.zV[li-1], M.zV[li]
                for k, (a, b) in enumerate(zip(up, dn)):
                    if a is None and b is None:
                        continue

                    def case(env):
                        return lay.env_case(M, env, 'cont', zs=zs, zr=zr,
                                            ls=ls, li=li, ab=ab, k=k)
                    if a is None or b is None:
                        t.fail(f'{ab} {k} missing', case)
                        continue
                    last = (a*fu, b*fd)
                    t.eq(f'n{n} src{ls} if{li} ab{ab} PJ{k}', a*fu, b*fd,
                         case=case)
                if t.full():
                    return
        if not t.cex:
            t.twin('shifted', last[0], last[1] + 1)


def replay(c):
    up = lay.num_pj(c, c['zs'], c['zr'], c['ls'], c['li']-1, c['ab'])
    dn = lay.num_pj(c, c['zs'], c['zr'], c['ls'], c['li'], c['ab'])
    key = {3: 'etaV', 6: 'zetaV'}.get(c['ab']//10)
    fu = c[key][c['li']-1] if key else 1.
    fd = c[key][c['li']] if key else 1.
    k = c['k']
    if (up[k] is None) != (dn[k] is None):
        return True, 'component missing'
    a, b = up[k]*fu, dn[k]*fd
    return lay.differ(a, b), \
        f"ab={c['ab']} interface {c['li']}: above {a!r}, below {b!r}"


def build():
    from symx import load  # noqa
    from symx.report import Check
    chk = Check('C01', 'c01', lay.FUNCTIONS, dict(
        layers='2-3 all media, wavenumber, depths symbolic; 4 layers: '
        'symbolic depths, media concrete (quick), TM/TE media symbolic in '
        'turn (thorough); 5-6 layers symbolic depths (thorough)',
        pairs='all 34 non-zero component pairs', sources='every layer',
        interfaces='every interface'), lay.ASSUME)
    for n in (2, 3):
        for ls in range(n):
            chk.add(task, f'n{n}s{ls}', n, ls, None)
    for n in ((4, 5) if not chk.thorough else (4, 5, 6)):
        for ls in range(n):
            chk.add(task, f'n{n}s{ls}media', n, ls, 'media')
    if chk.thorough:
        for ls in range(4):
            chk.add(task, f'n4s{ls}full', 4, ls, None)
    return chk
