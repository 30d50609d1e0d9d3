"""C28: component codes - flags, zero components, rejection."""
from . import api

CALLS = ('dipole', 'analytical', 'dipole_k', 'ip_and_q', 'gpr')


class Accepted(Exception):
    pass


def builtin_int(mods, fn):
    """Run fn() with int() keeping symbolic integers in the modules."""
    from symx import ints
    for m in mods:
        m.int = ints.sint
    try:
        return fn()
    finally:
        for m in mods:
            del m.int


def t_codes(t):
    """check_ab for every integer."""
    import z3
    from symx import load, ints
    ab = ints.SI('ab')

    def case(m):
        return dict(kind='code', ab=m.eval(ab.e,
                                           model_completion=True).as_long())
    i, j = ab.e/10, ab.e % 10
    valid = z3.And(i >= 1, i <= 6, j >= 1, j <= 6)
    ms, mr = j > 3, i > 3
    calc = z3.If(mr, z3.If(ms, ab.e-33, j*10+i), ab.e)
    n = 0
    for pc, r in builtin_int([load.utils], lambda: ints.paths(
            lambda: load.utils.check_ab(ab, 0))):
        n += 1
        if isinstance(r, Exception):
            bad = ints.model(pc, z3.Not(valid))
            name = 'rejected although valid'
        else:
            bad = ints.model(pc, valid)
            name = 'accepted'
            if bad is None:
                name = 'flags/calculated component'
                bad = ints.model(pc, ints.ex(r[1]) == ms, ints.ex(r[2]) == mr,
                                 ints._i(r[0]) == calc)
        if bad is not None:
            t.fail(name, lambda e, b=bad: case(b))
        else:
            t.passed(name)
        if t.full():
            return
    t.twins += 1
    if n < 2 or ints.model([], valid) is None:
        t.errors.append('vacuous')


def t_call(t, name):
    """Each routine computes for the valid codes only."""
    import z3
    from symx import load, ints
    ab = ints.SI('ab')
    i, j = ab.e/10, ab.e % 10
    valid = z3.And(i >= 1, i <= 6, j >= 1, j <= 6)
    if name == 'ip_and_q':
        valid = z3.And(valid, i > 3, j > 3)
    if name == 'analytical':
        kw = dict(src=[0, 0, 10], rec=[10, 0, 20], res=1, freqtime=1)
    else:
        kw = dict(src=[0, 0, 10], rec=[10, 0, 20], depth=[], res=1,
                  freqtime=1)
    if name == 'dipole_k':
        kw['freq'] = kw.pop('freqtime')
        kw['wavenumber'] = 1.
    if name == 'gpr':
        kw.update(cf=1e6, freqtime=1e-7)
    real = load.utils.check_ab

    def stop(a, *k, **q):
        ints.EX.accepted = a
        real(a, *k, **q)
        raise Accepted

    def one():
        return getattr(load.model, name)(ab=ab, verb=0, **kw)

    def run():
        saved = load.model.check_ab
        load.model.check_ab = stop
        try:
            return ints.paths(one)
        finally:
            load.model.check_ab = saved
    for pc, r in builtin_int([load.utils, load.model], run):
        if isinstance(r, Accepted):
            bad = ints.model(pc, valid)
        elif isinstance(r, ValueError):
            bad = ints.model(pc, z3.Not(valid))
        else:
            bad = ints.model(pc)
        if bad is not None:
            v = bad.eval(ab.e, model_completion=True).as_long()
            t.fail(f'{name}: accepts/rejects', lambda e, v=v: dict(
                kind='call', name=name, ab=v))
        else:
            t.passed(name)


def zero_kw(name, ab, x, xd):
    import numpy as np
    if name == 'bipole':
        kw = dict(src=[x[0], x[1], x[2], 0, 90], rec=[x[3], x[4], x[5], 0, 90],
                  msrc=ab == 36, mrec=ab == 63)
    else:
        kw = dict(src=[x[0], x[1], x[2]], rec=[x[3], x[4], x[5]], ab=ab)
    f = 'freq' if name == 'dipole_k' else 'freqtime'
    kw[f] = [x[6], x[7]]
    if name == 'analytical':
        kw['res'] = x[8]
    else:
        kw.update(depth=[0, 100], res=[x[8], x[9], x[10]])
    if name == 'dipole_k':
        kw['wavenumber'] = np.array([1e-3, 1e-2])
    if name in ('dipole', 'bipole'):
        kw['xdirect'] = xd
    return kw


def t_zero(t, name, ab, xd):
    from symx import load, solve
    from symx.core import var
    import numpy as np
    x = [var(f'x{i}', lo=lo, hi=hi) for i, (lo, hi) in enumerate((
        (-50, 50), (-50, 50), (10, 90), (200, 300), (-50, 50), (110, 190),
        (1, 2), (5, 9), (10, 20), (30, 40), (50, 60)))]
    case = api.kwcase('zero', name=name, ab=ab, x=x, xd=xd)
    S = api.Stubs()
    # wavenumber must not matter either
    from symx.core import cuf

    def wn(zsrc, zrec, lsrc, lrec, depth, eH, eV, zH, zV, lambd, *a):
        from symx.npx import SArr
        out = []
        for p in range(3):
            o = np.empty((2, 1, np.size(lambd)), dtype=object)
            for i in np.ndindex(o.shape):
                o[i] = cuf(f'wn{p}_{i}', x[0])
            out.append(o.view(SArr))
        return out
    ref = {'dipole': (2,), 'bipole': (2,), 'analytical': (2,),
           'dipole_k': (2, 2)}[name]
    for pc, r in api.run(lambda: getattr(load.model, name)(
            verb=0, **zero_kw(name, ab, x, xd)), S, one=False,
            attrs=[(load.kernel, 'wavenumber', wn)]):
        if isinstance(r, Exception):
            t.fail('raises', case, repr(r)[:200], env=solve.pc_model(pc))
            continue
        for p in (r if name == 'dipole_k' else (r,)):
            a = api.arr(p)
            if a.shape != ref:
                t.fail(f'shape {a.shape}', case, env=solve.pc_model(pc))
                continue
            for v in a.ravel():
                t.eq('zero', v, 0, pc, case=case)


def build():
    from symx.report import Check
    chk = Check('C28', 'c28', ['empymod.utils.check_ab'] + [
        'empymod.model.'+n for n in CALLS+('bipole',)], dict(
        codes='every integer (z3 Int, no bound)', routines='dipole, '
        'analytical, dipole_k, ip_and_q, gpr: accepted iff valid, for every '
        'integer', zero='ab 36, 63 in dipole, bipole, analytical, dipole_k; '
        'positions, frequencies, resistivities symbolic'), api.ASSUME)
    chk.add(t_codes, 'codes')
    for n in CALLS:
        chk.add(t_call, f'call {n}', n)
    for n in ('dipole', 'bipole', 'analytical', 'dipole_k'):
        for ab in (36, 63):
            for xd in ((False, True, None) if n in ('dipole', 'bipole')
                       else (False,)):
                chk.add(t_zero, f'zero {n}{ab}{xd}', n, ab, xd)
    return chk


def replay(c):
    import numpy as np
    import empymod
    if c['kind'] == 'zero':
        kw = zero_kw(c['name'], c['ab'], c['x'], c['xd'])
        if 'wavenumber' in kw:
            kw['wavenumber'] = np.array(kw['wavenumber'])
        try:
            r = getattr(empymod.model, c['name'])(verb=0, **kw)
        except Exception as e:
            return True, f'{c["name"]} ab {c["ab"]}: {e!r}'
        m = float(np.max(np.abs(np.asarray(r))))
        sh = np.shape(r)[1:] if c['name'] == 'dipole_k' else np.shape(r)
        bad = m != 0 or sh != ((2, 2) if c['name'] == 'dipole_k' else (2,))
        return bad, f'{c["name"]} ab {c["ab"]}: max |field| {m}, shape {sh}'
    ab = c['ab']
    i, j = divmod(ab, 10)
    valid = 1 <= i <= 6 and 1 <= j <= 6
    if c['kind'] == 'code':
        try:
            r = empymod.utils.check_ab(ab, 0)
        except ValueError as e:
            return valid, f'check_ab({ab}) raises {e!r}'[:200]
        except Exception as e:
            return True, f'check_ab({ab}) raises {e!r}'[:200]
        calc = ab
        if i > 3:
            calc = ab-33 if j > 3 else 10*j+i
        bad = not valid or r != (calc, j > 3, i > 3)
        return bad, f'check_ab({ab}) = {r}'
    name = c['name']
    kw = dict(src=[0, 0, 10], rec=[10, 0, 20], verb=0, ab=ab)
    if name != 'analytical':
        kw['depth'] = []
    if name == 'dipole_k':
        kw.update(freq=1, wavenumber=np.array([1.]))
    else:
        kw['freqtime'] = 1e-7 if name == 'gpr' else 1
    kw['res'] = 1
    if name == 'gpr':
        kw.update(cf=1e6)
    if name == 'ip_and_q':
        valid = valid and i > 3 and j > 3
    try:
        getattr(empymod.model, name)(**kw)
        ok = True
        m = 'computes'
    except ValueError as e:
        ok, m = False, repr(e)[:150]
    except Exception as e:
        return True, f'{name} ab {ab}: {e!r}'[:200]
    return ok != valid, f'{name} ab {ab}: {m}'
