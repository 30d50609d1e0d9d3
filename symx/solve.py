"""z3 back end: export of Sym/SBool, proof and refutation queries, paths."""
import math
import time
from fractions import Fraction

import z3

from . import core
from .core import CTX, Sym, SBool, sand, slift, neval, beval, samples

# --------------------------------------------------------------------------
# export:  Sym -> coef * prod factor^power   (factors: z3 polynomial terms)
# --------------------------------------------------------------------------


def _q(f):
    return z3.RealVal(f'{f.numerator}/{f.denominator}'
                      if f.denominator != 1 else str(f.numerator))


_ATOM = {}
_RAT = {}
_INFO = {}     # z3 var name -> Sym atom


def reset():
    _ATOM.clear()
    _RAT.clear()
    _INFO.clear()
    core.SQRT_DEF.clear()
    core._VARS_MEMO.clear()
    CTX.reset()


def _zvar(name, sym):
    v = z3.Real(name)
    _INFO[name] = sym
    return v


def _atom_rat(x):
    """(coef, {id:(expr,pow)}) of an atom."""
    if x.op == 'v':
        v = _zvar(x.args[0], x)
        return Fraction(1), {v.get_id(): (v, 1)}
    fn = x.args[0]
    if fn in ('cos', 'sin'):
        u = _zvar(f'tan_half#{x.args[1].id}', None)
        _INFO[f'tan_half#{x.args[1].id}'] = ('u', x.args[1])
        den = 1 + u*u
        if fn == 'sin':
            return Fraction(2), {u.get_id(): (u, 1), den.get_id(): (den, -1)}
        num = 1 - u*u
        return Fraction(1), {num.get_id(): (num, 1), den.get_id(): (den, -1)}
    v = _zvar(f'{fn}#{x.id}', x)
    return Fraction(1), {v.get_id(): (v, 1)}


def rat(n):
    """Factored rational form of n."""
    memo = _RAT
    stack = [n]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x.op == 'c':
            memo[x] = (x.args[0], {})
            stack.pop()
            continue
        if x.op in 'vf':
            memo[x] = _atom_rat(x)
            stack.pop()
            continue
        ch = [a for a in x.args if isinstance(a, Sym)]
        miss = [a for a in ch if a not in memo]
        if miss:
            stack.extend(miss)
            continue
        if x.op == '*':
            c, f = Fraction(1), {}
            for a in ch:
                c2, f2 = memo[a]
                c *= c2
                for k, (e, p) in f2.items():
                    if k in f:
                        f[k] = (e, f[k][1] + p)
                    else:
                        f[k] = (e, p)
            memo[x] = (c, {k: v for k, v in f.items() if v[1] != 0})
        elif x.op == '^':
            c2, f2 = memo[ch[0]]
            p = x.args[1]
            memo[x] = (c2**p if c2 != 0 or p > 0 else _zd(),
                       {k: (e, q*p) for k, (e, q) in f2.items()})
        else:
            memo[x] = _sum([memo[a] for a in ch])
        stack.pop()
    return memo[n]


def _zd():
    raise ZeroDivisionError('division by zero in rational form')


def _sum(terms):
    terms = [t for t in terms if t[0] != 0]
    if not terms:
        return Fraction(0), {}
    if len(terms) == 1:
        return terms[0]
    keys = {}
    for c, f in terms:
        for k, (e, p) in f.items():
            keys[k] = e
    minp = {}
    for k in keys:
        minp[k] = min(f[k][1] if k in f else 0 for c, f in terms)
    parts = []
    for c, f in terms:
        fac = []
        for k, e in keys.items():
            p = (f[k][1] if k in f else 0) - minp[k]
            fac += [e]*p
        if c != 1 or not fac:
            fac = [_q(c)] + fac
        parts.append(fac[0] if len(fac) == 1 else z3.Product(*fac))
    s = z3.Sum(*parts)
    out = {k: (keys[k], p) for k, p in minp.items() if p != 0}
    kid = s.get_id()
    out[kid] = (s, out[kid][1] + 1 if kid in out else 1)
    return Fraction(1), out


def numden(n):
    c, f = rat(n)
    num, den = [_q(c)], []
    for e, p in f.values():
        if p > 0:
            num += [e]*p
        else:
            den += [e]*(-p)
    nz = num[0] if len(num) == 1 else z3.Product(*num)
    dz = z3.RealVal(1) if not den else (
        den[0] if len(den) == 1 else z3.Product(*den))
    return nz, dz, [e for e, p in f.values() if p < 0]


def zbool(b, dens):
    """z3 Bool for SBool; collects denominators in `dens`."""
    if b.op == 'k':
        return z3.BoolVal(b.args[0])
    if b.op == 'and':
        return z3.And(*[zbool(a, dens) for a in b.args])
    if b.op == 'or':
        return z3.Or(*[zbool(a, dens) for a in b.args])
    if b.op == 'not':
        return z3.Not(zbool(b.args[0], dens))
    op, d = b.args
    c, f = rat(d)
    if c == 0:
        return z3.BoolVal(op in ('le', 'eq'))
    for e, p in f.values():
        if p < 0:
            dens[e.get_id()] = e
    if op == 'eq':
        zs = [e == 0 for e, p in f.values() if p > 0]
        return z3.Or(*zs) if zs else z3.BoolVal(False)
    # sign: product of odd-power factors (num and den)
    fac = [_q(c)] + [e for e, p in f.values() if p % 2]
    ev = [e for e, p in f.values() if p % 2 == 0 and p > 0]
    pr = fac[0] if len(fac) == 1 else z3.Product(*fac)
    if op == 'lt':
        return z3.And(pr < 0, *[e != 0 for e in ev])
    return z3.Or(pr <= 0, *[e == 0 for e in ev])


def atom_constraints(names):
    """Range constraints for the z3 variables in `names` (closure)."""
    out = []
    dens = {}
    todo = list(names)
    seen = set()
    while todo:
        nm = todo.pop()
        if nm in seen:
            continue
        seen.add(nm)
        s = _INFO.get(nm)
        if s is None or isinstance(s, tuple):
            continue
        v = z3.Real(nm)
        if s.op == 'v':
            i = CTX.varinfo[nm]
            if i['pos']:
                out.append(v > 0)
            if i['nonneg']:
                out.append(v >= 0)
            if i['lo'] is not None:
                out.append(v > _q(core.to_frac(i['lo'])) if not i.get('isint')
                           else v >= _q(core.to_frac(i['lo'])))
            if i['hi'] is not None:
                out.append(v < _q(core.to_frac(i['hi'])) if not i.get('isint')
                           else v <= _q(core.to_frac(i['hi'])))
            if i.get('isint'):
                k = z3.Int(nm + '!i')
                out.append(v == z3.ToReal(k))
        elif s.args[0] == 'sqrt':
            c = zbool((core.mul(s, s) if False else
                       core._cmp('eq', _raw_sq(s), s.args[1])), dens)
            out.append(c)
            out.append(v >= 0)
            todo += list(znames(c))
        elif s.args[0] in CTX.axioms_for:
            for ax in CTX.axioms_for[s.args[0]](s):
                c = zbool(ax, dens)
                out.append(c)
                todo += list(znames(c))
    for e in dens.values():
        out.append(e != 0)
    return out


def _raw_sq(s):
    # s*s without the sqrt reduction
    return core._mk('^', (s, 2))


_NM = {}


def znames(e):
    """Names of uninterpreted constants in z3 expr."""
    seen, names, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            names.add(x.decl().name())
        stack.extend(x.children())
    return names


# --------------------------------------------------------------------------
# queries
# --------------------------------------------------------------------------

def _check(asserts, timeout, kind='queries', tactic=None):
    t0 = time.time()
    s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
    s.set('timeout', int(timeout))
    for a in asserts:
        s.add(a)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    m = s.model() if r == z3.sat else None
    CTX.stats[kind] += 1
    CTX.stats['solver_s'] += time.time() - t0
    if kind == 'queries':
        CTX.stats[str(r)] += 1
    return str(r), m


def model_env(m):
    env = {}
    if m is None:
        return env
    for d in m.decls():
        nm = d.name()
        v = m[d]
        try:
            if z3.is_rational_value(v):
                env[nm] = Fraction(v.numerator_as_long(),
                                   v.denominator_as_long())
            elif z3.is_algebraic_value(v):
                w = v.approx(25)
                env[nm] = Fraction(w.numerator_as_long(),
                                   w.denominator_as_long())
            elif z3.is_int_value(v):
                env[nm] = v.as_long()
        except Exception:
            pass
    return env


def prove(claim, pc=(), why='', timeout=None, want_model=True):
    """Is `claim` valid under pc?  ('unsat'|'sat'|'unknown', model env)"""
    timeout = timeout or CTX.timeout
    claim = slift(claim)
    if claim.op == 'k' and claim.args[0]:
        CTX.stats['trivial'] += 1
        return 'unsat', None
    dens = {}
    neg = zbool(~claim, dens)
    pcs = [zbool(slift(p), dens) for p in pc]
    extra = [zbool(slift(p), dens) for p in CTX.defs]
    cons = pcs + extra
    names = set()
    for e in [neg] + cons + list(dens.values()):
        names |= znames(e)
    cons += atom_constraints(names)
    cons += [e != 0 for e in dens.values()]
    r, m = _check([neg] + cons, timeout)
    if r == 'sat' and pcs:
        ack = ackermann(names)
        if ack:
            r, m = _check([neg] + cons + ack, timeout)
    return r, model_env(m) if r == 'sat' else None


def prove_eq(a, b, pc=(), why='', timeout=None):
    """a == b for every value.  Returns (ok, status, env)."""
    timeout = timeout or CTX.timeout
    d = core.add(a, -b) if isinstance(a, Sym) and isinstance(b, Sym) \
        else core.lift(a) - core.lift(b)
    if not isinstance(d, Sym):
        return False, 'nonfinite', None
    c, f = rat(d)
    if c == 0:
        CTX.stats['trivial'] += 1
        return True, 'trivial', None
    # refutation first: at a sampled point bound in the query
    for e in _pc_samples(pc):
        va, vb = neval(core.lift(a), e), neval(core.lift(b), e)
        if math.isfinite(va) and math.isfinite(vb) and \
                abs(va-vb) > 1e-6*(abs(va)+abs(vb)):
            r, m = _bound_query(d, e, pc)
            if r == 'sat':
                return False, 'sat', {k: v for k, v in e.items() if k != '#'}
    pos = [(e, p) for e, p in f.values() if p > 0]
    if not pos:
        return False, 'sat', None
    dens = [e for e, p in f.values() if p < 0]
    # normal form modulo r^2 = c of the constant square roots
    if root_normal([e for e, p in pos]):
        CTX.stats['trivial'] += 1
        return True, 'trivial', None
    # identity proof: every factor product is the zero polynomial
    last = pos[-1][0]
    expr = z3.Product(*[e for e, p in pos]) if len(pos) > 1 else last
    r, m = _check([expr != 0], timeout)
    if r == 'unsat':
        return True, 'unsat', None
    # with the equalities the path condition implies put in
    try:
        m = pc_eqs(pc)
        if m and identity(core.subst(d, m)):
            return True, 'unsat', None
    except (core.Unsupported, ZeroDivisionError):
        pass
    # with path condition / atom definitions
    names = znames(expr)
    dd = {}
    pcs = [zbool(slift(p), dd) for p in list(pc) + CTX.defs]
    for p in pcs + dens + list(dd.values()):
        names |= znames(p)
    cons = pcs + atom_constraints(names) + [e != 0 for e in dd.values()] + \
        [e != 0 for e in dens]
    r, m = _check([expr != 0] + cons, timeout)
    if r == 'unsat':
        return True, 'unsat', None
    if pcs:
        ack = ackermann(names)
        if ack:
            r, m = _check([expr != 0] + cons + ack, timeout)
            if r == 'unsat':
                return True, 'unsat', None
    return False, r, model_env(m) if r == 'sat' else None


def identity(d):
    """True if d is zero as a rational function (modulo root_normal)."""
    c, f = rat(d)
    pos = [e for e, p in f.values() if p > 0]
    if c == 0:
        return True
    if not pos:
        return False
    return root_normal(pos) or any(
        _check([e != 0], CTX.timeout)[0] == 'unsat' for e in pos)


def pc_eqs(pc):
    """One {variable: value} from the equalities that pc implies."""
    low = set()         # x <= 0
    eqs = []
    for p in pc:
        p = slift(p)
        neg = p.op == 'not'
        if neg:
            p = p.args[0]
        if p.op != 'rel':
            continue
        op, x = p.args[0], p.args[1]
        if neg and op == 'lt':
            low.add(-x)
        elif not neg and op == 'le':
            low.add(x)
        elif not neg and op == 'eq':
            eqs.append(x)
    eqs += [x for x in low if -x in low]
    out = {}
    for x in eqs:
        x = core.subst(x, out)
        if x.op == 'c':
            continue
        for t in (x.args if x.op == '+' else (x,)):
            c, v = (t.args[0].args[0], t.args[1]) if t.op == '*' and \
                len(t.args) == 2 and t.args[0].op == 'c' else (1, t)
            if v.op != 'v':
                continue
            val = core.add(core.mul(core.const(Fraction(-1)/c), x), v)
            if CTX.fn_eval or core.subst(val, {v: core.const(0)}) is not val:
                continue
            out = {k: core.subst(w, {v: val}) for k, w in out.items()}
            out[v] = val
            break
    return out


def root_normal(exprs, cap=20000):
    """True if one of the z3 polynomials vanishes modulo r^2 = c, for roots
    r of constants c (a proof of the identity by normal form)."""
    roots = {}
    for nm in set().union(*[znames(e) for e in exprs]):
        s = _INFO.get(nm)
        if s is not None and not isinstance(s, tuple) and s.op != 'v' and \
                s.args[0] == 'sqrt':
            q = core.SQRT_DEF.get(s)
            if q is not None and q.op == 'c':
                roots[nm] = Fraction(q.args[0])
    if not roots:
        return False
    memo = {}

    def mul(p, q):
        out = {}
        if len(p)*len(q) > 50*cap:
            raise TooBig
        for m, c in p.items():
            for n, e in q.items():
                k = dict(m)
                f = c*e
                for v, x in n:
                    k[v] = k.get(v, 0)+x
                    if v in roots and k[v] > 1:
                        f = f*roots[v]
                        k[v] -= 2
                        if not k[v]:
                            del k[v]
                k = tuple(sorted(k.items()))
                out[k] = out.get(k, 0)+f
        out = {k: c for k, c in out.items() if c}
        if len(out) > cap:
            raise TooBig
        return out

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i]
        ch = e.children()
        kd = e.decl().kind()
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            r = {(): v} if v else {}
        elif z3.is_const(e):
            r = {((e.decl().name(), 1),): Fraction(1)}
        elif kd == z3.Z3_OP_MUL:
            r = go(ch[0])
            for c in ch[1:]:
                r = mul(r, go(c))
        elif kd in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            r = {}
            for n, c in enumerate(ch):
                sg = -1 if kd == z3.Z3_OP_UMINUS or (
                    kd == z3.Z3_OP_SUB and n) else 1
                for k, v in go(c).items():
                    r[k] = r.get(k, 0)+sg*v
            r = {k: v for k, v in r.items() if v}
        elif kd == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and \
                ch[1].denominator_as_long() == 1 and \
                ch[1].numerator_as_long() > 0:
            r = b = go(ch[0])
            for _ in range(ch[1].numerator_as_long()-1):
                r = mul(r, b)
        else:
            raise TooBig
        memo[i] = r
        return r
    for e in exprs:
        try:
            if not go(e):
                return True
        except TooBig:
            pass
    return False


class TooBig(Exception):
    pass


def poly(n, limit=20000):
    """Expanded form {((atom id, power), ...): coefficient}."""
    memo = CTX.z3cache.setdefault('poly', {})
    stack = [n]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        ch = [a for a in x.args if isinstance(a, Sym)] if x.op in '*+^' \
            else []
        miss = [a for a in ch if a not in memo]
        if miss:
            stack.extend(miss)
            continue
        if x.op == 'c':
            r = {(): x.args[0]} if x.args[0] else {}
        elif x.op == '+':
            r = {}
            for a in ch:
                for m, c in memo[a].items():
                    r[m] = r.get(m, 0) + c
        elif x.op == '*':
            r = {(): Fraction(1)}
            for a in ch:
                r = _pmul(r, memo[a], limit)
        elif x.op == '^' and (x.args[1] > 0 or len(memo[ch[0]]) == 1):
            b, p = memo[ch[0]], x.args[1]
            if p < 0:
                (m, c), = b.items()
                b, p = {tuple((i, -q) for i, q in m): 1/c}, -p
            r = {(): Fraction(1)}
            for _ in range(p):
                r = _pmul(r, b, limit)
        elif x.op == '^':
            r = {((ch[0].id, x.args[1]),): Fraction(1)}
        else:
            r = {((x.id, 1),): Fraction(1)}
        memo[x] = r
        stack.pop()
    return {m: c for m, c in memo[n].items() if c}


def _pmul(a, b, limit):
    if len(a)*len(b) > limit:
        raise TooBig
    r = {}
    for m, c in a.items():
        for k, d in b.items():
            q = dict(m)
            for i, p in k:
                q[i] = q.get(i, 0)+p
            q = tuple(sorted((i, p) for i, p in q.items() if p))
            r[q] = r.get(q, 0) + c*d
    return r


def prove_close(a, b, tol, why=''):
    """|a - b| <= tol * sum |monomials| for every value of the atoms: both
    sides expanded, the solver is asked for a monomial whose coefficients
    differ by more (rounding of concrete constants)."""
    try:
        pa, pb = poly(core.lift(a)), poly(core.lift(b))
    except TooBig:
        return False
    bad = []
    tol, floor = tol if isinstance(tol, tuple) else (tol, 0)
    if floor:       # absolute part, relative to the largest coefficient
        floor = _q(Fraction(floor)*max([abs(v) for v in pa.values()] +
                                       [abs(v) for v in pb.values()] + [0]))
    for m in set(pa) | set(pb):
        x, y = pa.get(m, Fraction(0)), pb.get(m, Fraction(0))
        if x != y:
            x, y = _q(x), _q(y)
            if not isinstance(floor, int):
                bad.append(z3.And(z3.Or(x-y > floor, y-x > floor)))
                continue
            ax, ay = z3.If(x < 0, -x, x), z3.If(y < 0, -y, y)
            bad.append(z3.Or(x-y > _q(Fraction(tol))*(ax+ay),
                             y-x > _q(Fraction(tol))*(ax+ay)))
    if not bad:
        CTX.stats['trivial'] += 1
        return True
    r, _ = _check([z3.Or(*bad)], CTX.timeout)
    return r == 'unsat'


def ackermann(names):
    """Congruence of the function atoms in names: equal arguments imply
    equal values (used where the path condition makes arguments equal)."""
    by = {}
    for nm in names:
        s = _INFO.get(nm)
        if isinstance(s, Sym) and s.op == 'f':
            by.setdefault((s.args[0], len(s.args)), []).append((nm, s))
    out, dens, seen = [], {}, set(names)
    work = list(by.values())
    while work:
        grp = work.pop()
        for i, (n1, s1) in enumerate(grp):
            for n2, s2 in grp[:i]:
                d = [core._cmp('eq', a, b) for a, b in
                     zip(s1.args[1:], s2.args[1:]) if a is not b]
                if any(c.op == 'k' and not c.args[0] for c in d):
                    continue
                zs = [zbool(c, dens) for c in d]
                out.append(z3.Or(z3.Real(n1) == z3.Real(n2),
                                 *[z3.Not(z) for z in zs]))
                new = set()
                for z in zs:
                    new |= znames(z)
                new -= seen
                seen |= new
                by2 = {}
                for nm in new:
                    s = _INFO.get(nm)
                    if isinstance(s, Sym) and s.op == 'f':
                        by2.setdefault((s.args[0], len(s.args)), []).append(
                            (nm, s))
                work += list(by2.values())
    if out:
        out += atom_constraints(seen - set(names))
        out += [e != 0 for e in dens.values()]
    return out


def _bound_query(d, env, pc):
    """d != 0 with all base variables bound to the sampled rationals."""
    c, f = rat(d)
    names = set()
    pos = [e for e, p in f.values() if p > 0]
    for e in pos:
        names |= znames(e)
    neg = z3.And(*[e != 0 for e in pos])
    bind = []
    for nm in names:
        s = _INFO.get(nm)
        if s is None:
            continue
        if isinstance(s, tuple):
            a = neval(s[1], env)
            v = math.tan(a/2)
        else:
            v = neval(s, env)
        if not math.isfinite(v):
            return 'unknown', None
        bind.append(z3.Real(nm) == _q(Fraction(v).limit_denominator(10**12)))
    return _check([neg] + bind, 20000)


def _pc_samples(pc):
    out = []
    for e in samples():
        try:
            if all(beval(slift(p), e) for p in pc):
                out.append(e)
        except core.Unsupported:
            pass
    return out


# --------------------------------------------------------------------------
# path exploration (re-execution with decision prefixes)
# --------------------------------------------------------------------------

class Explorer:
    def __init__(self, assume=(), max_paths=4000, timeout=5000):
        self.assume = [slift(a) for a in assume]
        self.max_paths = max_paths
        self.timeout = timeout
        self.cache = {}

    def _feasible(self, pc):
        if _pc_samples(pc):
            return True
        dens = {}
        zs = [zbool(p, dens) for p in list(pc) + CTX.defs]
        names = set()
        for z in zs + list(dens.values()):
            names |= znames(z)
        zs += atom_constraints(names) + [e != 0 for e in dens.values()]
        r, m = _check(zs, self.timeout, 'branch_queries')
        if r == 'sat':
            env = {k: float(v) for k, v in model_env(m).items()}
            for k in env:
                pass
            if not any(isinstance(_INFO.get(k), tuple) or
                       (isinstance(_INFO.get(k), Sym) and
                        _INFO[k].op == 'f') or k in CTX.fn_eval
                       for k in env):
                CTX.samples.append(env)
        return r != 'unsat'

    def decide(self, cond):
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t = self._feasible(self.pc + [cond])
            if not t:
                v = False
            else:
                f = self._feasible(self.pc + [~cond])
                v = True
                if f:
                    self.todo.append(self.prefix + [False])
            self.prefix = self.prefix + [v]
        self.pc = self.pc + [cond if v else ~cond]
        return v

    def run(self, fn):
        """Yield (pc, result|exception) for each feasible path."""
        old = CTX.explorer
        self.todo = [[]]
        n = 0
        try:
            while self.todo:
                self.prefix = self.todo.pop()
                self.pos = 0
                self.pc = list(self.assume)
                CTX.explorer = self
                n += 1
                CTX.stats['paths'] += 1
                if n > self.max_paths:
                    raise core.Unsupported('too many paths')
                try:
                    r = fn()
                except core.PathAbort:
                    continue
                except core.Unsupported:
                    raise
                except Exception as e:      # the code raised
                    r = e
                pc = self.pc
                CTX.explorer = old
                yield pc[len(self.assume):], r
                # (restored for the next path above)
        finally:
            CTX.explorer = old


def paths(fn, assume=(), **kw):
    return list(Explorer(assume, **kw).run(fn))


def single(fn, assume=(), **kw):
    """Run where exactly one path is expected."""
    ps = paths(fn, assume, **kw)
    if len(ps) != 1:
        raise core.Unsupported(f'{len(ps)} paths where 1 expected')
    r = ps[0][1]
    if isinstance(r, Exception):
        raise r
    return r


def pc_model(pc):
    """A model (env) of the path condition, or None if it is unsat."""
    for e in _pc_samples(pc):
        return {k: v for k, v in e.items() if k != '#'}
    r, env = prove(core.FALSE, pc)
    if r == 'unsat':
        return None
    return env or {}


def merge_env(model, sample):
    out = {k: v for k, v in sample.items() if k != '#'}
    out.update(model or {})
    return out
