"""Symbolic scalars: hash-consed expression DAG, path forking, z3 export.

`Sym` objects are stored in numpy *object* arrays; the real empymod functions
(un-jitted Python source, imported from /repo on every run) are executed on
them.  Real arithmetic is exact (mathematical reals); float literals are taken
as the decimal they are written as.
"""
import math
import numbers
from fractions import Fraction

import numpy as _np
import z3

# --------------------------------------------------------------------------
# context
# --------------------------------------------------------------------------


class PathAbort(BaseException):
    """Current path is infeasible or was cut."""


class Unsupported(Exception):
    """The code did something the engine cannot encode."""


class Ctx:
    """Per-check global state."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.table = {}
        self.nid = 0
        self.varinfo = {}      # name -> dict(pos=bool, lo, hi, sort)
        self.defs = []         # extra constraints (SBool) always valid
        self.expatoms = {}     # monomial key -> (Sym var, monomial Sym)
        self.roots = []        # candidate sqrt roots (Sym), all >= 0
        self.samples = []      # list of env dict name->float
        self.nsamples = 6
        self.rng = __import__('random').Random(1)
        self.stats = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0,
                          trivial=0, branch_queries=0, paths=0)
        self.explorer = None
        self.z3cache = {}
        self.fexp_den = 1
        self.timeout = 60000
        self.fn_eval = {}      # name -> numeric evaluator
        self.axioms_for = {}   # fname -> callable(node)->[SBool]
        self.deriv_rules = {}
        self.var_deps = {}     # var name -> dict(wrt name -> Sym derivative)


CTX = Ctx()


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            raise Unsupported('non-finite constant in arithmetic')
        return Fraction(repr(x))
    raise Unsupported(f'cannot convert {type(x)}')


def _mk(op, args):
    key = (op, args)
    t = CTX.table
    n = t.get(key)
    if n is None:
        n = Sym.__new__(Sym)
        n.op = op
        n.args = args
        CTX.nid += 1
        n.id = CTX.nid
        n.h = hash((op, CTX.nid))
        t[key] = n
    return n


def const(x):
    return _mk('c', (to_frac(x),))


def var(name, pos=False, lo=None, hi=None, isint=False, nonneg=False):
    CTX.varinfo.setdefault(name, dict(pos=pos, lo=lo, hi=hi, isint=isint,
                                      nonneg=nonneg))
    return _mk('v', (name,))


def is_inf(x):
    return isinstance(x, (float, _np.floating)) and math.isinf(x)


def is_nan(x):
    return isinstance(x, (float, _np.floating)) and math.isnan(x)


def lift(x):
    """To Sym (real)."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SBool):
        return const(1) if bool(x) else const(0)
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, CSym):
        if x.im.is_const(0):
            return x.re
        raise Unsupported('complex where real expected')
    if isinstance(x, (complex, _np.complexfloating)):
        if x.imag == 0:
            return const(x.real)
        raise Unsupported('complex const')
    return const(x)


def _isnum(x):
    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating,
                          bool, _np.bool_))


def _iscplx(x):
    return isinstance(x, (complex, _np.complexfloating, CSym))


# --------------------------------------------------------------------------
# node constructors
# --------------------------------------------------------------------------

def add(*xs):
    terms = {}
    c = Fraction(0)
    for x in xs:
        stack = [x]
        while stack:
            y = stack.pop()
            if y.op == '+':
                stack.extend(y.args)
            elif y.op == 'c':
                c += y.args[0]
            else:
                k, b = _coef(y)
                if b in terms:
                    terms[b] += k
                else:
                    terms[b] = k
    out = []
    for b, k in terms.items():
        if k != 0:
            out.append(b if k == 1 else _scale(k, b))
    out.sort(key=lambda n: n.id)
    if c != 0:
        out.append(const(c))
    if not out:
        return const(0)
    if len(out) == 1:
        return out[0]
    return _mk('+', tuple(out))


def _coef(y):
    """Split y into (Fraction, base)."""
    if y.op == '*' and y.args[0].op == 'c':
        rest = y.args[1:]
        if len(rest) == 1:
            return y.args[0].args[0], rest[0]
        return y.args[0].args[0], _mk('*', rest)
    return Fraction(1), y


def _scale(k, b):
    if k == 1:
        return b
    if b.op == '*':
        return _mk('*', (const(k),) + b.args)
    return _mk('*', (const(k), b))


def mul(*xs):
    """Product; handles negative powers via '^'. Keeps base->exp map."""
    c = Fraction(1)
    pw = {}
    stack = list(xs)
    while stack:
        y = stack.pop()
        if y.op == 'c':
            c *= y.args[0]
            if c == 0:
                return const(0)
        elif y.op == '*':
            stack.extend(y.args)
        elif y.op == '^':
            b, n = y.args
            pw[b] = pw.get(b, 0) + n
        else:
            pw[y] = pw.get(y, 0) + 1
    out = []
    for b, n in pw.items():
        if n == 0:
            continue
        if n == 1:
            out.append(b)
        else:
            # sqrt atoms: reduce powers of defined roots
            d = SQRT_DEF.get(b)
            if d is not None and n >= 2:
                r = mul(const(c), *[b if n % 2 else const(1)],
                        ipow(d, n // 2),
                        *[ipow(bb, nn) for bb, nn in pw.items()
                          if bb is not b and nn != 0])
                return r
            out.append(_mk('^', (b, n)))
    if not out:
        return const(c)
    out.sort(key=lambda n: n.id)
    if c != 1:
        # distribute constant over single sum
        if len(out) == 1 and out[0].op == '+':
            return add(*[mul(const(c), t) for t in out[0].args])
        return _mk('*', (const(c),) + tuple(out))
    if len(out) == 1:
        return out[0]
    return _mk('*', tuple(out))


SQRT_DEF = {}   # sqrt atom -> radicand


def ipow(b, n):
    if n == 0:
        return const(1)
    if n == 1:
        return b
    if b.op == 'c':
        if b.args[0] == 0:
            if n < 0:
                raise ZeroDivisionError
            return b
        return const(b.args[0]**n)
    if b.op == '^':
        return ipow(b.args[0], b.args[1]*n)
    if b.op == '*':
        return mul(*[ipow(a, n) for a in b.args])
    d = SQRT_DEF.get(b)
    if d is not None and abs(n) >= 2:
        k = n // 2
        return mul(ipow(d, k), b if n % 2 else const(1))
    return _mk('^', (b, n))


def inv(b):
    if b.op == 'c' and b.args[0] == 0:
        raise ZeroDivisionError('symbolic division by zero')
    return ipow(b, -1)


# --------------------------------------------------------------------------
# Sym
# --------------------------------------------------------------------------

class Sym:
    __slots__ = ('op', 'args', 'id', 'h')

    def __hash__(self):
        return self.h

    def is_const(self, v=None):
        if self.op != 'c':
            return False
        return v is None or self.args[0] == v

    # numpy scalar-like API
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return const(0)

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return _np.dtype(object)

    def conjugate(self):
        return self

    conj = conjugate

    def copy(self):
        return self

    def item(self):
        return self

    def ravel(self, *a, **k):
        return _oarr([self])

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getitem__(self, idx):
        return _oarr0(self)[idx]

    # -- arithmetic
    def _other(self, o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, _np.ndarray) and o.ndim == 0:
            return self._other(o.item())
        if _isnum(o):
            if is_inf(o) or is_nan(o):
                return o
            return const(o)
        if isinstance(o, SBool):
            return lift(o)
        return None

    def __add__(self, o):
        if _iscplx(o):
            return CSym.of(self) + o
        p = self._other(o)
        if p is None:
            return NotImplemented
        if not isinstance(p, Sym):
            return p
        return add(self, p)

    __radd__ = __add__

    def __neg__(self):
        return mul(const(-1), self)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if _iscplx(o):
            return CSym.of(self) - o
        p = self._other(o)
        if p is None:
            return NotImplemented
        if not isinstance(p, Sym):
            return -p
        return add(self, -p)

    def __rsub__(self, o):
        if _iscplx(o):
            return CSym.of(o) - self
        p = self._other(o)
        if p is None:
            return NotImplemented
        if not isinstance(p, Sym):
            return p
        return add(p, -self)

    def __mul__(self, o):
        if _iscplx(o):
            return CSym.of(self) * o
        p = self._other(o)
        if p is None:
            return NotImplemented
        if not isinstance(p, Sym):
            if is_nan(p):
                return p
            if bool(self > 0):
                return p
            if bool(self < 0):
                return -p
            return float('nan')
        return mul(self, p)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _iscplx(o):
            return CSym.of(self) / o
        p = self._other(o)
        if p is None:
            return NotImplemented
        if not isinstance(p, Sym):
            return const(0) if is_inf(p) else p
        if p.is_const(0):
            return _div0(self)
        return mul(self, inv(p))

    def __rtruediv__(self, o):
        if _iscplx(o):
            return CSym.of(o) / self
        p = self._other(o)
        if p is None:
            return NotImplemented
        if not isinstance(p, Sym):
            return p * self
        if self.is_const(0):
            return _div0(p)
        return mul(p, inv(self))

    def __pow__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim == 0:
            o = o.item()
        if isinstance(o, Sym):
            if o.op == 'c':
                o = o.args[0]
            else:
                return uf('pow', self, o)
        f = to_frac(o)
        if f.denominator == 1:
            return ipow(self, int(f))
        if f.denominator == 2:
            return ipow(self.sqrt(), int(f*2))
        return uf('pow', self, const(f))

    def __rpow__(self, o):
        if self.op == 'c' and self.args[0].denominator == 1:
            return lift(o)**int(self.args[0])
        return uf('pow', lift(o), self)

    def __abs__(self):
        if self.op == 'c':
            return const(abs(self.args[0]))
        if bool(self >= 0):
            return self
        return -self

    def __mod__(self, o):
        o = lift(o)
        q = _ratio(self, o)
        if q is not None:
            return (q - q.__floor__())*o
        return uf('mod', self, o)

    def __floordiv__(self, o):
        o = lift(o)
        q = _ratio(self, o)
        if q is not None:
            return const(q.__floor__())
        return uf('floordiv', self, o)

    def __rmod__(self, o):
        return lift(o) % self

    def __rfloordiv__(self, o):
        return lift(o)//self

    # -- comparison
    def __lt__(self, o):
        return _cmp('lt', self, o)

    def __le__(self, o):
        return _cmp('le', self, o)

    def __gt__(self, o):
        return _cmp('gt', self, o)

    def __ge__(self, o):
        return _cmp('ge', self, o)

    def __eq__(self, o):
        r = _cmp('eq', self, o)
        return r

    def __ne__(self, o):
        r = _cmp('eq', self, o)
        if r is NotImplemented:
            return r
        return ~r

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.op == 'c':
            return float(self.args[0])
        raise Unsupported('float() of symbolic value')

    def __int__(self):
        if self.op == 'c':
            return int(self.args[0])
        raise Unsupported('int() of symbolic value')

    def __index__(self):
        if self.op == 'c' and self.args[0].denominator == 1:
            return int(self.args[0])
        raise Unsupported('index() of symbolic value')

    def __complex__(self):
        return complex(float(self))

    # -- functions (called by numpy object ufuncs and by the proxy)
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def sin(self):
        return sin(self)

    def cos(self):
        return cos(self)

    def arctan2(self, o):
        return atan2(self, o)

    def arccos(self):
        return acos(self)

    def rint(self):
        return self

    def __repr__(self):
        return to_str(self)

    def __format__(self, spec):
        return '<sym>'


def _div0(x):
    if x.is_const(0):
        return float('nan')
    if bool(x > 0):
        return float('inf')
    if bool(x < 0):
        return float('-inf')
    return float('nan')


def _oarr(lst):
    a = _np.empty(len(lst), dtype=object)
    for i, x in enumerate(lst):
        a[i] = x
    return a


def _oarr0(x):
    a = _np.empty((), dtype=object)
    a[()] = x
    return a


def to_str(n, depth=6):
    if n.op == 'c':
        return str(n.args[0])
    if n.op == 'v':
        return n.args[0]
    if depth <= 0:
        return '…'
    if n.op == '^':
        return f'({to_str(n.args[0], depth-1)})^{n.args[1]}'
    if n.op == 'f':
        return f'{n.args[0]}(' + ','.join(to_str(a, depth-1)
                                           for a in n.args[1:]) + ')'
    return '(' + n.op.join(to_str(a, depth-1) for a in n.args) + ')'


# --------------------------------------------------------------------------
# Complex
# --------------------------------------------------------------------------

class CSym:
    """Complex symbolic number re + i im."""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(x):
        if isinstance(x, CSym):
            return x
        if isinstance(x, Sym):
            return CSym(x, const(0))
        if isinstance(x, _np.ndarray) and x.ndim == 0:
            return CSym.of(x.item())
        if isinstance(x, (complex, _np.complexfloating)):
            return CSym(const(x.real), const(x.imag))
        if _isnum(x):
            return CSym(const(x), const(0))
        return None

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)
    ndim = property(lambda s: 0)
    shape = property(lambda s: ())
    size = property(lambda s: 1)
    dtype = property(lambda s: _np.dtype(object))

    def conjugate(self):
        return CSym(self.re, -self.im)

    conj = conjugate

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return hash((self.re, self.im))

    def __add__(self, o):
        p = CSym.of(o)
        if p is None:
            return NotImplemented
        return CSym(self.re + p.re, self.im + p.im)

    __radd__ = __add__

    def __neg__(self):
        return CSym(-self.re, -self.im)

    def __pos__(self):
        return self

    def __sub__(self, o):
        p = CSym.of(o)
        if p is None:
            return NotImplemented
        return CSym(self.re - p.re, self.im - p.im)

    def __rsub__(self, o):
        p = CSym.of(o)
        if p is None:
            return NotImplemented
        return CSym(p.re - self.re, p.im - self.im)

    def __mul__(self, o):
        p = CSym.of(o)
        if p is None:
            return NotImplemented
        return CSym(self.re*p.re - self.im*p.im, self.re*p.im + self.im*p.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        p = CSym.of(o)
        if p is None:
            return NotImplemented
        if p.im.is_const(0):
            return CSym(self.re/p.re, self.im/p.re)
        d = p.re*p.re + p.im*p.im
        n = self*p.conjugate()
        return CSym(n.re/d, n.im/d)

    def __rtruediv__(self, o):
        return CSym.of(o).__truediv__(self)

    def __pow__(self, n):
        f = to_frac(n)
        if f.denominator != 1:
            raise Unsupported('complex power')
        n = int(f)
        r = CSym(const(1), const(0))
        for _ in range(abs(n)):
            r = r*self
        return r if n >= 0 else 1/r

    def __abs__(self):
        return sqrt(self.re*self.re + self.im*self.im)

    def __eq__(self, o):
        p = CSym.of(o)
        if p is None:
            return NotImplemented
        return sand(_cmp('eq', self.re, p.re), _cmp('eq', self.im, p.im))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    def __bool__(self):
        return bool(self != 0)

    def exp(self):
        if self.im.is_const(0):
            return CSym(exp(self.re), const(0))
        e = exp(self.re)
        return CSym(e*cos(self.im), e*sin(self.im))

    def __repr__(self):
        return f'({self.re!r} + i {self.im!r})'


# --------------------------------------------------------------------------
# Booleans and forking
# --------------------------------------------------------------------------

class SBool:
    """Symbolic boolean. op: const/rel/and/or/not."""
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op = op
        self.args = args

    def __and__(self, o):
        return sand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o)

    __ror__ = __or__

    def __invert__(self):
        if self.op == 'k':
            return SBool('k', not self.args[0])
        if self.op == 'not':
            return self.args[0]
        return SBool('not', self)

    def __xor__(self, o):
        return sor(sand(self, ~slift(o)), sand(~self, slift(o)))

    def logical_not(self):
        return ~self

    def __mul__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return sand(self, o)
        return lift(self)*o

    __rmul__ = __mul__

    def __add__(self, o):
        return lift(self)+o

    __radd__ = __add__

    def __bool__(self):
        if self.op == 'k':
            return self.args[0]
        if CTX.explorer is None:
            raise Unsupported('branch on symbolic condition outside explore')
        return CTX.explorer.decide(self)

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            o = slift(o)
            return sor(sand(self, o), sand(~self, ~o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return ~(self == o)
        return NotImplemented

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f'{self.op}{self.args}'


TRUE = SBool('k', True)
FALSE = SBool('k', False)


def slift(x):
    if isinstance(x, SBool):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, Sym):
        return x != 0
    if _isnum(x):
        return TRUE if x else FALSE
    raise Unsupported(f'bool lift {type(x)}')


def sand(*xs):
    out = []
    for x in xs:
        x = slift(x)
        if x.op == 'k':
            if not x.args[0]:
                return FALSE
            continue
        out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else SBool('and', *out)


def sor(*xs):
    out = []
    for x in xs:
        x = slift(x)
        if x.op == 'k':
            if x.args[0]:
                return TRUE
            continue
        out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else SBool('or', *out)


def _cmp(op, a, b):
    if isinstance(b, _np.ndarray):
        if b.ndim == 0:
            b = b.item()
        else:
            return NotImplemented
    if isinstance(b, CSym) or isinstance(b, complex):
        b = CSym.of(b)
        if op == 'eq':
            return CSym.of(a) == b
        b = lift(b)
    if isinstance(b, SBool):
        b = lift(b)
    if not (isinstance(b, Sym) or _isnum(b)):
        if op == 'eq':
            return FALSE
        return NotImplemented
    if not isinstance(b, Sym):
        if is_nan(b):
            return FALSE
        if is_inf(b):
            v = {'lt': b > 0, 'le': b > 0, 'gt': b < 0, 'ge': b < 0,
                 'eq': False}[op]
            return TRUE if v else FALSE
        b = const(b)
    if op == 'gt':
        return _cmp('lt', b, a)
    if op == 'ge':
        return _cmp('le', b, a)
    d = add(a, -b)
    if d.op == 'c':
        v = d.args[0]
        r = {'lt': v < 0, 'le': v <= 0, 'eq': v == 0}[op]
        return TRUE if r else FALSE
    s = _sign(d)
    if s is not None:
        if s == 1:
            return FALSE
        if s == -1 and op in ('lt', 'le'):
            return TRUE
        if s == -1 and op == 'eq':
            return FALSE
    lo, hi = bounds(d)
    if lo is not None and (lo > 0 or (lo == 0 and op == 'lt')):
        return FALSE
    if hi is not None and hi < 0:
        return TRUE if op in ('lt', 'le') else FALSE
    if hi is not None and hi == 0 and op == 'le':
        return TRUE
    v = closed_value(d)
    if v is not None and abs(v) > 1e-6:
        r = {'lt': v < 0, 'le': v <= 0, 'eq': False}[op]
        return TRUE if r else FALSE
    return SBool('rel', op, d)


def bounds(d):
    """Cheap (weak) interval of d: (lo|None, hi|None) as Fractions."""
    memo = CTX.z3cache.setdefault('bounds', {})
    r = memo.get(d)
    if r is None:
        r = memo[d] = _bounds(d)
    return r


def closed_value(d):
    """Float value of a term without variables (besides pi), or None; terms
    near a discontinuity of mod/floordiv are left to the solver."""
    memo = CTX.z3cache.setdefault('closed', {})
    if d in memo:
        return memo[d]
    r = None
    vs = vars_of(d)
    if all((x.op == 'v' and x.args[0] == _PI_NAME) or
           (x.op == 'f' and x.args[0] in NUMFN) for x in vs):
        env = {}
        ok = True
        for x in vs:
            if x.op == 'f' and x.args[0] in ('mod', 'floordiv'):
                a, b = neval(x.args[1], env), neval(x.args[2], env)
                if b == 0 or abs((a/b) - round(a/b)) < 1e-7:
                    ok = False
        if ok:
            r = neval(d, env)
            if not math.isfinite(r):
                r = None
    memo[d] = r
    return r


def _fsqrt(q, s):
    return Fraction(math.sqrt(float(q))*(1+s*1e-12))


def absu(x):
    """|x| as an axiomatised function (no fork)."""
    if isinstance(x, CSym):
        return sqrt(x.re*x.re + x.im*x.im)
    x = lift(x)
    if x.op == 'c':
        return const(abs(x.args[0]))
    l, h = bounds(x)
    if l is not None and l >= 0:
        return x
    if h is not None and h <= 0:
        return -x
    CTX.axioms_for.setdefault('abs', lambda n: [
        n >= 0, _cmp('eq', mul(n, n), mul(n.args[1], n.args[1]))])
    return uf('abs', x)


def _bounds(d):
    if d.op == 'c':
        return d.args[0], d.args[0]
    if d.op == 'v':
        i = CTX.varinfo[d.args[0]]
        lo = None if i['lo'] is None else to_frac(i['lo'])
        hi = None if i['hi'] is None else to_frac(i['hi'])
        if (i['pos'] or i['nonneg']) and (lo is None or lo < 0):
            lo = Fraction(0)
        return lo, hi
    if d.op == 'f':
        if d.args[0] == 'abs':
            return Fraction(0), None
        if d.args[0] == 'sqrt':
            l, h = bounds(d.args[1])
            return (_fsqrt(l, -1) if l is not None and l > 0 else
                    Fraction(0), _fsqrt(h, 1) if h is not None else None)
        if d.args[0] in ('cos', 'sin'):
            return Fraction(-1), Fraction(1)
        return None, None
    if d.op == '+':
        lo = hi = Fraction(0)
        for a in d.args:
            l, h = bounds(a)
            lo = None if lo is None or l is None else lo+l
            hi = None if hi is None or h is None else hi+h
            if lo is None and hi is None:
                break
        return lo, hi
    if d.op == '*' and d.args[0].op == 'c' and len(d.args) == 2:
        k = d.args[0].args[0]
        l, h = bounds(d.args[1])
        l, h = (None if l is None else k*l), (None if h is None else k*h)
        return (l, h) if k > 0 else (h, l)
    if d.op == '*':
        s = _sign(d)
        if s == 1:
            return Fraction(0), None
        if s == -1:
            return None, Fraction(0)
        sg = 1
        for a in d.args:
            l, h = bounds(a)
            if l is not None and l >= 0:
                continue
            if h is not None and h <= 0:
                sg = -sg
                continue
            return None, None
        return (Fraction(0), None) if sg > 0 else (None, Fraction(0))
    if d.op == '^':
        l, h = bounds(d.args[0])
        if d.args[1] % 2 == 0:
            if d.args[1] > 0 and l is not None and h is not None:
                n = d.args[1]
                m = max(abs(l), abs(h))**n
                if l >= 0 or h <= 0:
                    return min(abs(l), abs(h))**n, m
                return Fraction(0), m
            return Fraction(0), None
        if l is not None and l >= 0:
            return Fraction(0), None
        if h is not None and h <= 0:
            return None, Fraction(0)
    return None, None


def _sign(d):
    """Cheap syntactic sign (+1/-1 strict) or None."""
    if d.op == 'c':
        v = d.args[0]
        return (v > 0) - (v < 0) or None
    if d.op == 'v':
        i = CTX.varinfo[d.args[0]]
        if i['pos'] or (i['lo'] is not None and i['lo'] > 0):
            return 1
        return None
    if d.op == '^':
        s = _sign(d.args[0])
        if s is None:
            return None
        return s if d.args[1] % 2 else 1
    if d.op == '*':
        s = 1
        for a in d.args:
            t = _sign(a)
            if t is None:
                return None
            s *= t
        return s
    if d.op == '+':
        t = {_sign(a) for a in d.args}
        if len(t) == 1:
            return t.pop()
        return None
    return None


# --------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------

def uf(name, *args):
    """Uninterpreted (or axiomatised) function application, real-valued."""
    return _mk('f', (name,) + tuple(lift(a) for a in args))


def cuf(name, *args):
    """Uninterpreted application with congruence: an earlier application
    whose arguments are proved equal by the solver is reused."""
    args = tuple(lift(a) for a in args)
    n = _mk('f', (name,) + args)
    memo = CTX.z3cache.setdefault('cuf', {})
    if n in memo:
        return memo[n]
    apps = CTX.z3cache.setdefault('cufapps', {}).setdefault(name, [])
    from . import solve
    rep = n
    for m in apps:
        d = [(a, b) for a, b in zip(m.args[1:], args) if a is not b]
        if not all(_close(neval(a, e), neval(b, e))
                   for e in samples()[:3] for a, b in d):
            continue
        if all(solve.prove_eq(a, b, why='congruence')[0] for a, b in d):
            rep = m
            break
    if rep is n:
        apps.append(n)
    memo[n] = rep
    return rep


def _close(a, b):
    return abs(a-b) <= 1e-9*(abs(a)+abs(b)) + 1e-300 or (a != a and b != b)


_VARS_MEMO = {}


def vars_of(n):
    """Set of variable names / function atoms in n."""
    memo = _VARS_MEMO
    stack = [n]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x.op == 'v':
            memo[x] = frozenset([x])
            stack.pop()
            continue
        if x.op == 'c':
            memo[x] = frozenset()
            stack.pop()
            continue
        ch = [a for a in x.args if isinstance(a, Sym)]
        miss = [a for a in ch if a not in memo]
        if miss:
            stack.extend(miss)
            continue
        s = frozenset().union(*[memo[a] for a in ch]) if ch else frozenset()
        if x.op == 'f':
            s = s | {x}
        memo[x] = s
        stack.pop()
    return memo[n]


def expand_monos(n, limit=4000):
    """Expand n to {monomial tuple((base,exp),...): Fraction}; bases atoms."""
    def rec(x):
        if x.op == 'c':
            return {(): x.args[0]} if x.args[0] != 0 else {}
        if x.op == '+':
            r = {}
            for a in x.args:
                for m, k in rec(a).items():
                    r[m] = r.get(m, 0) + k
            return {m: k for m, k in r.items() if k != 0}
        if x.op == '*':
            r = {(): Fraction(1)}
            for a in x.args:
                q = rec(a)
                s = {}
                for m1, k1 in r.items():
                    for m2, k2 in q.items():
                        m = _mmul(m1, m2)
                        s[m] = s.get(m, 0) + k1*k2
                r = s
                if len(r) > limit:
                    raise Unsupported('exponent too large')
            return {m: k for m, k in r.items() if k != 0}
        if x.op == '^' and x.args[1] > 0 and x.args[0].op == '+':
            q = rec(x.args[0])
            r = {(): Fraction(1)}
            for _ in range(x.args[1]):
                s = {}
                for m1, k1 in r.items():
                    for m2, k2 in q.items():
                        m = _mmul(m1, m2)
                        s[m] = s.get(m, 0) + k1*k2
                r = s
            return {m: k for m, k in r.items() if k != 0}
        if x.op == '^':
            return {((x.args[0], x.args[1]),): Fraction(1)}
        return {((x, 1),): Fraction(1)}
    return rec(n)


def _mmul(m1, m2):
    d = dict(m1)
    for b, e in m2:
        d[b] = d.get(b, 0) + e
    # reduce sqrt atoms is left to callers
    return tuple(sorted(((b, e) for b, e in d.items() if e != 0),
                        key=lambda t: t[0].id))


def exp(x):
    """exp(sum c_m m) = prod E_m^(c_m*D); E_m = exp(-m/D) is a fresh atom."""
    if _isnum(x):
        if is_inf(x):
            return const(0) if x < 0 else float('inf')
        if is_nan(x):
            return x
    if isinstance(x, CSym):
        return x.exp()
    x = lift(x)
    if x.is_const(0):
        return const(1)
    monos = expand_monos(x)
    fac = []
    D = CTX.fexp_den
    for m, k in monos.items():
        k = k*D
        key = m
        extra = 1
        if k.denominator != 1:
            extra = k.denominator
            key = (m, extra)
        n = int(k*extra)
        if key not in CTX.expatoms:
            mono = mul(*[ipow(b, e) for b, e in m]) if m else const(1)
            nm = f'E[{mono!r}]' if D*extra == 1 else f'E[{mono!r}/{D*extra}]'
            pos = _sign(mono) == 1
            v = var(nm, pos=True, hi=1 if pos else None)
            CTX.expatoms[key] = (v, mono, Fraction(1, D*extra))
            CTX.fn_eval[nm] = (mono, Fraction(1, D*extra))
        v = CTX.expatoms[key][0]
        fac.append(ipow(v, -n))
    return mul(*fac) if fac else const(1)


def register_root(r):
    """r >= 0 is a candidate closed form for a square root."""
    CTX.roots.append(r)


def sqrt(x):
    if isinstance(x, CSym):
        if x.im.is_const(0):
            return sqrt(x.re)
        raise Unsupported('complex sqrt')
    if _isnum(x):
        if is_inf(x) or is_nan(x):
            return x
    x = lift(x)
    if x.op == 'c':
        f = x.args[0]
        if f < 0:
            return float('nan')
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n*n == f.numerator and d*d == f.denominator:
            return const(Fraction(n, d))
    memo = CTX.z3cache.setdefault('sqrt', {})
    if x in memo:
        return memo[x]
    r = _sqrt(x)
    memo[x] = r
    return r


def _sqrt(x):
    # perfect square monomial parts
    if x.op in ('*', '^'):
        parts = x.args if x.op == '*' else (x,)
        out, rest = [], []
        for p in parts:
            if p.op == '^' and p.args[1] % 2 == 0:
                b = p.args[0]
                h = ipow(b, p.args[1]//2)
                if (p.args[1]//2) % 2 and _sign(b) is None:
                    h = abs(b)**(p.args[1]//2)
                out.append(h)
            elif p.op == '^' and _sign(p.args[0]) == 1:
                b, n = p.args
                out.append(ipow(b, (n-1)//2))
                rest.append(b)
            else:
                rest.append(p)
        if out:
            return mul(*out, sqrt(mul(*rest)) if rest else const(1))
        # sqrt of product of positives
        if x.op == '*':
            pos = [p for p in parts if _sign(p) == 1]
            if len(pos) == len(parts):
                return mul(*[sqrt(p) for p in parts])
    # candidate roots
    for r in CTX.roots:
        if all(abs(neval(x, e) - neval(r, e)**2) <=
               1e-9*(abs(neval(x, e)) + 1e-300) for e in samples()):
            from . import solve
            if solve.prove_eq(x, mul(r, r), why='sqrt root')[0]:
                return r
    for r, y in SQRT_DEF.items():       # same radicand, written differently
        if all(abs(neval(x, e) - neval(y, e)) <=
               1e-9*(abs(neval(x, e)) + 1e-300) for e in samples()):
            from . import solve
            if solve.prove_eq(x, y, why='sqrt radicand')[0]:
                return r
    s = _mk('f', ('sqrt', x))
    SQRT_DEF[s] = x
    return s


def log(x):
    x = lift(x)
    if x.is_const(1):
        return const(0)
    return uf('log', x)


def cos(x):
    return _trig('cos', x)


def sin(x):
    return _trig('sin', x)


def _cs_atom(arg):
    """(cos, sin) of an atomic argument; inverse functions are exact."""
    if arg.op == 'f':
        if arg.args[0] == 'atan2':
            y, x = arg.args[1:]
            r = sqrt(x*x + y*y)
            return x/r, y/r
        if arg.args[0] == 'acos':
            x = arg.args[1]
            return x, sqrt(1-x*x)
        if arg.args[0] == 'asin':
            x = arg.args[1]
            return sqrt(1-x*x), x
    return _mk('f', ('cos', arg)), _mk('f', ('sin', arg))


def atan2(y, x):
    y, x = lift(y), lift(x)
    if y.is_const(0):
        if x.is_const(0) or bool(x >= 0):
            return const(0)
        return PI()
    if x.is_const(0):
        return PI()/2 if bool(y > 0) else -PI()/2
    return cuf('atan2', y, x)


def acos(x):
    x = lift(x)
    if x.is_const(0):
        return PI()/2
    if x.is_const(1):
        return const(0)
    if x.is_const(-1):
        return PI()
    return cuf('acos', x)


def asin(x):
    x = lift(x)
    if x.is_const(0):
        return x
    if x.is_const(1):
        return PI()/2
    if x.is_const(-1):
        return -PI()/2
    return cuf('asin', x)


def _ratio(a, b):
    """a/b if it is a rational constant, else None."""
    if b.is_const(0):
        return None
    q = mul(a, inv(b))
    return q.args[0] if q.op == 'c' else None


_PI_NAME = 'PI'


def PI():
    return var(_PI_NAME, pos=True, lo=Fraction(314159, 100000),
               hi=Fraction(31416, 10000))


def _trig(kind, x):
    """cos/sin with exact handling of k*pi/2 shifts, negation, sums, doubling.
    """
    if isinstance(x, CSym):
        raise Unsupported('complex trig')
    x = lift(x)
    monos = expand_monos(x)
    pi = PI()
    # separate k*pi/2
    pk = monos.pop(((pi, 1),), Fraction(0))
    shift = pk*2
    if shift.denominator != 1:
        # general rational multiple of pi: keep inside the atom
        monos[((pi, 1),)] = pk
        shift = Fraction(0)
    c, s = const(1), const(0)
    for m, k in monos.items():
        mono = mul(*[ipow(b, e) for b, e in m]) if m else const(1)
        n = k
        base_den = n.denominator
        arg = mul(const(Fraction(1, base_den)), mono)
        num = n.numerator
        c1, s1 = _cs_atom(arg)
        if num < 0:
            s1 = -s1
            num = -num
        cn, sn = const(1), const(0)
        for _ in range(num):
            cn, sn = cn*c1 - sn*s1, sn*c1 + cn*s1
        c, s = c*cn - s*sn, s*cn + c*sn
    q = int(shift) % 4
    for _ in range(q):
        c, s = -s, c
    return c if kind == 'cos' else s


# --------------------------------------------------------------------------
# numeric evaluation (floats) on samples
# --------------------------------------------------------------------------

def samples():
    if not CTX.samples:
        CTX.samples = [dict() for _ in range(CTX.nsamples)]
    return CTX.samples


def sample_value(name, env):
    if name in env:
        return env[name]
    if name == _PI_NAME:
        env[name] = math.pi
        return math.pi
    if name in CTX.fn_eval:
        ev = CTX.fn_eval[name]
        if callable(ev):
            v = ev(env)
        else:
            mono, sc = ev
            v = math.exp(-float(sc)*neval(mono, env))
        env[name] = v
        return v
    i = CTX.varinfo[name]
    r = CTX.rng
    lo, hi = i['lo'], i['hi']
    if i.get('isint'):
        lo = -5 if lo is None else int(lo)
        hi = lo + 10 if hi is None else int(hi)
        v = r.randint(lo, hi)
    elif lo is not None and hi is not None:
        v = float(lo) + (float(hi) - float(lo))*r.uniform(0.05, 0.95)
    elif lo is not None:
        v = float(lo) + r.uniform(0.1, 2)
    elif hi is not None and not i['pos']:
        v = float(hi) - r.uniform(0.1, 2)
    elif i['pos'] or i['nonneg']:
        v = r.uniform(0.2, 2)
        if hi is not None:
            v = float(hi)*r.uniform(0.05, 0.95)
    else:
        v = r.uniform(-2, 2)
    env[name] = v
    return v


NUMFN = {
    'sqrt': lambda a: math.sqrt(a) if a >= 0 else float('nan'),
    'cos': math.cos, 'sin': math.sin,
    'log': lambda a: math.log(a) if a > 0 else float('nan'),
    'atan2': math.atan2,
    'acos': lambda a: math.acos(a) if -1 <= a <= 1 else float('nan'),
    'asin': lambda a: math.asin(a) if -1 <= a <= 1 else float('nan'),
    'abs': abs, 'mod': lambda a, b: a % b, 'floordiv': lambda a, b: float(a//b),
}


def neval(n, env):
    """Evaluate numerically; memo per env under key '#'."""
    if not isinstance(n, Sym):
        return float(n)
    memo = env.setdefault('#', {})
    stack = [n]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x.op == 'c':
            memo[x] = float(x.args[0])
            stack.pop()
            continue
        if x.op == 'v':
            memo[x] = sample_value(x.args[0], env)
            stack.pop()
            continue
        ch = [a for a in x.args if isinstance(a, Sym)]
        miss = [a for a in ch if a not in memo]
        if miss:
            stack.extend(miss)
            continue
        vals = [memo[a] for a in ch]
        try:
            if x.op == '+':
                v = math.fsum(vals) if all(map(math.isfinite, vals)) \
                    else sum(vals)
            elif x.op == '*':
                v = 1.0
                for q in vals:
                    v *= q
            elif x.op == '^':
                v = vals[0]**x.args[1]
            else:
                fn = x.args[0]
                if fn in NUMFN:
                    v = NUMFN[fn](*vals)
                elif fn in CTX.fn_eval:
                    v = CTX.fn_eval[fn](*vals)
                else:
                    # uninterpreted: deterministic pseudo-random of arguments
                    import random as _r
                    key = (fn,) + tuple(f'{q:.9e}' for q in vals)
                    v = _r.Random(str(key)).uniform(0.2, 2)
        except (ZeroDivisionError, OverflowError):
            v = float('nan')
        memo[x] = v
        stack.pop()
    return memo[n]


def beval(b, env):
    if b.op == 'k':
        return b.args[0]
    if b.op == 'rel':
        v = neval(b.args[1], env)
        return {'lt': v < 0, 'le': v <= 0, 'eq': v == 0}[b.args[0]]
    if b.op == 'and':
        return all(beval(a, env) for a in b.args)
    if b.op == 'or':
        return any(beval(a, env) for a in b.args)
    if b.op == 'not':
        return not beval(b.args[0], env)
    raise Unsupported(b.op)


# --------------------------------------------------------------------------
# symbolic derivative
# --------------------------------------------------------------------------

def diff(n, wrt):
    """d n / d wrt (wrt: variable Sym). exp atoms follow the chain rule."""
    memo = {}

    def dvar(x):
        if x is wrt:
            return const(1)
        nm = x.args[0]
        ev = CTX.fn_eval.get(nm)
        if ev is not None and not callable(ev):
            mono, sc = ev
            dm = rec(mono)
            if dm.is_const(0):
                return dm
            return mul(const(-sc), dm, x)
        dep = CTX.var_deps.get(nm)
        if dep is not None:
            return dep(wrt)
        return const(0)

    def rec(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'c':
            r = const(0)
        elif x.op == 'v':
            r = dvar(x)
        elif x.op == '+':
            r = add(*[rec(a) for a in x.args])
        elif x.op == '*':
            parts = []
            for i, a in enumerate(x.args):
                da = rec(a)
                if not da.is_const(0):
                    parts.append(mul(da, *[b for j, b in enumerate(x.args)
                                           if j != i]))
            r = add(*parts) if parts else const(0)
        elif x.op == '^':
            b, k = x.args
            db = rec(b)
            r = const(0) if db.is_const(0) else \
                mul(const(k), ipow(b, k-1), db)
        else:
            fn, args = x.args[0], x.args[1:]
            ds = [rec(a) for a in args]
            if all(d.is_const(0) for d in ds):
                r = const(0)
            elif fn == 'sqrt':
                r = mul(const(Fraction(1, 2)), inv(x), ds[0])
            elif fn == 'cos':
                r = mul(const(-1), _mk('f', ('sin', args[0])), ds[0])
            elif fn == 'sin':
                r = mul(_mk('f', ('cos', args[0])), ds[0])
            elif fn == 'log':
                r = mul(inv(args[0]), ds[0])
            elif fn in CTX.deriv_rules:
                g = CTX.deriv_rules[fn](*args)
                r = add(*[mul(gi, di) for gi, di in zip(g, ds)])
            else:
                raise Unsupported(f'no derivative for {fn}')
        memo[x] = r
        return r
    import sys
    sys.setrecursionlimit(100000)
    return rec(n)


def subst(n, mapping):
    """Substitute nodes (Sym->Sym)."""
    memo = dict(mapping)

    def rec(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in 'cv':
            r = x
            if x.op == 'v':
                ev = CTX.fn_eval.get(x.args[0])
                if ev is not None and not callable(ev):
                    m2 = rec(ev[0])
                    if m2 is not ev[0]:
                        r = exp(mul(const(-ev[1]), m2))
                        if not isinstance(r, Sym):
                            raise Unsupported('subst inf')
        elif x.op == '+':
            r = add(*[rec(a) for a in x.args])
        elif x.op == '*':
            r = mul(*[rec(a) for a in x.args])
        elif x.op == '^':
            r = ipow(rec(x.args[0]), x.args[1])
        else:
            fn, args = x.args[0], [rec(a) for a in x.args[1:]]
            if fn == 'sqrt':
                r = sqrt(args[0])
            elif fn == 'cos':
                r = cos(args[0])
            elif fn == 'sin':
                r = sin(args[0])
            else:
                r = uf(fn, *args)
        memo[x] = r
        return r
    return rec(n)
