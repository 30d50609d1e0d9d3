"""Symbolic execution over mathematical integers (z3 Int): branches on
integer relations fork the path, every other operation stays symbolic."""
import numpy as np
import z3
from .core import CTX


class Stop(Exception):
    pass


class _Ex:
    def __init__(self):
        self.trail = []       # decisions of the current run
        self.pos = 0
        self.pc = []
        self.todo = []

    def sat(self, extra):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*self.pc, extra)
        CTX.stats['queries'] += 1
        r = s.check()
        if r == z3.unknown:
            raise RuntimeError('solver unknown')
        return r == z3.sat

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trail):
            v = self.trail[self.pos]
            self.pos += 1
        else:
            t, f = self.sat(c), self.sat(z3.Not(c))
            v = t
            if t and f:
                self.todo.append(self.trail[:self.pos]+[False])
            self.trail = self.trail[:self.pos]+[v]
            self.pos += 1
        self.pc.append(c if v else z3.Not(c))
        return v


EX = None


def paths(fn, own=None):
    """[(path condition, result or exception)] of fn(); own(e): an
    AttributeError which belongs to the examined code."""
    global EX
    out, todo = [], [[]]
    while todo:
        EX = _Ex()
        EX.trail = todo.pop()
        try:
            r = fn()
        except Exception as e:      # noqa
            if isinstance(e, (AttributeError, NameError)) and not (
                    own and own(e)):
                raise
            r = e
        todo += EX.todo
        CTX.stats['paths'] = CTX.stats.get('paths', 0)+1
        out.append((list(EX.pc), r))
    EX = None
    return out


def model(pc, *claims):
    """A model of pc and not all claims; None if there is none."""
    s = z3.Solver()
    s.set('timeout', 30000)
    s.add(*pc)
    if claims:
        s.add(z3.Not(z3.And(*[ex(c) for c in claims])))
    CTX.stats['queries'] += 1
    r = s.check()
    if r == z3.unknown:
        raise RuntimeError('solver unknown')
    return s.model() if r == z3.sat else None


def ex(x):
    if isinstance(x, (SI, SB)):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.ExprRef):
        return x
    if type(x).__name__ == 'bool_':
        return z3.BoolVal(bool(x))
    return z3.IntVal(int(x))


class SB:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return EX.decide(self.e)

    def __and__(self, o):
        return SB(z3.And(self.e, ex(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SB(z3.Or(self.e, ex(o)))
    __ror__ = __or__

    def __invert__(self):
        return SB(z3.Not(self.e))

    def __eq__(self, o):
        return SB(self.e == ex(o))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __mul__(self, o):
        return int(bool(self))*o
    __rmul__ = __mul__

    def __hash__(self):
        return hash(self.e)


def _i(o):
    if isinstance(o, bool) or not isinstance(o, (int, SI)):
        if isinstance(o, SB):
            return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if hasattr(o, 'dtype') and getattr(o, 'shape', 1) == () and \
                o.dtype.kind in 'iu':
            return z3.IntVal(int(o))
        if isinstance(o, float) and o == int(o):
            return z3.IntVal(int(o))
        raise TypeError(f'integer with {type(o)}')
    return ex(o)


class SI:
    """Symbolic integer."""

    def __init__(self, e):
        self.e = z3.Int(e) if isinstance(e, str) else e

    def __add__(self, o):
        return SI(self.e+_i(o))
    __radd__ = __add__

    def __sub__(self, o):
        return SI(self.e-_i(o))

    def __rsub__(self, o):
        return SI(_i(o)-self.e)

    def __mul__(self, o):
        return SI(self.e*_i(o))
    __rmul__ = __mul__

    def __neg__(self):
        return SI(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SI(z3.If(self.e < 0, -self.e, self.e))

    def _pos(self, o):
        k = _i(o)
        if not (z3.is_int_value(k) and k.as_long() > 0):
            raise TypeError('only positive constant divisors')
        return k

    def __floordiv__(self, o):
        return SI(self.e/self._pos(o))      # Euclid = floor for k > 0

    def __mod__(self, o):
        return SI(self.e % self._pos(o))

    def __divmod__(self, o):
        return self//o, self % o

    def __eq__(self, o):
        try:
            return SB(self.e == _i(o))
        except TypeError:
            return False

    def __ne__(self, o):
        try:
            return SB(self.e != _i(o))
        except TypeError:
            return True

    def __lt__(self, o):
        return SB(self.e < _i(o))

    def __le__(self, o):
        return SB(self.e <= _i(o))

    def __gt__(self, o):
        return SB(self.e > _i(o))

    def __ge__(self, o):
        return SB(self.e >= _i(o))

    def __bool__(self):
        return EX.decide(self.e != 0)

    def concrete(self):
        """The value: decided one model at a time (forks)."""
        m = model(EX.pc)
        v = m.eval(self.e, model_completion=True).as_long()
        if EX.decide(self.e == v):
            return v
        return self.concrete()
    __int__ = __index__ = concrete

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return '<int>'
    __repr__ = __str__

    def __format__(self, s):
        return '<int>'


class _Int(type):
    def __call__(cls, x=0, *a, **k):
        return x if isinstance(x, SI) else int(x, *a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, (int, SI))


class sint(metaclass=_Int):
    """int which keeps symbolic integers (also accepted as dtype)."""
    dtype = np.dtype(int)
