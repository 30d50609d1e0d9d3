"""Symbolic strings and reals for the path executor of ints.py."""
import ast
import z3
from . import ints
from .ints import SB, SI


class Unsup(RuntimeError):
    pass


def constants(*mods, more=()):
    """All string constants of the modules' sources (for hash splits)."""
    import inspect
    out = set(more)
    for m in mods:
        for n in ast.walk(ast.parse(inspect.getsource(m))):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) \
                    and len(n.value) < 30 and '\n' not in n.value:
                out.add(n.value)
            elif isinstance(n, ast.arg):
                out.add(n.arg)
            elif isinstance(n, ast.keyword) and n.arg:
                out.add(n.arg)
    return sorted(out)


def _fold(c, up=False):
    """Regex of the strings whose lower()/upper() is c (ASCII names)."""
    if c != (c.upper() if up else c.lower()):
        return None
    r = []
    for ch in c:
        alt = {ch, ch.lower(), ch.upper()}
        if ch.lower() == 'k' and not up:
            alt.add('\u212a')
        alt = [z3.Re(z3.StringVal(a)) for a in sorted(alt) if len(a) == 1]
        r.append(z3.Union(*alt) if len(alt) > 1 else alt[0])
    if not r:
        return z3.Re(z3.StringVal(''))
    return z3.Concat(*r) if len(r) > 1 else r[0]


class SymStr(str):
    """Symbolic string (content '<sym>' is never used)."""
    CONST = ()

    def __new__(cls, e, tr=''):
        s = str.__new__(cls, '<sym>')
        s.e = z3.String(e) if isinstance(e, str) else e
        s.tr = tr
        return s

    def eqx(self, o):
        if isinstance(o, SymStr):
            if o is self or (z3.eq(o.e, self.e) and o.tr == self.tr):
                return z3.BoolVal(True)
            if not o.tr and not self.tr:
                return self.e == o.e
            raise Unsup('comparison of transformed symbolic strings')
        if not isinstance(o, str):
            return z3.BoolVal(False)
        if not self.tr:
            return self.e == z3.StringVal(o)
        r = _fold(o, self.tr == 'upper')
        return z3.BoolVal(False) if r is None else z3.InRe(self.e, r)

    def __eq__(self, o):
        got = ints.EX.__dict__.get('strs', {})
        key = (self.e.get_id(), self.tr)
        if key in got and isinstance(o, str) and not isinstance(o, SymStr):
            if got[key] is not None:
                return got[key] == o
            if o in self.CONST:
                return False
        return ints.EX.decide(self.eqx(o))

    def __ne__(self, o):
        return not self == o

    def resolve(self):
        """The constant it equals (forks by halves) or None."""
        ex = ints.EX
        got = ex.__dict__.setdefault('strs', {})
        key = (self.e.get_id(), self.tr)
        if key not in got:
            ex.__dict__.setdefault('keep', []).append(self.e)
            c = list(self.CONST)
            if not ex.decide(z3.Or(*[self.eqx(x) for x in c])):
                got[key] = None
            else:
                while len(c) > 1:
                    h = c[:len(c)//2]
                    c = h if ex.decide(z3.Or(*[self.eqx(x) for x in h])) \
                        else c[len(h):]
                got[key] = c[0]
        return got[key]

    def __hash__(self):
        r = self.resolve()
        return hash('\0other\0' if r is None else r)

    def lower(self):
        return self if self.tr == 'lower' else SymStr(self.e, 'lower')

    def upper(self):
        return self if self.tr == 'upper' else SymStr(self.e, 'upper')
    casefold = lower

    def __bool__(self):
        return not self == ''

    def __len__(self):
        raise Unsup('len')

    def __getitem__(self, i):
        if self.tr:
            raise Unsup('index of lower()')
        n = z3.Length(self.e)
        if isinstance(i, int):
            k = i if i >= 0 else n+i
            if ints.EX.decide(z3.And(k >= 0, k < n)):
                return SymStr(z3.SubString(self.e, k, 1))
            raise IndexError('string index')
        a, b = i.start or 0, i.stop
        if a < 0 or i.step not in (None, 1) or (b is not None and b < 0):
            raise Unsup('slice')
        return SymStr(z3.SubString(self.e, a, (n if b is None else b)-a))

    def startswith(self, p):
        if self.tr:
            raise Unsup('startswith of lower()')
        ps = p if isinstance(p, tuple) else (p,)
        return ints.EX.decide(z3.Or(*[z3.PrefixOf(z3.StringVal(q), self.e)
                                      for q in ps]))

    def endswith(self, p):
        if self.tr:
            raise Unsup('endswith of lower()')
        ps = p if isinstance(p, tuple) else (p,)
        return ints.EX.decide(z3.Or(*[z3.SuffixOf(z3.StringVal(q), self.e)
                                      for q in ps]))

    def __contains__(self, p):
        if self.tr:
            raise Unsup('in lower()')
        return ints.EX.decide(z3.Contains(self.e, z3.StringVal(p)))

    def __add__(self, o):
        if self.tr or isinstance(o, SymStr):
            raise Unsup('concat')
        return SymStr(z3.Concat(self.e, z3.StringVal(o)))

    def __radd__(self, o):
        if self.tr:
            raise Unsup('concat')
        return SymStr(z3.Concat(z3.StringVal(o), self.e))

    def __str__(self):
        return self

    def __repr__(self):
        return '<sym>'

    def __format__(self, s):
        return '<sym>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _block(name):
    def f(self, *a, **k):
        raise Unsup(f'str.{name}')
    return f


for _n in dir(str):
    if not _n.startswith('__') and _n not in SymStr.__dict__:
        setattr(SymStr, _n, _block(_n))
for _n in ('__lt__', '__le__', '__gt__', '__ge__', '__mod__', '__mul__',
           '__rmul__', '__iter__'):
    setattr(SymStr, _n, _block(_n))


def sgetattr(obj, name, *d):
    """getattr over a symbolic name: one fork per attribute."""
    if not isinstance(name, SymStr):
        return getattr(obj, name, *d)
    for n in dir(obj):
        if name == n:
            return getattr(obj, n)
    if d:
        return d[0]
    raise AttributeError('<sym>')


def shasattr(obj, name):
    if not isinstance(name, SymStr):
        return hasattr(obj, name)
    try:
        sgetattr(obj, name)
    except AttributeError:
        return False
    return True


def strval(m, e):
    """Python string of a z3 string in model m."""
    import re
    s = m.eval(e, model_completion=True).as_string()
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda g: chr(int(g[1], 16)), s)


def _r(o):
    if isinstance(o, SR):
        return o.e
    if isinstance(o, SI):
        return z3.ToReal(o.e)
    if isinstance(o, (int, float)):
        return z3.RealVal(repr(o) if isinstance(o, float) else int(o))
    raise TypeError(f'real with {type(o)}')


class SR:
    """Symbolic real number."""

    def __init__(self, e):
        self.e = z3.Real(e) if isinstance(e, str) else e

    def _cmp(self, o, f, other):
        try:
            return SB(f(self.e, _r(o)))
        except TypeError:
            return other

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, True)

    def __lt__(self, o):
        return SB(self.e < _r(o))

    def __le__(self, o):
        return SB(self.e <= _r(o))

    def __gt__(self, o):
        return SB(self.e > _r(o))

    def __ge__(self, o):
        return SB(self.e >= _r(o))

    def __add__(self, o):
        return SR(self.e+_r(o))
    __radd__ = __add__

    def __sub__(self, o):
        return SR(self.e-_r(o))

    def __mul__(self, o):
        return SR(self.e*_r(o))
    __rmul__ = __mul__

    def __neg__(self):
        return SR(-self.e)

    def __abs__(self):
        return SR(z3.If(self.e < 0, -self.e, self.e))

    def __bool__(self):
        return ints.EX.decide(self.e != 0)

    def trunc(self):
        return SI(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))
    __trunc__ = trunc

    def __hash__(self):
        for v in (-1, 0, 1):
            if self == v:
                return hash(v)
        return hash('\0other\0')

    def __deepcopy__(self, memo):
        return self

    def __format__(self, s):
        return '<real>'

    def __str__(self):
        return '<real>'
    __repr__ = __str__


class _Int(type(ints.sint)):
    def __call__(cls, x=0, *a, **k):
        if isinstance(x, SR):
            return x.trunc()
        return x if isinstance(x, SI) else int(x, *a, **k)


class sint(ints.sint, metaclass=_Int):
    pass
