"""Symbolic execution core: z3-backed proxies for Python values and a path explorer.

The real code is run by CPython; values that are inputs of the harness are proxies.  Whenever the
code needs the truth value of a symbolic condition, the explorer asks z3 which outcomes are
feasible under the current path condition, follows one and queues the other (depth-first
re-execution).  `check(cond)` asks z3 for a model of path condition and not(cond): unsat means the
assertion holds for every input on this path, sat yields concrete inputs.
"""
from __future__ import annotations
import builtins
import time
from . import term as z3

_len, _int, _isinstance, _bool, _min, _max, _sum, _bytes = (
    builtins.len, builtins.int, builtins.isinstance, builtins.bool, builtins.min, builtins.max,
    builtins.sum, builtins.bytes)


class PathAbort(BaseException):
    """Path is infeasible / cut off (not an Exception: code under test must not catch it)."""


class Inconclusive(BaseException):
    """Engine cannot decide (solver unknown, unsupported construct, budget)."""


class ReplayMismatch(BaseException):
    pass


CUR = None          # current engine (SymEngine or ReplayEngine)


def cur():
    return CUR


def set_cur(e):
    global CUR
    CUR = e


Z = z3
_T = z3.BoolVal(True)
_F = z3.BoolVal(False)


# ------------------------------------------------------------------------------------------ values

class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.branch(self.e)

    def __and__(self, o):
        return And(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __eq__(self, o):
        if o is True or o is False or _isinstance(o, SymBool):
            return mkbool(tobool(self) == tobool(o))
        if _isinstance(o, (_int, SymInt)):
            return mkbool(toint(self) == toint(o))
        return False

    def __ne__(self, o):
        return Not(self == o)

    def __lt__(self, o):
        return SymInt(toint(self)) < o

    def __gt__(self, o):
        return SymInt(toint(self)) > o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return _int(_bool(self))

    def __int__(self):
        return _int(_bool(self))

    def __add__(self, o):
        return mkint(toint(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return 'SymBool(%s)' % self.e


def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def tobool(x):
    if _isinstance(x, SymBool):
        return x.e
    if x is True:
        return _T
    if x is False or x is None:
        return _F
    if _isinstance(x, z3.BoolRef):
        return x
    if _isinstance(x, SymInt):
        return x.e != 0
    if _isinstance(x, _int):
        return z3.BoolVal(x != 0)
    if _isinstance(x, (list, tuple, dict)):
        raise TypeError('not a condition: %r' % type(x))
    return z3.BoolVal(_bool(x))


def mkint(e):
    if _isinstance(e, _int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def toint(x):
    if _isinstance(x, SymInt):
        return x.e
    if _isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if x is True:
        return z3.IntVal(1)
    if x is False:
        return z3.IntVal(0)
    if _isinstance(x, _int):
        return z3.IntVal(x)
    if _isinstance(x, z3.ArithRef):
        return x
    raise Inconclusive('not an int: %r' % type(x))


def _num(o):
    return _isinstance(o, (_int, SymInt, SymBool))


class SymInt:
    __slots__ = ('e', '_c')

    def __init__(self, e):
        self.e = e
        self._c = None

    # -- arithmetic
    def __add__(self, o):
        if not _num(o):
            return NotImplemented
        return mkint(self.e + toint(o))
    __radd__ = __add__

    def __sub__(self, o):
        if not _num(o):
            return NotImplemented
        return mkint(self.e - toint(o))

    def __rsub__(self, o):
        if not _num(o):
            return NotImplemented
        return mkint(toint(o) - self.e)

    def __mul__(self, o):
        if _isinstance(o, float):
            return SymReal(z3.ToReal(self.e)) * o
        if not _num(o):
            if _isinstance(o, (_bytes, bytearray)) and _len(o) == 1:
                return CUR.zeros_hook(o, self)
            return NotImplemented
        return mkint(self.e * toint(o))
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    @staticmethod
    def _divmod(a, b):
        ae, be = toint(a), toint(b)
        if z3.is_int_value(be):
            bv = be.as_long()
            if bv == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if bv > 0:
                return ae / be, ae % be
            q = (-ae) / (-be)
            return q, ae - q * be
        if CUR.branch(be == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if CUR.branch(be > 0):
            q = ae / be
            return q, ae - q * be
        q = (-ae) / (-be)
        return q, ae - q * be

    def __floordiv__(self, o):
        if not _num(o):
            return NotImplemented
        return mkint(self._divmod(self, o)[0])

    def __rfloordiv__(self, o):
        if not _num(o):
            return NotImplemented
        return mkint(self._divmod(o, self)[0])

    def __mod__(self, o):
        if not _num(o):
            return NotImplemented
        return mkint(self._divmod(self, o)[1])

    def __rmod__(self, o):
        if not _num(o):
            return NotImplemented
        return mkint(self._divmod(o, self)[1])

    def __divmod__(self, o):
        q, r = self._divmod(self, o)
        return mkint(q), mkint(r)

    def __rdivmod__(self, o):
        q, r = self._divmod(o, self)
        return mkint(q), mkint(r)

    def __truediv__(self, o):
        if _isinstance(o, (float, SymReal)):
            return SymReal(z3.ToReal(self.e)) / o
        return float_div(self, o)

    def __rtruediv__(self, o):
        if _isinstance(o, (float, SymReal)):
            return toreal(o) / self
        return float_div(o, self)

    def __pow__(self, o):
        if _isinstance(o, _int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Inconclusive('symbolic power')

    def __lshift__(self, o):
        return self * (1 << _int(o))

    def __rshift__(self, o):
        return self // (1 << _int(o))

    def __rlshift__(self, o):
        return o << concretize(self)

    def __rrshift__(self, o):
        return o >> concretize(self)

    def __and__(self, o):
        if _isinstance(o, SymInt):
            raise Inconclusive('symbolic & symbolic')
        if not _num(o):
            return NotImplemented
        return mkint(_mask(self.e, _int(o)))
    __rand__ = __and__

    def __or__(self, o):
        if _isinstance(o, SymInt):
            raise Inconclusive('symbolic | symbolic')
        if not _num(o):
            return NotImplemented
        o = _int(o)
        return mkint(self.e + (o - _mask(self.e, o)))
    __ror__ = __or__

    def __xor__(self, o):
        if _isinstance(o, SymInt):
            raise Inconclusive('symbolic ^ symbolic')
        o = _int(o)
        m = _mask(self.e, o)
        return mkint(self.e - m + (o - m))
    __rxor__ = __xor__

    def __invert__(self):
        return mkint(-self.e - 1)

    # -- comparison
    def __eq__(self, o):
        if _num(o):
            return mkbool(self.e == toint(o))
        if _isinstance(o, float) and o == _int(o):
            return mkbool(self.e == _int(o))
        return False

    def __ne__(self, o):
        if _num(o):
            return mkbool(self.e != toint(o))
        return True

    def _cmp(self, o, f):
        if _num(o):
            return mkbool(f(self.e, toint(o)))
        if _isinstance(o, (float, SymReal)):
            if o == float('inf') if _isinstance(o, float) else False:
                return _bool(f(0, 1))
            if _isinstance(o, float) and o == float('-inf'):
                return _bool(f(0, -1))
            return mkbool(f(z3.ToReal(self.e), toreal(o).e))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return CUR.branch(self.e != 0)

    def __hash__(self):
        return hash(concretize(self))

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __float__(self):
        return float(concretize(self))

    def __ceil__(self):
        return self

    def __floor__(self):
        return self

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    def bit_length(self):
        return BitLen(self)

    def to_bytes(self, *a, **kw):
        return concretize(self).to_bytes(*a, **kw)

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return 'SymInt(%s)' % self.e
    __str__ = __repr__


class BitLen:
    """bit_length() of a symbolic integer, comparable with constants only."""

    def __init__(self, v):
        self.v = v

    def _gt(self, n):       # bit_length > n  <=> |v| >= 2**n
        return Or(self.v >= (1 << n), self.v <= -(1 << n))

    def __gt__(self, n):
        return self._gt(n)

    def __le__(self, n):
        return Not(self._gt(n))

    def __ge__(self, n):
        return self._gt(n - 1)

    def __lt__(self, n):
        return Not(self._gt(n - 1))

    def __eq__(self, n):
        return And(self >= n, self <= n)

    def __hash__(self):
        raise Inconclusive('hash of symbolic bit_length')

    def __index__(self):
        return concretize(self.v).bit_length()
    __int__ = __index__


def _mask(e, m):
    """e & m for constant m (python semantics; e any integer, m any integer)."""
    if m == 0:
        return z3.IntVal(0)
    if m < 0:
        # e & m = e - (e & ~m)
        return e - _mask(e, ~m)
    parts = []
    lo = 0
    while m >> lo:
        if not (m >> lo) & 1:
            lo += 1
            continue
        hi = lo
        while (m >> hi) & 1:
            hi += 1
        t = (e / z3.IntVal(1 << lo)) % z3.IntVal(1 << (hi - lo))
        parts.append(t * (1 << lo))
        lo = hi
    return z3.Sum(parts) if _len(parts) > 1 else parts[0]


class SymReal:
    """Real-valued proxy standing for a float; see float_div for rounding."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __add__(self, o):
        return SymReal(self.e + toreal(o).e)
    __radd__ = __add__

    def __sub__(self, o):
        return SymReal(self.e - toreal(o).e)

    def __rsub__(self, o):
        return SymReal(toreal(o).e - self.e)

    def __mul__(self, o):
        return SymReal(self.e * toreal(o).e)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = toreal(o)
        if CUR.branch(o.e == 0):
            raise ZeroDivisionError('float division by zero')
        return SymReal(self.e / o.e)

    def __rtruediv__(self, o):
        return toreal(o) / self

    def __neg__(self):
        return SymReal(-self.e)

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        if _isinstance(o, float) and o in (float('inf'), float('-inf')):
            return _bool(f(0, 1 if o > 0 else -1))
        return mkbool(f(self.e, toreal(o).e))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not _isinstance(o, (_int, float, SymInt, SymReal)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return Not(self == o)

    def __bool__(self):
        return CUR.branch(self.e != 0)

    def __hash__(self):
        raise Inconclusive('hash of symbolic real')

    def __ceil__(self):
        return mkint(-z3.ToInt(-self.e))

    def __floor__(self):
        return mkint(z3.ToInt(self.e))

    def __trunc__(self):
        return mkint(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))
    __int__ = None

    def __floordiv__(self, o):
        return SymReal(z3.ToReal(z3.ToInt((self / o).e)))

    def __mod__(self, o):
        return self - (self // o) * o

    def __round__(self, n=None):
        raise Inconclusive('round of symbolic real')

    def __format__(self, spec):
        return '<symreal>'

    def __repr__(self):
        return 'SymReal(%s)' % self.e


def toreal(x):
    if _isinstance(x, SymReal):
        return x
    if _isinstance(x, float):
        n, d = x.as_integer_ratio()
        return SymReal(z3.RealVal(n) / z3.RealVal(d))
    return SymReal(z3.ToReal(toint(x)))


def float_div(a, b):
    """int / int with IEEE rounding over-approximated: the result lies within one relative half ulp
    of the quotient, and rounding is monotone with respect to integers below 2**53."""
    if CUR.branch(toint(b) == 0):
        raise ZeroDivisionError('division by zero')
    ae, be = toint(a), toint(b)
    q = z3.ToReal(ae) / z3.ToReal(be)
    r = CUR.fresh_real('fdiv')
    aq = z3.If(q >= 0, q, -q)
    # exact rounding for |q| >= 1 (the binary exponent is decided by forking), bounds below 1
    if CUR.branch(aq >= 1):
        e = 0
        while CUR.branch(aq >= z3.RealVal(2 ** (e + 1))):
            e += 1
            if e > 200:
                raise Inconclusive('float exponent')
        k = CUR.fresh_int('mant')
        m = q * z3.RealVal(2 ** (52 - e)) if e <= 52 else q / z3.RealVal(2 ** (e - 52))
        kr = z3.ToReal(k)
        CUR.assume_raw(z3.And(kr - m <= z3.RealVal(1) / z3.RealVal(2), m - kr <= z3.RealVal(1) / z3.RealVal(2),
                              z3.Implies(z3.Or(kr - m == z3.RealVal(1) / z3.RealVal(2),
                                               m - kr == z3.RealVal(1) / z3.RealVal(2)), k % 2 == 0)))
        CUR.assume_raw(r == (kr / z3.RealVal(2 ** (52 - e)) if e <= 52 else kr * z3.RealVal(2 ** (e - 52))))
    else:
        eps = aq / z3.RealVal(2 ** 53)
        CUR.assume_raw(z3.And(r <= q + eps, r >= q - eps, r <= 1, r >= -1, z3.Implies(q > 0, r > 0),
                              z3.Implies(q < 0, r < 0)))
    return SymReal(r)


def concretize(x, limit=400):
    """Pick a concrete value for x, exploring every feasible one."""
    if _isinstance(x, SymBool):
        return _bool(x)
    if not _isinstance(x, SymInt):
        return x
    if x._c is None:
        x._c = CUR.concretize_expr(x.e, limit)
    return x._c


# atoms: opaque byte strings --------------------------------------------------------------------

class Interner:
    """Maps concrete byte strings to atom ids (>= 1000) and back."""

    def __init__(self):
        self.by_bytes = {}
        self.by_id = {}

    def id(self, b):
        b = _bytes(b) if not _isinstance(b, str) else b
        i = self.by_bytes.get(b)
        if i is None:
            i = 1000 + _len(self.by_bytes)
            self.by_bytes[b] = i
            self.by_id[i] = b
        return i


class SymAtom:
    """Opaque byte string: only equality, hashing and length are available."""
    __slots__ = ('e', '_c')

    def __init__(self, e):
        self.e = e
        self._c = None

    def __eq__(self, o):
        oe = atom_expr(o)
        if oe is None:
            return False
        return mkbool(self.e == oe)

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def __hash__(self):
        if self._c is None:
            self._c = CUR.concretize_expr(self.e, 400)
        b = CUR.interner.by_id.get(self._c)
        return hash(b) if b is not None else hash(('atom', self._c))

    def __bool__(self):
        return CUR.branch(tobool(symlen(self) > 0))

    def startswith(self, p):
        # opaque atoms only start with themselves if they are interned constants
        c = self._conc()
        b = CUR.interner.by_id.get(c)
        if b is None:
            if _isinstance(p, tuple):
                return False
            return _len(p) == 0
        return b.startswith(p)

    def _conc(self):
        if self._c is None:
            self._c = CUR.concretize_expr(self.e, 400)
        return self._c

    def decode(self, *a, **kw):
        return 'atom%d' % self._conc()

    def __format__(self, s):
        return '<atom>'

    def __repr__(self):
        return 'SymAtom(%s)' % self.e


def atom_expr(o):
    if _isinstance(o, SymAtom):
        return o.e
    if _isinstance(o, (_bytes, bytearray, str)):
        return z3.IntVal(CUR.interner.id(o))
    return None


_alen = z3.Function('alen', z3.IntSort(), z3.IntSort())


def symlen(x):
    """len() that accepts symbolic values (injected as `len` into the modules under test)."""
    if _isinstance(x, SymAtom):
        e = x.e
        if z3.is_int_value(e):
            b = CUR.interner.by_id.get(e.as_long())
            if b is not None:
                return _len(b)
        CUR.note_atom_len(e)
        return mkint(_alen(e))
    f = getattr(x, '__symlen__', None)
    if f is not None:
        return f()
    if _isinstance(x, str) and '~~' in x:
        from . import text
        return text.length(x)
    return _len(x)


# ------------------------------------------------------------------------------------ combinators

def _flat(xs):
    if not any(_isinstance(x, (list, tuple)) for x in xs):
        return xs
    r = []
    for x in xs:
        if _isinstance(x, (list, tuple)):
            r.extend(_flat(x))
        else:
            r.append(x)
    return r


def And(*xs):
    xs = _flat(xs)
    es = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        es.append(tobool(x))
    if not es:
        return True
    return mkbool(z3.And(es) if _len(es) > 1 else es[0])


def Or(*xs):
    xs = _flat(xs)
    es = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        es.append(tobool(x))
    if not es:
        return False
    return mkbool(z3.Or(es) if _len(es) > 1 else es[0])


def Not(x):
    if x is True or x is False:
        return not x
    return mkbool(z3.Not(tobool(x)))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return And(Implies(a, b), Implies(b, a))


def Ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if _isinstance(a, (_bytes, SymAtom)) or _isinstance(b, (_bytes, SymAtom)):
        return SymAtom(z3.simplify(z3.If(tobool(c), atom_expr(a), atom_expr(b))))
    if (a is True or a is False or _isinstance(a, SymBool)) and (
            b is True or b is False or _isinstance(b, SymBool)):
        return mkbool(z3.If(tobool(c), tobool(a), tobool(b)))
    if _isinstance(a, (SymReal, float)) or _isinstance(b, (SymReal, float)):
        return SymReal(z3.If(tobool(c), toreal(a).e, toreal(b).e))
    return mkint(z3.If(tobool(c), toint(a), toint(b)))


def Sum(xs):
    xs = list(xs)
    if all(_isinstance(x, _int) for x in xs):
        return _sum(_int(x) for x in xs)
    return mkint(z3.Sum([toint(x) for x in xs]))


def Count(conds):
    return Sum([Ite(c, 1, 0) if _isinstance(c, SymBool) else _int(_bool(c)) for c in conds])


def Eq(a, b):
    """Equality usable for ints, atoms, bytes, None in both modes."""
    if a is None or b is None:
        return a is b
    if _isinstance(a, SymAtom) or _isinstance(b, SymAtom):
        ae, be = atom_expr(a), atom_expr(b)
        if ae is None or be is None:
            return False
        return mkbool(ae == be)
    r = (a == b)
    return r


# ------------------------------------------------------------- builtins injected into code under test

class _IntMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (_int, SymInt, SymBool))


class sym_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a, **kw):
        if _isinstance(x, SymInt):
            return x
        if _isinstance(x, SymBool):
            return mkint(toint(x))
        if _isinstance(x, SymReal):
            return x.__trunc__()
        return _int(x, *a, **kw)
    from_bytes = _int.from_bytes


def sym_isinstance(x, t):
    if _isinstance(x, (SymInt, SymAtom, SymBool, SymReal)):
        ts = t if _isinstance(t, tuple) else (t,)
        flat = []
        for y in ts:
            if _isinstance(y, tuple):
                flat.extend(y)
            elif hasattr(y, '__args__') and not _isinstance(y, type):
                flat.extend(y.__args__)
            else:
                flat.append(y)
        for y in flat:
            if y is object:
                return True
            if _isinstance(x, SymInt) and y in (_int, sym_int):
                return True
            if _isinstance(x, SymBool) and y in (_bool, _int, sym_int):
                return True
            if _isinstance(x, SymAtom) and y in (_bytes,):
                return True
            if _isinstance(x, SymReal) and y is float:
                return True
            if _isinstance(x, y):
                return True
        return False
    f = getattr(type(x), '__syminstance__', None)
    if f is not None and f(x, t):
        return True
    return _isinstance(x, t)


def _symbolic(x):
    return _isinstance(x, (SymInt, SymReal))


def sym_min(*a, key=None, **kw):
    xs = list(a[0]) if _len(a) == 1 else list(a)
    if key is not None or not any(_symbolic(x) for x in xs):
        if key is None:
            return _min(xs, **kw)
        return _min(xs, key=key, **kw)
    r = xs[0]
    for x in xs[1:]:
        r = Ite(x < r, x, r)
    return r


def sym_max(*a, key=None, **kw):
    xs = list(a[0]) if _len(a) == 1 else list(a)
    if key is not None or not any(_symbolic(x) for x in xs):
        if key is None:
            return _max(xs, **kw)
        return _max(xs, key=key, **kw)
    r = xs[0]
    for x in xs[1:]:
        r = Ite(x > r, x, r)
    return r


def sym_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def sym_bool(x=False):
    return _bool(x)


BUILTINS = dict(len=symlen, isinstance=sym_isinstance, min=sym_min, max=sym_max, int=sym_int,
                sum=sym_sum)


# ------------------------------------------------------------------------------------------ engine

class Violation:
    def __init__(self, label, inputs, detail=''):
        self.label, self.inputs, self.detail = label, inputs, detail


class SymEngine:
    mode = 'sym'

    def __init__(self, *, query_timeout_ms=30000, deadline=None, max_paths=10**9, max_viol=3,
                 known=()):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.deadline = deadline
        self.max_paths = max_paths
        self.max_viol = max_viol
        self.stats = dict(paths=0, feasible_paths=0, queries=0, solver_s=0.0, checks=0,
                          checks_trivial=0, branches=0)
        self.violations = []
        self.witnesses = {}
        self.samples = []
        self.sample_every = None
        self.labels = {}
        self.interner = Interner()
        self.zeros_hook = None
        self.known = set(known)

    # -- inputs
    def _name(self, n):
        k = self.names.get(n, 0)
        self.names[n] = k + 1
        return n if k == 0 else '%s#%d' % (n, k)

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        v = z3.Int(name)
        self.inputs[name] = v
        c = []
        if lo is not None:
            c.append(v >= lo)
        if hi is not None:
            c.append(v <= hi)
        if c:
            self.assume_raw(z3.And(c))
        if lo is not None and lo == hi:
            return lo
        return SymInt(v)

    def bool(self, name):
        name = self._name(name)
        v = z3.Bool(name)
        self.inputs[name] = v
        return SymBool(v)

    def real(self, name, lo=None, hi=None):
        name = self._name(name)
        v = z3.Real(name)
        self.inputs[name] = v
        if lo is not None:
            self.assume_raw(v >= lo)
        if hi is not None:
            self.assume_raw(v <= hi)
        return SymReal(v)

    def choice(self, name, n):
        """Symbolic choice in range(n), concretised by forking."""
        if n == 1:
            return 0
        x = self.int(name, 0, n - 1)
        return concretize(x)

    def flag(self, name):
        return _bool(self.bool(name))

    def nd(self, name, n):
        """Unconstrained choice in range(n): every value is feasible, so no query is needed."""
        if n == 1:
            return 0
        name = self._name(name)
        v = z3.Int(name)
        self.inputs[name] = v
        i = self.pos
        self.stats['branches'] += 1
        if i < _len(self.prefix):
            k = self.prefix[i][1]
        else:
            k = 0
            for j in range(n - 1, 0, -1):
                self.stack.append(self.trace + [('nd', j)])
        self.pos += 1
        self.trace.append(('nd', k))
        self.solver.add(v == k)
        if self.model is not None:
            self.model = None if self.model_stale(v, k) else self.model
        return k

    def model_stale(self, v, k):
        return True

    def atom(self, name, n, consts=()):
        """Opaque byte string out of n anonymous values plus the given constants."""
        name = self._name(name)
        v = z3.Int(name)
        self.inputs[name] = v
        ids = [self.interner.id(c) for c in consts]
        self.assume_raw(z3.Or([z3.And(v >= 0, v < n)] + [v == i for i in ids]))
        return SymAtom(v)

    def fresh_real(self, n):
        return z3.Real(self._name('!' + n))

    def fresh_int(self, n):
        return z3.Int(self._name('!' + n))

    def fresh_bool(self, n):
        return z3.Bool(self._name('!' + n))

    def note_atom_len(self, e):
        k = e.get_id()
        if k in self.atom_lens:
            return
        self.atom_lens[k] = e
        lo = 0 if self.atom_len_zero else 1
        self.assume_raw(z3.And(_alen(e) >= lo, _alen(e) <= self.atom_len_max))

    # -- solver
    def _check(self, *extra):
        t = time.monotonic()
        if self.deadline is not None and t > self.deadline:
            raise Inconclusive('time budget exhausted')
        self.stats['queries'] += 1
        s = self.solver
        if extra:
            s.push()
            for x in extra:
                s.add(x)
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
        else:
            r = s.check()
            m = s.model() if r == z3.sat else None
        self.stats['solver_s'] += time.monotonic() - t
        if r == z3.unknown:
            raise Inconclusive('solver returned unknown: ' + s.reason_unknown())
        return r == z3.sat, m

    def assume_raw(self, e):
        if z3.is_true(e):
            return
        self.solver.add(e)
        self.n_assumed += 1
        if self.model is not None and not self.model.ev(e):
            self.model = None

    def ensure_model(self):
        if self.model is None:
            ok, m = self._check()
            if not ok:
                raise PathAbort('infeasible')
            self.model = m
        return self.model

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathAbort('assumption false')
        self.assume_raw(tobool(c))

    def branch(self, e):
        if e is True or e is False:
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        hit = self.decided.get(k)
        if hit is not None:
            return hit[1]
        self.stats['branches'] += 1
        i = self.pos
        if i < _len(self.prefix):
            d = self.prefix[i][0]
        else:
            m = self.ensure_model()
            d = m.ev(e)
            ok, m2 = self._check(z3.Not(e) if d else e)
            if ok:
                self.stack.append(self.trace + [(not d, None)])
        self._decide(d, None, e if d else z3.Not(e))
        self.decided[k] = (e, d)
        return d

    def _decide(self, d, v, c):
        self.pos += 1
        self.trace.append((d, v))
        self.solver.add(c)
        if self.model is not None and not self.model.ev(c):
            self.model = None
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Inconclusive('time budget exhausted')

    def concretize_expr(self, e, limit):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        hit = self.conc.get(e.get_id())
        if hit is not None:
            return hit[1]
        for _ in range(limit):
            i = self.pos
            self.stats['branches'] += 1
            if i < _len(self.prefix):
                d, v = self.prefix[i]
            else:
                v = self.ensure_model().ev(e)
                d = True
                ok, m2 = self._check(e != v)
                if ok:
                    self.stack.append(self.trace + [(False, v)])
            self._decide(d, v, (e == v) if d else (e != v))
            if d:
                self.conc[e.get_id()] = (e, v)
                return v
        raise Inconclusive('concretisation limit exceeded for %s' % e)

    # -- assertions
    def check(self, cond, label, detail=None):
        """Assert cond for every input on this path."""
        self.stats['checks'] += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if cond is True:
            self.stats['checks_trivial'] += 1
            return
        e = tobool(cond)
        ok, m = self._check(z3.Not(e))
        if ok:
            self.violations.append(Violation(label, self.model_inputs(m), detail() if detail else ''))
            if _len(self.violations) >= self.max_viol:
                raise StopExploration()
            # continue under the assumption that it holds
            ok, m = self._check(e)
            if not ok:
                raise PathAbort('violated unconditionally')
            self.model = None
        self.solver.add(e)

    def check_all(self, items):
        """Several assertions in one query; split only if the conjunction can fail."""
        items = list(items)
        todo = []
        for c, l in items:
            self.stats['checks'] += 1
            self.labels[l] = self.labels.get(l, 0) + 1
            if c is True:
                self.stats['checks_trivial'] += 1
            else:
                todo.append((c, l))
        if not todo:
            return
        e = z3.And([tobool(c) for c, _ in todo])
        ok, m = self._check(z3.Not(e))
        if not ok:
            self.solver.add(e)
            return
        for c, l in todo:
            self.stats['checks'] -= 1
            self.labels[l] -= 1
            self.check(c, l)

    def witness(self, label):
        self.witnesses[label] = self.witnesses.get(label, 0) + 1

    def observe(self, label, v):
        self.obs.append((label, v))

    def model_inputs(self, m):
        r = {}
        for n, v in self.inputs.items():
            x = m.ev(v)
            r[n] = [x.numerator, x.denominator] if v.sort == z3.R else x
        lens = {}
        for e in self.atom_lens.values():
            lens[str(m.ev(e))] = m.ev(_alen(e))
        r['__alen__'] = lens
        r['__interned__'] = {str(i): (['s', b] if _isinstance(b, str) else ['b', b.hex()])
                             for i, b in self.interner.by_id.items()}
        return r

    def eval_obs(self, m, v):
        if _isinstance(v, SymBool):
            return m.ev(v.e)
        if _isinstance(v, SymInt):
            return m.ev(v.e)
        if _isinstance(v, SymAtom):
            return ['atom', m.ev(v.e)]
        if _isinstance(v, (_bytes, bytearray)):
            return ['atom', self.interner.id(v)] if _bytes(v) in self.interner.by_bytes else ['hex', v.hex()]
        if _isinstance(v, (list, tuple)):
            return [self.eval_obs(m, x) for x in v]
        if _isinstance(v, dict):
            return {str(k): self.eval_obs(m, x) for k, x in v.items()}
        f = getattr(v, '__symobs__', None)
        if f is not None:
            return f(m)
        return v

    # -- exploration
    def explore(self, fn):
        set_cur(self)
        self.stack = [[]]
        while self.stack:
            if self.stats['paths'] >= self.max_paths:
                raise Inconclusive('path budget exhausted (%d paths)' % self.stats['paths'])
            self.prefix = self.stack.pop()
            self._run(fn)
        return self

    def _run(self, fn):
        self.stats['paths'] += 1
        self.solver.push()
        self.pos = 0
        self.trace = []
        self.decided = {}
        self.conc = {}
        self.inputs = {}
        self.names = {}
        self.obs = []
        self.model = None
        self.n_assumed = 0
        self.atom_lens = {}
        self.atom_len_zero = False
        self.atom_len_max = 6
        self.cleanups = []
        try:
            try:
                fn(self)
            finally:
                for c in reversed(self.cleanups):
                    c()
            # feasibility of the completed path
            try:
                m = self.ensure_model()
            except PathAbort:
                return
            self.stats['feasible_paths'] += 1
            n = self.stats['feasible_paths']
            if self.sample_every and (n - 1) % self.sample_every == 0 or n <= 2:
                if _len(self.samples) < 60:
                    self.samples.append(dict(
                        inputs=self.model_inputs(m),
                        obs=[(l, self.eval_obs(m, v)) for l, v in self.obs]))
        except PathAbort:
            return
        except StopExploration:
            self.stack = []
        finally:
            self.solver.pop()


class StopExploration(BaseException):
    pass


class ReplayEngine:
    """Runs a harness on concrete inputs against the real environment."""
    mode = 'replay'

    def __init__(self, inputs):
        self.vals = inputs
        self.names = {}
        self.failed = []
        self.passed = 0
        self.obs = []
        self.alen = {int(k): v for k, v in inputs.get('__alen__', {}).items()}
        self.interned = {int(k): (v[1] if v[0] == 's' else _bytes.fromhex(v[1]))
                         for k, v in inputs.get('__interned__', {}).items()}
        self.rev = {}
        self.cleanups = []
        self.atom_len_zero = False
        self.atom_len_max = 6
        self.missing = []

    def _name(self, n):
        k = self.names.get(n, 0)
        self.names[n] = k + 1
        return n if k == 0 else '%s#%d' % (n, k)

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        if name not in self.vals:
            self.missing.append(name)
            return lo if lo is not None else (hi if hi is not None else 0)
        return self.vals[name]

    def bool(self, name):
        name = self._name(name)
        if name not in self.vals:
            self.missing.append(name)
        return self.vals.get(name, False)

    flag = bool

    def real(self, name, lo=None, hi=None):
        name = self._name(name)
        if name not in self.vals:
            self.missing.append(name)
            return float(lo if lo is not None else (hi or 0))
        n, d = self.vals[name]
        return n / d

    def choice(self, name, n):
        if n == 1:
            return 0
        return self.int(name, 0, n - 1)

    nd = choice

    def check_all(self, items):
        for c, l in items:
            self.check(c, l)

    def atom(self, name, n, consts=()):
        name = self._name(name)
        if name not in self.vals:
            self.missing.append(name)
        return self.atom_bytes(self.vals.get(name, 0))

    def atom_bytes(self, i):
        if i in self.interned:
            b = self.interned[i]
        else:
            ln = self.alen.get(i, 3)
            b = _bytes([65 + i % 60]) * ln
        if not _isinstance(b, str):
            self.rev.setdefault(b, i)
        return b

    def assume(self, c):
        if not c:
            raise ReplayMismatch('assumption violated in replay')
    assume_raw = assume

    def check(self, cond, label, detail=None):
        if not cond:
            self.failed.append((label, detail() if detail else ''))
        else:
            self.passed += 1

    def witness(self, label):
        pass

    def observe(self, label, v):
        self.obs.append((label, self.enc(v)))

    def enc(self, v):
        if _isinstance(v, (_bytes, bytearray)):
            v = _bytes(v)
            for i, b in self.interned.items():
                if b == v:
                    return ['atom', i]
            if v in self.rev:
                return ['atom', self.rev[v]]
            return ['hex', v.hex()]
        if _isinstance(v, (list, tuple)):
            return [self.enc(x) for x in v]
        if _isinstance(v, dict):
            return {str(k): self.enc(x) for k, x in v.items()}
        if _isinstance(v, _bool) or v is None or _isinstance(v, (_int, str, float)):
            return v
        f = getattr(v, '__concobs__', None)
        if f is not None:
            return f()
        return repr(v)
