"""Hash-consed terms with local simplification; converted to z3 on demand.

The interface mirrors the subset of z3py used by core.py.  Integer terms are kept in linear normal form
(constant + sum of coefficient * atom), so equal expressions built along different paths are the same
object and their z3 translation is reused."""
from fractions import Fraction
import z3 as _z3

B, I, R = 'B', 'I', 'R'
_tab = {}
_cnt = [0]


class Term:
    __slots__ = ('op', 'args', 'sort', 'id', 'z', 'neg')

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return Eq(self, o)

    def __ne__(self, o):
        return Not(Eq(self, o))

    def __bool__(self):
        raise TypeError('truth value of a term')

    def get_id(self):
        return self.id

    def __add__(self, o):
        return add(self, _lift(o, self.sort))

    def __radd__(self, o):
        return add(_lift(o, self.sort), self)

    def __sub__(self, o):
        return add(self, scale(_lift(o, self.sort), -1))

    def __rsub__(self, o):
        return add(_lift(o, self.sort), scale(self, -1))

    def __neg__(self):
        return scale(self, -1)

    def __mul__(self, o):
        return mul(self, _lift(o, self.sort))

    def __rmul__(self, o):
        return mul(_lift(o, self.sort), self)

    def __truediv__(self, o):
        o = _lift(o, self.sort)
        if self.sort == R or o.sort == R:
            return rdiv(self, o)
        return idiv(self, o)

    def __mod__(self, o):
        return imod(self, _lift(o, self.sort))

    def __le__(self, o):
        return Le(self, _lift(o, self.sort))

    def __ge__(self, o):
        return Le(_lift(o, self.sort), self)

    def __lt__(self, o):
        return Lt(self, _lift(o, self.sort))

    def __gt__(self, o):
        return Lt(_lift(o, self.sort), self)

    def as_long(self):
        return self.args[0]

    def __repr__(self):
        return sexp(self)


BoolRef = ArithRef = Term


def sexp(t, d=6):
    if t.op in ('const', 'var'):
        return str(t.args[0])
    if d == 0:
        return '..'
    if t.op == 'lin':
        c, ps = t.args
        return '(+ %s %s)' % (c, ' '.join('%s*%s' % (k, sexp(a, d - 1)) for a, k in ps))
    return '(%s %s)' % (t.op, ' '.join(sexp(a, d - 1) if isinstance(a, Term) else str(a) for a in t.args))


def _key(args):
    return tuple((a.id, 't') if isinstance(a, Term) else a for a in args)


def mk(op, args, sort):
    k = (op, sort) + _key(args)
    t = _tab.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op, t.args, t.sort = op, args, sort
        _cnt[0] += 1
        t.id = _cnt[0]
        t.z = None
        t.neg = None
        _tab[k] = t
    return t


TRUE = mk('const', (True,), B)
FALSE = mk('const', ('false',), B)
FALSE.args = (False,)


def BoolVal(b):
    return TRUE if b else FALSE


def IntVal(n):
    return mk('const', (int(n),), I)


def RealVal(n):
    return mk('const', (Fraction(n),), R)


def Bool(n):
    return mk('var', (n,), B)


def Int(n):
    return mk('var', (n,), I)


def Real(n):
    return mk('var', (n,), R)


def _lift(x, sort):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return BoolVal(x)
    if sort == R:
        return RealVal(x)
    return IntVal(x)


def is_true(t):
    return t is TRUE


def is_false(t):
    return t is FALSE


def is_int_value(t):
    return t.op == 'const' and t.sort == I


def is_rational_value(t):
    return t.op == 'const' and t.sort == R


def is_bool(t):
    return t.sort == B


def is_int(t):
    return t.sort == I


def simplify(t):
    return t


# ---------------------------------------------------------------------------------------- boolean

def Not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'le':        # not (0 <= t)  <=>  t <= -1  <=> 0 <= -t - 1   (ints)
        t = a.args[0]
        if t.sort == I:
            return _le0(add(scale(t, -1), IntVal(-1)))
    if a.neg is None:
        n = mk('not', (a,), B)
        a.neg = n
        n.neg = a
    return a.neg


def _nary(op, xs, unit, zero):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    seen = {}
    for x in xs:
        if x is unit:
            continue
        if x is zero:
            return zero
        if x.op == op:
            for y in x.args:
                seen[y.id] = y
        else:
            seen[x.id] = x
    if not seen:
        return unit
    for x in seen.values():
        n = x.args[0] if x.op == 'not' else x.neg
        if n is not None and n.id in seen:
            return zero
    if len(seen) == 1:
        return next(iter(seen.values()))
    return mk(op, tuple(seen[i] for i in sorted(seen)), B)


def And(*xs):
    return _nary('and', xs, TRUE, FALSE)


def Or(*xs):
    return _nary('or', xs, FALSE, TRUE)


def Implies(a, b):
    return Or(Not(a), b)


# ---------------------------------------------------------------------------------------- arithmetic

def _parts(t):
    if t.op == 'const':
        return t.args[0], ()
    if t.op == 'lin':
        return t.args[0], t.args[1].args
    return 0, ((t, 1),)


def mklin(c, d, sort):
    """d: {id: (atom, coeff)}"""
    ps = [(a, k) for a, k in d.values() if k != 0]
    if not ps:
        return IntVal(c) if sort == I else RealVal(c)
    if c == 0 and len(ps) == 1 and ps[0][1] == 1:
        return ps[0][0]
    ps.sort(key=lambda x: x[0].id)
    k = ('lin', sort, c, tuple((a.id, x) for a, x in ps))
    t = _tab.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op, t.sort = 'lin', sort
        t.args = (c, LP(tuple(ps)))
        _cnt[0] += 1
        t.id = _cnt[0]
        t.z = None
        t.neg = None
        _tab[k] = t
    return t


class LP:
    __slots__ = ('args',)

    def __init__(self, a):
        self.args = a

    def __iter__(self):
        return iter(self.args)


def add(a, b):
    sort = R if R in (a.sort, b.sort) else I
    if sort == R:
        a, b = ToReal(a), ToReal(b)
    if a.op == 'const' and b.op == 'const':
        return _lift(a.args[0] + b.args[0], sort)
    if b.op == 'const' and b.args[0] == 0:
        return a
    if a.op == 'const' and a.args[0] == 0:
        return b
    ca, pa = _parts(a)
    cb, pb = _parts(b)
    d = {x.id: (x, k) for x, k in pa}
    for x, k in pb:
        if x.id in d:
            d[x.id] = (x, d[x.id][1] + k)
        else:
            d[x.id] = (x, k)
    return mklin(ca + cb, d, sort)


def Sum(xs):
    xs = list(xs)
    sort = R if any(x.sort == R for x in xs) else I
    c, d = 0, {}
    for t in xs:
        if sort == R:
            t = ToReal(t)
        ct, pt = _parts(t)
        c += ct
        for x, k in pt:
            if x.id in d:
                d[x.id] = (x, d[x.id][1] + k)
            else:
                d[x.id] = (x, k)
    return mklin(c, d, sort)


def scale(t, k):
    if k == 1:
        return t
    if t.op == 'const':
        return _lift(t.args[0] * k, t.sort)
    c, ps = _parts(t)
    return mklin(c * k, {a.id: (a, x * k) for a, x in ps}, t.sort)


def mul(a, b):
    sort = R if R in (a.sort, b.sort) else I
    if sort == R:
        a, b = ToReal(a), ToReal(b)
    if a.op == 'const':
        return scale(b, a.args[0])
    if b.op == 'const':
        return scale(a, b.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), sort)


def rdiv(a, b):
    a, b = ToReal(a), ToReal(b)
    if b.op == 'const' and b.args[0] != 0:
        return scale(a, 1 / Fraction(b.args[0]))
    return mk('rdiv', (a, b), R)


def idiv(a, b):
    if b.op == 'const' and b.args[0] != 0:
        k = b.args[0]
        if a.op == 'const':
            x = a.args[0]
            q = x // k if k > 0 else -(x // -k)
            return IntVal(q)
        if k == 1:
            return a
        if k > 0:
            # pull out multiples of k
            c, ps = _parts(a)
            if all(x % k == 0 for _, x in ps):
                return mklin(c // k, {y.id: (y, x // k) for y, x in ps}, I)
            q = c // k
            hi = [(y, x // k) for y, x in ps if x % k == 0]
            if q or hi:
                lo = mklin(c - q * k, {y.id: (y, x) for y, x in ps if x % k}, I)
                return add(mklin(q, {y.id: (y, x) for y, x in hi}, I), mk('div', (lo, b), I))
    return mk('div', (a, b), I)


def imod(a, b):
    if b.op == 'const' and b.args[0] != 0:
        k = abs(b.args[0])
        if a.op == 'const':
            return IntVal(a.args[0] % k)
        if k == 1:
            return IntVal(0)
        c, ps = _parts(a)
        if c % k != c or any(x % k == 0 for _, x in ps):
            return imod(mklin(c % k, {y.id: (y, x) for y, x in ps if x % k}, I), b)
    return mk('mod', (a, b), I)


def ToReal(a):
    if a.sort == R:
        return a
    if a.op == 'const':
        return RealVal(a.args[0])
    if a.op == 'lin':
        c, ps = a.args
        ps = [(mk('toreal', (y,), R), Fraction(x)) for y, x in ps]
        return mklin(Fraction(c), {y.id: (y, x) for y, x in ps}, R)
    return mk('toreal', (a,), R)


def ToInt(a):
    if a.sort == I:
        return a
    if a.op == 'const':
        return IntVal(a.args[0].__floor__())
    if a.op == 'toreal':
        return a.args[0]
    return mk('toint', (a,), I)


def If(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == B:
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        if b is FALSE:
            return And(c, a)
    if a.sort != b.sort:
        a, b = ToReal(a), ToReal(b)
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.sort == I and not (a.op == 'const' and b.op == 'const'):
        # common part out: ite(c, t+x, t+y)
        ca, pa = _parts(a)
        cb, pb = _parts(b)
        if pa and len(pa) == len(pb) and all(x is y and k == l for (x, k), (y, l) in zip(pa, pb)):
            d = {x.id: (x, k) for x, k in pa}
            return add(mklin(0, d, I), If(c, IntVal(ca), IntVal(cb)))
    return mk('ite', (c, a, b), a.sort)


# ---------------------------------------------------------------------------------------- relations

def _rel0(t, f):
    """Push a relation against 0 into a single ite with constant branches."""
    c, ps = _parts(t)
    if len(ps) == 1 and ps[0][0].op == 'ite':
        x, k = ps[0]
        _, a, b = x.args
        if a.op == 'const' or b.op == 'const':
            return If(x.args[0], f(add(scale(a, k), _lift(c, t.sort))),
                      f(add(scale(b, k), _lift(c, t.sort))))
    return None


def _norm_gcd(t):
    from math import gcd
    c, ps = _parts(t)
    g = 0
    for _, k in ps:
        g = gcd(g, int(k))
    return c, ps, g


def Eq(a, b):
    if not isinstance(b, Term):
        b = _lift(b, a.sort)
    if a is b:
        return TRUE
    if a.sort == B:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return Not(b)
        if b is FALSE:
            return Not(a)
        if a.id > b.id:
            a, b = b, a
        return mk('iff', (a, b), B)
    t = add(a, scale(b, -1))
    return _eq0(t)


def _eq0(t):
    if t.op == 'const':
        return BoolVal(t.args[0] == 0)
    r = _rel0(t, _eq0)
    if r is not None:
        return r
    if t.sort == I:
        c, ps, g = _norm_gcd(t)
        if g > 1:
            if c % g:
                return FALSE
            t = mklin(c // g, {a.id: (a, k // g) for a, k in ps}, I)
            return _eq0(t)
        if ps[0][1] < 0:
            t = scale(t, -1)
    return mk('eq', (t,), B)


def Le(a, b):
    return _le0(add(b, scale(a, -1)))


def _le0(t):
    """0 <= t"""
    if t.op == 'const':
        return BoolVal(0 <= t.args[0])
    r = _rel0(t, _le0)
    if r is not None:
        return r
    if t.sort == I:
        c, ps, g = _norm_gcd(t)
        if g > 1:
            return _le0(mklin(c // g, {a.id: (a, k // g) for a, k in ps}, I))
    return mk('le', (t,), B)


def Lt(a, b):
    t = add(b, scale(a, -1))
    if t.sort == I:
        return _le0(add(t, IntVal(-1)))
    return Not(_le0(scale(t, -1)))


class Function:
    def __init__(self, name, *sorts):
        self.name = name

    def __call__(self, *a):
        return mk('app', (self.name,) + a, I)


def IntSort():
    return I


# ---------------------------------------------------------------------------------------- to z3

_fn = {}


def fn(name, n):
    f = _fn.get(name)
    if f is None:
        f = _fn[name] = _z3.Function(name, *([_z3.IntSort()] * (n + 1)))
    return f


def _num(v, sort):
    if sort == I:
        return _z3.IntVal(v)
    v = Fraction(v)
    return _z3.RealVal('%d/%d' % (v.numerator, v.denominator))


def _conv(x):
    op, a = x.op, x.args
    if op == 'const':
        if x.sort == B:
            return _z3.BoolVal(a[0])
        return _num(a[0], x.sort)
    if op == 'var':
        return {B: _z3.Bool, I: _z3.Int, R: _z3.Real}[x.sort](a[0])
    if op == 'lin':
        c, ps = a
        ts = [y.z if k == 1 else -y.z if k == -1 else _num(k, x.sort) * y.z for y, k in ps]
        if c:
            ts.append(_num(c, x.sort))
        return _z3.Sum(ts) if len(ts) > 1 else ts[0]
    if op == 'not':
        return _z3.Not(a[0].z)
    if op == 'and':
        return _z3.And([y.z for y in a])
    if op == 'or':
        return _z3.Or([y.z for y in a])
    if op == 'iff':
        return a[0].z == a[1].z
    if op == 'ite':
        return _z3.If(a[0].z, a[1].z, a[2].z)
    if op == 'mul':
        return a[0].z * a[1].z
    if op in ('rdiv', 'div'):
        return a[0].z / a[1].z
    if op == 'mod':
        return a[0].z % a[1].z
    if op == 'toreal':
        return _z3.ToReal(a[0].z)
    if op == 'toint':
        return _z3.ToInt(a[0].z)
    if op == 'app':
        return fn(a[0], len(a) - 1)(*[y.z for y in a[1:]])
    if op == 'eq':
        return _split(a[0], lambda p, q: p == q)
    if op == 'le':
        return _split(a[0], lambda p, q: q <= p)
    raise AssertionError(op)


def _split(t, f):
    """Relation between positive and negative parts of t."""
    c, ps = _parts(t)
    s = t.sort
    pos = [y.z if k == 1 else _num(k, s) * y.z for y, k in ps if k > 0]
    neg = [y.z if k == -1 else _num(-k, s) * y.z for y, k in ps if k < 0]
    if c > 0:
        pos.append(_num(c, s))
    elif c < 0:
        neg.append(_num(-c, s))
    sm = lambda l: _num(0, s) if not l else l[0] if len(l) == 1 else _z3.Sum(l)     # noqa
    return f(sm(pos), sm(neg))


def z(t):
    if t.z is not None:
        return t.z
    stack = [t]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop()
            continue
        if x.op == 'lin':
            kids = [a for a, _ in x.args[1]]
        elif x.op in ('eq', 'le'):
            kids = [a for a, _ in _parts(x.args[0])[1]]
        else:
            kids = [a for a in x.args if isinstance(a, Term)]
        todo = [k for k in kids if k.z is None]
        if todo:
            stack.extend(todo)
            continue
        x.z = _conv(x)
        stack.pop()
    return t.z


sat, unsat, unknown = _z3.sat, _z3.unsat, _z3.unknown


class Model:
    """Evaluates terms to Python values."""

    def __init__(self, m):
        self.m = m
        self.memo = {}

    def ev(self, t):
        memo = self.memo
        v = memo.get(t.id)
        if v is not None:
            return v
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            op, a = x.op, x.args
            if op == 'const':
                memo[x.id] = a[0]
                stack.pop()
                continue
            if op == 'var':
                memo[x.id] = self._var(x)
                stack.pop()
                continue
            if op == 'lin':
                kids = [y for y, _ in a[1]]
            elif op == 'ite':
                c = memo.get(a[0].id)
                if c is None:
                    stack.append(a[0])
                    continue
                y = a[1] if c else a[2]
                if y.id in memo:
                    memo[x.id] = memo[y.id]
                    stack.pop()
                else:
                    stack.append(y)
                continue
            else:
                kids = [y for y in a if isinstance(y, Term)]
            todo = [k for k in kids if k.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x.id] = self._app(x, memo)
            stack.pop()
        return memo[t.id]

    def _var(self, x):
        v = self.m.eval(z(x), model_completion=True)
        if x.sort == B:
            return _z3.is_true(v)
        if x.sort == I:
            return v.as_long()
        if _z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        return v.approx(20).as_fraction()

    def _app(self, x, memo):
        op, a = x.op, x.args
        if op == 'lin':
            r = a[0]
            for y, k in a[1]:
                r += memo[y.id] * k
            return r
        if op == 'not':
            return not memo[a[0].id]
        if op == 'and':
            return all(memo[y.id] for y in a)
        if op == 'or':
            return any(memo[y.id] for y in a)
        if op == 'iff':
            return memo[a[0].id] == memo[a[1].id]
        if op == 'eq':
            return memo[a[0].id] == 0
        if op == 'le':
            return memo[a[0].id] >= 0
        if op == 'mul':
            return memo[a[0].id] * memo[a[1].id]
        if op in ('div', 'mod', 'rdiv'):
            p, q = memo[a[0].id], memo[a[1].id]
            if q == 0:
                v = self.m.eval(z(x), model_completion=True)
                return v.as_long() if x.sort == I else Fraction(v.numerator_as_long(), v.denominator_as_long())
            if op == 'rdiv':
                return Fraction(p) / q
            r = p % abs(q)
            return r if op == 'mod' else (p - r) // q
        if op == 'toreal':
            return Fraction(memo[a[0].id])
        if op == 'toint':
            return memo[a[0].id].__floor__()
        if op == 'app':
            v = self.m.eval(fn(a[0], len(a) - 1)(*[_z3.IntVal(memo[y.id]) for y in a[1:]]),
                            model_completion=True)
            return v.as_long()
        raise AssertionError(op)


class Solver:
    def __init__(self):
        self.s = _z3.Solver()

    def set(self, *a):
        self.s.set(*a)

    def add(self, t):
        self.s.add(z(t))

    def push(self):
        self.s.push()

    def pop(self):
        self.s.pop()

    def check(self):
        return self.s.check()

    def model(self):
        return Model(self.s.model())

    def reason_unknown(self):
        return self.s.reason_unknown()
