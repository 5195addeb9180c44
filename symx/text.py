"""Text of symbolic length.

A SymText is a real `str` whose contents are a unique token made of characters that neither repr() nor quote()
changes; the token stands for a sequence of runs (unit, count) with symbolic counts. Formatting, joining,
repr() and literal_eval() therefore work on it unmodified; len(), slicing, quote() and unquote() know about it.
A token survives a round trip exactly if the slices of the quoted text are put together again without gap."""
import re
import sys
import urllib.parse

from . import core

TOK = re.compile(r'~~[TQSC]\d{5}~~')
REG = {}
_quote, _unquote = urllib.parse.quote, urllib.parse.unquote


def reset():
    REG.clear()


def pieces(s):
    """plain text and tokens of s"""
    s = str.__str__(s)
    pos = 0
    for m in TOK.finditer(s):
        if m.start() > pos:
            yield s[pos:m.start()]
        yield REG[m.group()]
        pos = m.end()
    if pos < len(s):
        yield s[pos:]


def has_token(s):
    return isinstance(s, str) and '~~' in s and TOK.search(str.__str__(s)) is not None


class SymText(str):
    """runs: [(unit, count)]; or base, a, b: part [a, b) of the text `base`"""
    __hash__ = str.__hash__

    @staticmethod
    def make(kind, **kw):
        t = '~~%s%05d~~' % (kind, len(REG))
        x = SymText(t)
        x.__dict__.update(kw)
        REG[t] = x
        return x

    def __symlen__(self):
        if hasattr(self, 'base'):
            return self.b - self.a
        return sum_(core_len(u) * n for u, n in self.runs)

    def __len__(self):
        n = self.__symlen__()
        return int(n)

    def __bool__(self):
        n = self.__symlen__()
        return bool(n > 0)

    def __getitem__(self, i):
        if not isinstance(i, slice) or i.step not in (None, 1):
            raise core.Inconclusive('index of symbolic text')
        n = self.__symlen__()

        def clamp(x, default):
            if x is None:
                return default
            x = core.Ite(x < 0, x + n, x) if not (isinstance(x, int) and x >= 0) else x
            return core.Ite(x < n, x, n)
        a, b = clamp(i.start, 0), clamp(i.stop, n)
        if core.Not(a < b) if not isinstance(a < b, bool) else not (a < b):
            return ''
        base, off = (self.base, self.a) if hasattr(self, 'base') else (self, 0)
        return SymText.make('S', base=base, a=off + a, b=off + b)


def core_len(u):
    return len(u)


def sum_(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def text(runs):
    return SymText.make('T', runs=list(runs), orig=None)


def length(s):
    if not has_token(s):
        return len(s)
    return sum_(p.__symlen__() if isinstance(p, SymText) else len(p) for p in pieces(s))


def quote(s, safe='/', encoding=None, errors=None):
    if not has_token(s):
        return _quote(s, safe, encoding, errors)
    runs = []
    for p in pieces(s):
        if isinstance(p, SymText):
            if hasattr(p, 'base') or p.orig is not None:
                raise core.Inconclusive('quote of quoted text')
            runs += [(_quote(u, safe, encoding, errors), n) for u, n in p.runs]
        else:
            runs += [(_quote(c, safe, encoding, errors), 1) for c in p]
    return SymText.make('Q', runs=runs, orig=str.__str__(s), lossy='%' in safe)


class Damaged(str):
    pass


def unquote(s, encoding='utf-8', errors='replace'):
    if not has_token(s):
        return _unquote(s, encoding, errors)
    out = ''
    want = None         # (base, position) that must come next
    for p in pieces(s):
        if not isinstance(p, SymText):
            if want is not None:
                return damaged()
            out += _unquote(p)
            continue
        if p.__dict__.get('orig') is not None:
            if want is not None or p.lossy:
                return damaged()
            out += p.orig
        elif hasattr(p, 'base'):
            if p.base.lossy:
                return damaged()
            base, pos = want or (p.base, 0)
            if base is not p.base or not bool(core.Eq(p.a, pos)):
                return damaged()
            if bool(core.Eq(p.b, base.__symlen__())):
                out += base.orig
                want = None
            else:
                want = (base, p.b)
        else:
            out += str.__str__(p)
    return out if want is None else damaged()


def damaged():
    return '\0 damaged'


def edge_space(s):
    """May the text begin or end with white space (which HTTP does not preserve)?"""
    ps = list(pieces(s))
    if not ps:
        return False

    def at(p, last):
        if not isinstance(p, SymText):
            return (p[-1] if last else p[0]).isspace()
        base = p.base if hasattr(p, 'base') else p
        q = (p.b - 1 if last else p.a) if hasattr(p, 'base') else (base.__symlen__() - 1 if last else 0)
        pos, hits = 0, []
        for u, n in base.runs:
            end = pos + len(u) * n
            if u.isspace():
                hits.append(core.And(q >= pos, q < end))
            pos = end
        return core.Or(hits) if hits else False
    return core.Or(at(ps[0], False), at(ps[-1], True))


def install(E):
    """Let all modules under test use the token-aware quote() and unquote()."""
    from . import vfs
    reset()
    if E.mode != 'sym':
        return
    for name, m in list(sys.modules.items()):
        if name == 's3ql' or name.startswith('s3ql.'):
            for k, v in list(getattr(m, '__dict__', {}).items()):
                if v is _quote:
                    vfs.set_attr(E, m, k, quote)
                elif v is _unquote:
                    vfs.set_attr(E, m, k, unquote)
    vfs.set_attr(E, urllib.parse, 'quote', quote)
    vfs.set_attr(E, urllib.parse, 'unquote', unquote)


class SymChars(str):
    """Text of fixed length with symbolic characters (1..127); the contents of the real `str` are a unique token."""
    __hash__ = str.__hash__

    @staticmethod
    def make(chars):
        if all(isinstance(c, int) for c in chars):
            return ''.join(map(chr, chars))
        x = SymChars('~~C%05d~~' % len(REG))
        REG[str.__str__(x)] = x
        x.chars = list(chars)
        return x

    @staticmethod
    def of(o):
        return o.chars if isinstance(o, SymChars) else [ord(c) for c in o]

    def __symlen__(self):
        return len(self.chars)

    def encode(self, encoding='utf-8', errors='strict'):
        from checks._cachesim import mkbytes
        return mkbytes(core.cur(), self.chars)

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        a, b = self.chars, SymChars.of(o)
        return core.And([len(a) == len(b)] + [core.Eq(x, y) for x, y in zip(a, b)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.Not(r)

    def __lt__(self, o):
        a, b = self.chars, SymChars.of(o)
        r = len(a) < len(b)
        for x, y in reversed(list(zip(a, b))):
            r = core.Or(x < y, core.And(core.Eq(x, y), r))
        return r

    def __gt__(self, o):
        return core.Not(core.Or(self.__lt__(o), self.__eq__(o)))

    # -- operations; each decides (forks on) what it needs to know
    def __add__(self, o):
        return SymChars.make(self.chars + SymChars.of(o)) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return SymChars.make(SymChars.of(o) + self.chars) if isinstance(o, str) else NotImplemented

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymChars.make(self.chars[i])
        return SymChars.make([self.chars[i]])

    def __iter__(self):
        return iter([SymChars.make([c]) for c in self.chars])

    def __contains__(self, o):
        return bool(contains(self, o))

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return bool(self.chars)

    def __hash__(self):
        return str.__hash__(self)


def symbolic(x):
    return isinstance(x, SymChars) or (type(x) is str and has_token(x))


def norm(x):
    """Resolve tokens that C code copied into plain text."""
    if isinstance(x, SymChars) or not has_token(x):
        return x
    out = []
    for q in pieces(x):
        if isinstance(q, str) and not isinstance(q, SymChars) and has_token(q):
            raise core.Inconclusive('mixed symbolic text')
        out += SymChars.of(q)
    return SymChars.make(out)


def match(a, i, p):
    if i < 0 or i + len(p) > len(a):
        return False
    return core.And([core.Eq(a[i + k], c) for k, c in enumerate(p)])


def contains(h, n):
    a, p = SymChars.of(norm(h)), SymChars.of(norm(n))
    return core.Or([match(a, i, p) for i in range(len(a) - len(p) + 1)])


def _any(a, i, ps, at_end=False):
    if isinstance(ps, str):
        ps = (ps,)
    out = []
    for p in ps:
        p = SymChars.of(norm(p))
        out.append(match(a, len(a) - len(p) if at_end else i, p))
    return core.Or(out)


def _scan(a, sep, limit=-1):
    """positions (start, end) of non-overlapping occurrences from the left"""
    out = []
    i = 0
    while i + len(sep) <= len(a) and limit != 0:
        if match(a, i, sep):
            out.append(i)
            i += len(sep)
            limit -= 1
        else:
            i += 1
    return out


def _rscan(a, sep, limit=-1):
    out = []
    i = len(a) - len(sep)
    while i >= 0 and limit != 0:
        if match(a, i, sep):
            out.append(i)
            i -= len(sep)
            limit -= 1
        else:
            i -= 1
    return out[::-1]


def _cut(a, pos, n):
    out, last = [], 0
    for i in pos:
        out.append(SymChars.make(a[last:i]))
        last = i + n
    out.append(SymChars.make(a[last:]))
    return out


WS = ' \t\n\r\x0b\x0c'


class Ops:
    @staticmethod
    def startswith(a, p, *r):
        if r:
            return _any(a[r[0]:(r[1] if len(r) > 1 else None)], 0, p)
        return _any(a, 0, p)

    @staticmethod
    def endswith(a, p):
        return _any(a, 0, p, True)

    @staticmethod
    def replace(a, old, new, count=-1):
        old, new = SymChars.of(norm(old)), SymChars.of(norm(new))
        if not old:
            raise core.Inconclusive('replace empty text')
        out, last = [], 0
        for i in _scan(a, old, count):
            out += a[last:i] + new
            last = i + len(old)
        return SymChars.make(out + a[last:])

    @staticmethod
    def split(a, sep=None, maxsplit=-1):
        if sep is None:
            raise core.Inconclusive('split at white space')
        sep = SymChars.of(norm(sep))
        return _cut(a, _scan(a, sep, maxsplit), len(sep))

    @staticmethod
    def rsplit(a, sep=None, maxsplit=-1):
        if sep is None:
            raise core.Inconclusive('split at white space')
        sep = SymChars.of(norm(sep))
        return _cut(a, _rscan(a, sep, maxsplit), len(sep))

    @staticmethod
    def partition(a, sep):
        p = SymChars.of(norm(sep))
        i = _scan(a, p, 1)
        if not i:
            return SymChars.make(a), '', ''
        return SymChars.make(a[:i[0]]), sep, SymChars.make(a[i[0] + len(p):])

    @staticmethod
    def rpartition(a, sep):
        p = SymChars.of(norm(sep))
        i = _rscan(a, p, 1)
        if not i:
            return '', '', SymChars.make(a)
        return SymChars.make(a[:i[0]]), sep, SymChars.make(a[i[0] + len(p):])

    @staticmethod
    def find(a, p):
        i = _scan(a, SymChars.of(norm(p)), 1)
        return i[0] if i else -1

    @staticmethod
    def index(a, p):
        i = Ops.find(a, p)
        if i < 0:
            raise ValueError('substring not found')
        return i

    @staticmethod
    def rfind(a, p):
        i = _rscan(a, SymChars.of(norm(p)), 1)
        return i[0] if i else -1

    @staticmethod
    def count(a, p):
        return len(_scan(a, SymChars.of(norm(p))))

    @staticmethod
    def lstrip(a, cs=WS):
        i = 0
        while i < len(a) and core.Or([core.Eq(a[i], ord(c)) for c in cs or WS]):
            i += 1
        return SymChars.make(a[i:])

    @staticmethod
    def rstrip(a, cs=WS):
        i = len(a)
        while i > 0 and core.Or([core.Eq(a[i - 1], ord(c)) for c in cs or WS]):
            i -= 1
        return SymChars.make(a[:i])

    @staticmethod
    def strip(a, cs=WS):
        return Ops.rstrip(SymChars.of(Ops.lstrip(a, cs)), cs)

    @staticmethod
    def removeprefix(a, p):
        return SymChars.make(a[len(SymChars.of(norm(p))):]) if Ops.startswith(a, p) else SymChars.make(a)

    @staticmethod
    def removesuffix(a, p):
        n = len(SymChars.of(norm(p)))
        return SymChars.make(a[:len(a) - n]) if n and Ops.endswith(a, p) else SymChars.make(a)

    @staticmethod
    def join(a, items):
        out = []
        for k, x in enumerate(items):
            out += (a if k else []) + SymChars.of(norm(x))
        return SymChars.make(out)

    @staticmethod
    def encode(a, encoding='utf-8', errors='strict'):
        return SymChars.make(a).encode(encoding, errors)


def method(recv, name, *args, **kw):
    """Call recv.name(...) (calls are routed here by the loader for modules handling symbolic text)."""
    if type(recv) is str or isinstance(recv, SymChars):
        if name == 'join' and len(args) == 1:
            args = (list(args[0]),)
            sym = symbolic(recv) or any(symbolic(x) for x in args[0])
        else:
            sym = symbolic(recv) or any(symbolic(x) or isinstance(x, tuple) and any(map(symbolic, x)) for x in args)
        if sym:
            f = getattr(Ops, name, None)
            if f is None:
                raise core.Inconclusive('%s of symbolic text' % name)
            return f(SymChars.of(norm(recv)), *args, **kw)
    return getattr(recv, name)(*args, **kw)


def inside(n, h):
    if isinstance(h, str) and isinstance(n, str) and (symbolic(h) or symbolic(n)):
        return contains(h, n)
    if isinstance(h, (list, tuple)) and (symbolic(n) or any(symbolic(x) for x in h)):
        return core.Or([norm(n) == norm(x) for x in h if isinstance(x, str)])
    if isinstance(h, (dict, set, frozenset)) and type(n) is not str and symbolic(n):
        return core.Or([norm(n) == norm(x) for x in h if isinstance(x, str)])
    return n in h


def outside(n, h):
    return core.Not(inside(n, h))


def fmt(*parts):
    """f-string"""
    out = []
    for x in parts:
        out += SymChars.of(norm(x))
    return SymChars.make(out)


def fmtval(v, conv, spec):
    if isinstance(v, str) and symbolic(v) and conv in (-1, 115) and not spec:
        return v
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    return format(v, spec)


def mod(a, b):
    r = a % b
    return norm(r) if type(r) is str and has_token(r) else r


NAMES = dict(_sx_method=method, _sx_in=inside, _sx_notin=outside, _sx_fmt=fmt, _sx_val=fmtval, _sx_mod=mod)


def rewrite(tree):
    """Route operations on text through the functions above."""
    import ast

    class T(ast.NodeTransformer):
        def call(self, node, f, *args, **kw):
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), list(args), kw.get('keywords', [])), node)

        def visit_Call(self, node):
            self.generic_visit(node)
            f = node.func
            if isinstance(f, ast.Attribute) and f.attr in METHODS:
                return self.call(node, '_sx_method', f.value, ast.Constant(f.attr), *node.args, keywords=node.keywords)
            return node

        def visit_Compare(self, node):
            self.generic_visit(node)
            if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
                return self.call(node, '_sx_in' if isinstance(node.ops[0], ast.In) else '_sx_notin',
                                 node.left, node.comparators[0])
            return node

        def visit_BinOp(self, node):
            self.generic_visit(node)
            if isinstance(node.op, ast.Mod):
                return self.call(node, '_sx_mod', node.left, node.right)
            return node

        def visit_JoinedStr(self, node):
            out = []
            for v in node.values:
                if isinstance(v, ast.Constant):
                    out.append(v)
                else:
                    spec = self.visit(v.format_spec) if v.format_spec else ast.Constant('')
                    out.append(self.call(node, '_sx_val', self.visit(v.value), ast.Constant(v.conversion), spec))
            return self.call(node, '_sx_fmt', *out)

        def visit_AnnAssign(self, node):
            if node.value is not None:
                node.value = self.visit(node.value)
            return node

        def visit_FunctionDef(self, node):
            node.body = [self.visit(x) for x in node.body]
            return node
        visit_AsyncFunctionDef = visit_FunctionDef
    return ast.fix_missing_locations(T().visit(tree))


METHODS = {n for n in vars(Ops) if not n.startswith('_')} | {'upper', 'lower', 'isdigit', 'isalnum', 'splitlines', 'format'}
