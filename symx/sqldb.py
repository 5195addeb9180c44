"""Symbolic SQL engine: executes the SQL text issued by the real code over tables whose rows are
slots with a symbolic presence bit and symbolic column values.

It stands in for the apsw connection below s3ql.database.Connection.  Every statement is parsed from
the text the code passes at run time; the schema is taken from the CREATE TABLE statements the real
create_tables() executes.  Anything outside the supported subset raises Inconclusive.
"""
from __future__ import annotations
import builtins
import re
from . import core
from .core import And, Or, Not, Ite, Eq, Sum, SymBool, SymInt, SymAtom, Inconclusive

_len, _int, _isinstance = builtins.len, builtins.int, builtins.isinstance

NULL = (True, None)


def val(v):
    """Python value -> SQL value (isnull, value)."""
    if v is None:
        return NULL
    if v is True or v is False:
        return (False, _int(v))
    if _isinstance(v, SymBool):
        return (False, Ite(v, 1, 0))
    if _isinstance(v, NullOr):
        return (v.n, v.v)
    if _isinstance(v, (bytearray, memoryview)):
        return (False, bytes(v))
    if _isinstance(v, core._IntMeta):
        raise Inconclusive('type as SQL value')
    return (False, v)


class NullOr:
    """Value that is NULL if n."""

    def __init__(self, n, v):
        self.n, self.v = n, v


# ------------------------------------------------------------------------------------------ lexer

_tok_re = re.compile(r"""\s+|--[^\n]*|(?P<num>\d+(\.\d+)?)|(?P<str>'(?:[^']|'')*')|
    (?P<id>[A-Za-z_][A-Za-z_0-9]*|"[^"]*"|`[^`]*`)|(?P<op><>|<=|>=|!=|==|\|\||[-+*/%(),.=<>?;&|])""", re.X)


def lex(s):
    out = []
    i = 0
    while i < _len(s):
        m = _tok_re.match(s, i)
        if not m:
            raise Inconclusive('SQL lexer: %r' % s[i:i + 30])
        i = m.end()
        if m.group('num') is not None:
            t = m.group('num')
            out.append(('num', float(t) if '.' in t else _int(t)))
        elif m.group('str') is not None:
            out.append(('str', m.group('str')[1:-1].replace("''", "'")))
        elif m.group('id') is not None:
            t = m.group('id')
            if t[0] in '"`':
                out.append(('qid', t[1:-1]))
            else:
                out.append(('id', t))
        elif m.group('op') is not None:
            out.append(('op', m.group('op')))
    out.append(('eof', None))
    return out


RESERVED = {'select', 'from', 'where', 'group', 'order', 'limit', 'join', 'left', 'inner', 'cross',
            'on', 'using', 'as', 'and', 'or', 'not', 'is', 'null', 'in', 'having', 'except', 'union',
            'intersect', 'by', 'asc', 'desc', 'set', 'values', 'case', 'when', 'then', 'else', 'end',
            'exists', 'between', 'offset', 'natural', 'distinct', 'returning', 'like', 'outer'}


class Parser:
    def __init__(self, text):
        self.text = text
        self.t = lex(text)
        self.i = 0
        self.np = 0

    def peek(self, k=0):
        return self.t[self.i + k]

    def kw(self, *ws):
        """Consume the given keyword sequence if present."""
        for k, w in enumerate(ws):
            x = self.t[self.i + k]
            if x[0] != 'id' or x[1].lower() != w:
                return False
        self.i += _len(ws)
        return True

    def op(self, o):
        x = self.t[self.i]
        if x == ('op', o):
            self.i += 1
            return True
        return False

    def need(self, c, what=''):
        if not c:
            raise Inconclusive('SQL parser: expected %s at %r in %r' % (
                what, self.t[self.i:self.i + 4], self.text[:200]))

    def ident(self):
        x = self.t[self.i]
        self.need(x[0] in ('id', 'qid'), 'identifier')
        self.i += 1
        return x[1]

    # -- expressions
    def expr(self):
        l = self.and_()
        while self.kw('or'):
            l = ('or', l, self.and_())
        return l

    def and_(self):
        l = self.not_()
        while self.kw('and'):
            l = ('and', l, self.not_())
        return l

    def not_(self):
        if self.kw('not'):
            return ('not', self.not_())
        return self.cmp()

    def cmp(self):
        l = self.add()
        while True:
            if self.kw('is', 'not', 'null') or self.kw('notnull') or self.kw('not', 'null'):
                l = ('not', ('isnull', l))
            elif self.kw('is', 'null') or self.kw('isnull'):
                l = ('isnull', l)
            elif self.kw('is', 'not'):
                l = ('not', ('is', l, self.add()))
            elif self.kw('is'):
                l = ('is', l, self.add())
            elif self.kw('not', 'in'):
                l = ('not', self._in(l))
            elif self.kw('in'):
                l = self._in(l)
            elif self.kw('between'):
                a = self.add()
                self.need(self.kw('and'), 'and')
                b = self.add()
                l = ('and', ('cmp', '>=', l, a), ('cmp', '<=', l, b))
            elif self.peek()[0] == 'op' and self.peek()[1] in ('=', '==', '!=', '<>', '<', '<=', '>', '>='):
                o = self.peek()[1]
                self.i += 1
                o = {'==': '=', '<>': '!='}.get(o, o)
                l = ('cmp', o, l, self.add())
            else:
                return l

    def _in(self, l):
        self.need(self.op('('), '(')
        if self.peek()[0] == 'id' and self.peek()[1].lower() == 'select':
            s = self.select()
            self.need(self.op(')'), ')')
            return ('insel', l, s)
        xs = []
        if not self.op(')'):
            xs.append(self.expr())
            while self.op(','):
                xs.append(self.expr())
            self.need(self.op(')'), ')')
        return ('inlist', l, xs)

    def add(self):
        l = self.mul()
        while self.peek()[0] == 'op' and self.peek()[1] in ('+', '-'):
            o = self.peek()[1]
            self.i += 1
            l = ('arith', o, l, self.mul())
        return l

    def mul(self):
        l = self.unary()
        while self.peek()[0] == 'op' and self.peek()[1] in ('*', '/', '%'):
            o = self.peek()[1]
            self.i += 1
            l = ('arith', o, l, self.unary())
        return l

    def unary(self):
        if self.op('+'):
            return self.unary()
        if self.op('-'):
            return ('neg', self.unary())
        return self.prim()

    def prim(self):
        x = self.peek()
        if x[0] == 'num' or x[0] == 'str':
            self.i += 1
            return ('const', x[1])
        if x == ('op', '?'):
            self.i += 1
            if self.peek()[0] == 'num':
                n = self.peek()[1]
                self.i += 1
                return ('param', n - 1)
            self.np += 1
            return ('param', self.np - 1)
        if self.op('('):
            if self.peek()[0] == 'id' and self.peek()[1].lower() == 'select':
                s = self.select()
                self.need(self.op(')'), ')')
                return ('scalar', s)
            e = self.expr()
            self.need(self.op(')'), ')')
            return e
        if self.kw('null'):
            return ('const', None)
        if self.kw('exists'):
            self.need(self.op('('), '(')
            s = self.select()
            self.need(self.op(')'), ')')
            return ('exists', s)
        if self.kw('case'):
            base = None
            if not (self.peek()[0] == 'id' and self.peek()[1].lower() == 'when'):
                base = self.expr()
            arms = []
            while self.kw('when'):
                c = self.expr()
                self.need(self.kw('then'), 'then')
                arms.append((('cmp', '=', base, c) if base else c, self.expr()))
            els = self.expr() if self.kw('else') else ('const', None)
            self.need(self.kw('end'), 'end')
            return ('case', arms, els)
        if self.kw('cast'):
            self.need(self.op('('), '(')
            e = self.expr()
            self.need(self.kw('as'), 'as')
            self.ident()
            self.need(self.op(')'), ')')
            return e
        if x[0] in ('id', 'qid'):
            name = self.ident()
            if x[0] == 'id' and name.lower() in RESERVED:
                self.i -= 1
                self.need(False, 'expression')
            if self.op('('):
                f = name.lower()
                if self.op('*'):
                    self.need(self.op(')'), ')')
                    return ('func', f, ['*'], False)
                dist = self.kw('distinct')
                args = []
                if not self.op(')'):
                    args.append(self.expr())
                    while self.op(','):
                        args.append(self.expr())
                    self.need(self.op(')'), ')')
                return ('func', f, args, dist)
            if self.op('.'):
                return ('col', name.lower(), self.ident().lower())
            return ('col', None, name.lower())
        self.need(False, 'expression')

    # -- select
    def select(self):
        s = self.select_core()
        comp = []
        while True:
            if self.kw('except'):
                comp.append(('except', self.select_core()))
            elif self.kw('union', 'all'):
                comp.append(('unionall', self.select_core()))
            elif self.kw('union'):
                comp.append(('union', self.select_core()))
            elif self.kw('intersect'):
                comp.append(('intersect', self.select_core()))
            else:
                break
        order = []
        if self.kw('order', 'by'):
            while True:
                e = self.expr()
                d = self.kw('desc')
                if not d:
                    self.kw('asc')
                order.append((e, d))
                if not self.op(','):
                    break
        limit = off = None
        if self.kw('limit'):
            limit = self.expr()
            if self.kw('offset'):
                off = self.expr()
        return dict(s, compound=comp, order=order, limit=limit, offset=off)

    def select_core(self):
        self.need(self.kw('select'), 'select')
        distinct = self.kw('distinct')
        cols = []
        while True:
            if self.op('*'):
                cols.append(('*', None))
            elif (self.peek()[0] in ('id', 'qid') and self.peek(1) == ('op', '.')
                  and self.peek(2) == ('op', '*')):
                cols.append(('t.*', self.ident().lower()))
                self.i += 2
            else:
                e = self.expr()
                a = None
                if self.kw('as'):
                    a = self.ident().lower()
                elif self.peek()[0] == 'id' and self.peek()[1].lower() not in RESERVED:
                    a = self.ident().lower()
                cols.append((e, a))
            if not self.op(','):
                break
        frm = []
        if self.kw('from'):
            frm.append(('first', self.source(), None))
            while True:
                if self.op(','):
                    frm.append(('inner', self.source(), None))
                    continue
                kind = None
                if self.kw('left', 'outer', 'join') or self.kw('left', 'join'):
                    kind = 'left'
                elif self.kw('inner', 'join') or self.kw('cross', 'join') or self.kw('join'):
                    kind = 'inner'
                if kind is None:
                    break
                src = self.source()
                cond = None
                if self.kw('on'):
                    cond = ('on', self.expr())
                elif self.kw('using'):
                    self.need(self.op('('), '(')
                    cs = [self.ident().lower()]
                    while self.op(','):
                        cs.append(self.ident().lower())
                    self.need(self.op(')'), ')')
                    cond = ('using', cs)
                frm.append((kind, src, cond))
        where = self.expr() if self.kw('where') else None
        group = []
        having = None
        if self.kw('group', 'by'):
            group.append(self.expr())
            while self.op(','):
                group.append(self.expr())
            if self.kw('having'):
                having = self.expr()
        return dict(cols=cols, distinct=distinct, frm=frm, where=where, group=group, having=having)

    def source(self):
        if self.op('('):
            s = self.select()
            self.need(self.op(')'), ')')
            src = ('sub', s)
            a = '?sub%d' % self.i
        else:
            n = self.ident().lower()
            if self.op('.'):
                n = self.ident().lower()
            src = ('table', n)
            a = n
        if self.kw('as'):
            a = self.ident().lower()
        elif self.peek()[0] == 'id' and self.peek()[1].lower() not in RESERVED:
            a = self.ident().lower()
        return (src, a)

    # -- statements
    def statement(self):
        while self.op(';'):
            pass
        x = self.peek()
        if x[0] == 'eof':
            return ('nop',)
        w = x[1].lower() if x[0] == 'id' else ''
        if w == 'select':
            s = ('select', self.select())
        elif w in ('insert', 'replace'):
            s = self.insert()
        elif w == 'update':
            s = self.update()
        elif w == 'delete':
            self.i += 1
            self.need(self.kw('from'), 'from')
            t = self.ident().lower()
            s = ('delete', t, self.expr() if self.kw('where') else None)
        elif w == 'create':
            s = self.create()
        elif w == 'drop':
            self.i += 1
            k = self.ident().lower()
            ife = self.kw('if', 'exists')
            s = ('drop', k, self.ident().lower(), ife)
        elif w == 'pragma':
            self.i += 1
            n = self.ident().lower()
            if self.op('.'):
                n = self.ident().lower()
            arg = None
            if self.op('('):
                arg = self.peek()[1]
                self.i += 1
                self.need(self.op(')'), ')')
            elif self.op('='):
                self.op('-')
                arg = self.peek()[1]
                self.i += 1
            s = ('pragma', n, arg)
        elif w in ('begin', 'commit', 'end', 'rollback', 'vacuum', 'analyze', 'savepoint', 'release'):
            s = ('tx', w)
            while self.peek()[0] != 'eof' and self.peek() != ('op', ';'):
                self.i += 1
        else:
            self.need(False, 'statement')
        self.op(';')
        self.need(self.peek()[0] == 'eof', 'end of statement')
        return s

    def insert(self):
        conflict = None
        if self.kw('replace'):
            conflict = 'replace'
        else:
            self.need(self.kw('insert'), 'insert')
            if self.kw('or'):
                conflict = self.ident().lower()
        self.need(self.kw('into'), 'into')
        t = self.ident().lower()
        cols = None
        if self.op('('):
            cols = [self.ident().lower()]
            while self.op(','):
                cols.append(self.ident().lower())
            self.need(self.op(')'), ')')
        if self.kw('values'):
            rows = []
            while True:
                self.need(self.op('('), '(')
                r = [self.expr()]
                while self.op(','):
                    r.append(self.expr())
                self.need(self.op(')'), ')')
                rows.append(r)
                if not self.op(','):
                    break
            upsert = None
            if self.kw('on', 'conflict'):
                raise Inconclusive('upsert')
            return ('insert', t, cols, conflict, ('values', rows))
        return ('insert', t, cols, conflict, ('select', self.select()))

    def update(self):
        self.i += 1
        conflict = None
        if self.kw('or'):
            conflict = self.ident().lower()
        t = self.ident().lower()
        self.need(self.kw('set'), 'set')
        sets = []
        while True:
            c = self.ident().lower()
            self.need(self.op('='), '=')
            sets.append((c, self.expr()))
            if not self.op(','):
                break
        w = self.expr() if self.kw('where') else None
        return ('update', t, sets, w, conflict)

    def create(self):
        self.i += 1
        temp = self.kw('temp') or self.kw('temporary')
        if self.kw('unique', 'index') or self.kw('index'):
            ine = self.kw('if', 'not', 'exists')
            n = self.ident().lower()
            self.need(self.kw('on'), 'on')
            t = self.ident().lower()
            self.i = _len(self.t) - 1
            return ('createindex', n, t, ine)
        if self.kw('view'):
            self.kw('if', 'not', 'exists')
            n = self.ident().lower()
            self.need(self.kw('as'), 'as')
            return ('createview', n, self.select())
        self.need(self.kw('table'), 'table')
        ine = self.kw('if', 'not', 'exists')
        n = self.ident().lower()
        if self.kw('as'):
            return ('createas', n, self.select(), ine, temp)
        self.need(self.op('('), '(')
        t = Table(n)
        t.temp = temp
        while True:
            if self.kw('unique'):
                t.uniques.append(self._collist())
            elif self.kw('primary', 'key'):
                t.uniques.append(self._collist())
            elif self.kw('foreign', 'key'):
                raise Inconclusive('table level foreign key')
            else:
                self._coldef(t)
            if not self.op(','):
                break
        self.need(self.op(')'), ')')
        self.kw('strict')
        if t.pk is None:
            t.implicit = True
        return ('create', t, ine)

    def _collist(self):
        self.need(self.op('('), '(')
        cs = [self.ident().lower()]
        while self.op(','):
            cs.append(self.ident().lower())
        self.need(self.op(')'), ')')
        return tuple(cs)

    def _coldef(self, t):
        c = self.ident().lower()
        t.cols.append(c)
        typ = ''
        while self.peek()[0] == 'id' and self.peek()[1].lower() not in (
                'primary', 'not', 'unique', 'references', 'default', 'check', 'null', 'collate'):
            typ += self.ident().upper() + ' '
            if self.op('('):
                self.i += 1
                self.need(self.op(')'), ')')
        t.types[c] = typ.strip()
        while True:
            if self.kw('primary', 'key'):
                self.kw('asc')
                t.uniques.append((c,))
                if t.types[c] == 'INTEGER':
                    t.pk = c
                if self.kw('autoincrement'):
                    t.autoinc = True
            elif self.kw('not', 'null'):
                t.notnull.add(c)
            elif self.kw('null'):
                pass
            elif self.kw('unique'):
                t.uniques.append((c,))
            elif self.kw('default'):
                t.defaults[c] = self.prim() if not self.op('-') else ('neg', self.prim())
            elif self.kw('references'):
                rt = self.ident().lower()
                rc = self._collist()[0]
                t.refs.append((c, rt, rc))
            else:
                break


class Table:
    def __init__(self, name):
        self.name = name
        self.cols = []
        self.types = {}
        self.pk = None
        self.autoinc = False
        self.implicit = False
        self.uniques = []
        self.notnull = set()
        self.defaults = {}
        self.refs = []
        self.rows = []
        self.seq = 0
        self.temp = False

    def clone(self):
        t = Table(self.name)
        t.__dict__.update(self.__dict__)
        t.rows = list(self.rows)
        return t


class Row:
    __slots__ = ('g', 'v')

    def __init__(self, g, v):
        self.g, self.v = g, v


_cache = {}


def parse(sql):
    r = _cache.get(sql)
    if r is None:
        p = Parser(sql)
        r = _cache[sql] = p.statement()
    return r


# --------------------------------------------------------------------------------------- evaluation

AGG = {'count', 'sum', 'total'}


def has_agg(e):
    if not _isinstance(e, tuple):
        return False
    if e[0] == 'func':
        if e[1] in AGG or (e[1] in ('max', 'min') and _len(e[2]) == 1):
            return True
    if e[0] in ('scalar', 'exists', 'insel'):
        return False
    for x in e[1:]:
        if _isinstance(x, tuple) and has_agg(x):
            return True
        if _isinstance(x, list) and any(has_agg(y) for y in x if _isinstance(y, tuple)):
            return True
    return False


def sql_eq(a, b):
    """NULL-aware equality as (isnull, bool)."""
    n = Or(a[0], b[0])
    if n is True:
        return (True, False)
    return (n, Eq(a[1], b[1]))


def same(a, b):
    """Equality treating NULLs as equal."""
    if a[0] is True or b[0] is True:
        return And(a[0], b[0])
    if a[0] is False and b[0] is False:
        return Eq(a[1], b[1])
    return Or(And(a[0], b[0]), And(Not(a[0]), Not(b[0]), Eq(a[1], b[1])))


def merge(c, a, b):
    """Ite on SQL values."""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    n = Ite(c, a[0], b[0])
    if n is True:
        return NULL
    av, bv = a[1], b[1]
    if av is None:
        av = bv
    if bv is None:
        bv = av
    if _isinstance(av, str) and _isinstance(bv, str) and av == bv:
        return (n, av)
    if _isinstance(av, str) != _isinstance(bv, str):
        raise Inconclusive('merging text with other type')
    return (n, Ite(c, av, bv))


def truth(v):
    if v[0] is True:
        return False
    x = v[1]
    if x is True or x is False or _isinstance(x, SymBool):
        t = x
    else:
        t = (x != 0)
    return And(Not(v[0]), t)


class Env:
    __slots__ = ('tabs', 'outer', 'group')

    def __init__(self, tabs, outer=None, group=None):
        self.tabs = tabs          # list of (alias, {col: val})
        self.outer = outer
        self.group = group

    def look(self, t, c):
        if t is None:
            for a, d in self.tabs:
                if c in d:
                    return d[c]
        else:
            for a, d in self.tabs:
                if a == t:
                    if c in d:
                        return d[c]
        if t is None or t in [a for a, _ in self.tabs]:
            if c in ('rowid', '_rowid_', 'oid'):
                for a, d in self.tabs:
                    if (t is None or a == t) and '__rowid__' in d:
                        return d['__rowid__']
        if self.outer is not None:
            return self.outer.look(t, c)
        raise SqlError('no such column: %s.%s' % (t, c))


class SqlError(Exception):
    pass


class SymDB:
    """Stands in for apsw.Connection."""

    def __init__(self, constraint_error=None):
        self.tables = {}
        self.views = {}
        self.indices = {}
        self._changes = 0
        self._last = 0
        self.in_tx = None
        self.ConstraintError = constraint_error or SqlError
        self.log = []
        self.need_rowid = False
        self.hook = None        # called with (sql, bindings) before every statement
        self.dead = None        # exception raised by every statement after a simulated crash

    # -- apsw API
    def cursor(self):
        return Cursor(self)

    def changes(self):
        return self._changes

    def total_changes(self):
        raise Inconclusive('total_changes')

    def last_insert_rowid(self):
        return self._last

    def close(self, *a):
        if self.in_tx is not None:
            self.rollback()

    def getautocommit(self):
        return self.in_tx is None

    in_transaction = property(lambda self: self.in_tx is not None)

    def set_busy_timeout(self, *a):
        pass

    setbusytimeout = set_busy_timeout

    def execute(self, *a, **kw):
        return self.cursor().execute(*a, **kw)

    # -- harness API
    def add(self, table, g, **cols):
        t = self.tables[table]
        if g is False:
            return
        v = {}
        for c in t.cols:
            if c in cols:
                v[c] = val(cols[c])
            elif c in t.defaults:
                v[c] = self.ev(t.defaults[c], Env([]), ())
            elif t.pk == c:
                v[c] = (False, self._next_rowid(t))
            else:
                v[c] = NULL
        if t.implicit:
            v['__rowid__'] = (False, cols.get('__rowid__', _len(t.rows) + 1))
        t.rows.append(Row(g, v))
        if t.pk and _isinstance(v[t.pk][1], _int):
            t.seq = max(t.seq, v[t.pk][1])

    def rows(self, table):
        """[(guard, {col: value})]; NULLs appear as NullOr or None."""
        r = []
        for row in self.tables[table].rows:
            if row.g is False:
                continue
            r.append((row.g, {c: (x[1] if x[0] is False else None if x[0] is True
                                  else NullOr(x[0], x[1])) for c, x in row.v.items()}))
        return r

    def snapshot(self):
        return {n: t.clone() for n, t in self.tables.items()}, dict(self.indices), dict(self.views)

    def restore(self, s):
        self.tables = {n: t.clone() for n, t in s[0].items()}
        self.indices = dict(s[1])
        self.views = dict(s[2])

    def drop_temp(self):
        """The process ends: temporary tables disappear."""
        for n in [n for n, t in self.tables.items() if t.temp]:
            del self.tables[n]
            self.indices = {i: t for i, t in self.indices.items() if t != n}

    def rollback(self):
        if self.in_tx is not None:
            self.restore(self.in_tx)
            self.in_tx = None

    # -- evaluation
    def ev(self, e, env, P):
        k = e[0]
        if k == 'const':
            return val(e[1])
        if k == 'param':
            return val(P[e[1]])
        if k == 'col':
            return env.look(e[1], e[2])
        if k == 'and':
            a = self.ev(e[1], env, P)
            if a[0] is False and truth(a) is False:
                return (False, False)
            b = self.ev(e[2], env, P)
            if a[0] is False and b[0] is False:
                return (False, And(truth(a), truth(b)))
            ta, tb = truth(a), truth(b)
            fa, fb = And(Not(a[0]), Not(ta)), And(Not(b[0]), Not(tb))
            return (And(Or(a[0], b[0]), Not(fa), Not(fb)), And(ta, tb))
        if k == 'or':
            a = self.ev(e[1], env, P)
            b = self.ev(e[2], env, P)
            ta, tb = truth(a), truth(b)
            return (And(Or(a[0], b[0]), Not(ta), Not(tb)), Or(ta, tb))
        if k == 'not':
            a = self.ev(e[1], env, P)
            return (a[0], And(Not(a[0]), Not(truth(a))))
        if k == 'isnull':
            return (False, self.ev(e[1], env, P)[0])
        if k == 'is':
            return (False, same(self.ev(e[1], env, P), self.ev(e[2], env, P)))
        if k == 'cmp':
            a, b = self.ev(e[2], env, P), self.ev(e[3], env, P)
            o = e[1]
            n = Or(a[0], b[0])
            if n is True:
                return NULL
            x, y = a[1], b[1]
            if o == '=':
                return (n, Eq(x, y))
            if o == '!=':
                return (n, Not(Eq(x, y)))
            if _isinstance(x, (bool, SymBool)):
                x = Ite(x, 1, 0)
            if _isinstance(x, SymAtom) or _isinstance(y, SymAtom):
                raise Inconclusive('ordering of opaque strings')
            return (n, {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y,
                        '>=': lambda: x >= y}[o]())
        if k == 'arith':
            a, b = self.ev(e[2], env, P), self.ev(e[3], env, P)
            n = Or(a[0], b[0])
            if n is True:
                return NULL
            x, y = self._n(a[1]), self._n(b[1])
            if e[1] == '+':
                return (n, x + y)
            if e[1] == '-':
                return (n, x - y)
            if e[1] == '*':
                return (n, x * y)
            raise Inconclusive('SQL operator ' + e[1])
        if k == 'neg':
            a = self.ev(e[1], env, P)
            return NULL if a[0] is True else (a[0], -self._n(a[1]))
        if k == 'insel':
            a = self.ev(e[1], env, P)
            if a[0] is True:
                return NULL
            _, rows = self.sel(e[2], env, P)
            hit = Or([And(g, Not(r[0][0]), Eq(a[1], r[0][1]) if r[0][0] is not True else False)
                      for g, r in rows])
            anynull = Or([And(g, r[0][0]) for g, r in rows])
            return (Or(a[0], And(Not(hit), anynull)), hit)
        if k == 'inlist':
            a = self.ev(e[1], env, P)
            xs = [self.ev(x, env, P) for x in e[2]]
            if a[0] is True:
                return NULL
            hit = Or([And(Not(x[0]), Eq(a[1], x[1])) for x in xs if x[0] is not True])
            return (Or(a[0], And(Not(hit), Or([x[0] for x in xs]))), hit)
        if k == 'exists':
            _, rows = self.sel(e[1], env, P)
            return (False, Or([g for g, _ in rows]))
        if k == 'scalar':
            _, rows = self.sel(e[1], env, P)
            r = NULL
            for g, vs in reversed(rows):
                r = merge(g, vs[0], r)
            return r
        if k == 'case':
            r = self.ev(e[2], env, P)
            for c, x in reversed(e[1]):
                r = merge(truth(self.ev(c, env, P)), self.ev(x, env, P), r)
            return r
        if k == 'func':
            return self.func(e, env, P)
        raise Inconclusive('SQL expression ' + k)

    @staticmethod
    def _n(x):
        if x is True or x is False:
            return _int(x)
        if _isinstance(x, SymBool):
            return Ite(x, 1, 0)
        return x

    def func(self, e, env, P):
        f, args = e[1], e[2]
        if f in AGG or (f in ('max', 'min') and _len(args) == 1):
            if env.group is None:
                raise SqlError('misuse of aggregate')
            if e[3]:
                raise Inconclusive('DISTINCT aggregate')
            G = env.group
            if f == 'count':
                if args == ['*']:
                    return (False, core.Count([g for g, _ in G]))
                return (False, core.Count([And(g, Not(self.ev(args[0], x, P)[0])) for g, x in G]))
            vs = [(g, self.ev(args[0], x, P)) for g, x in G]
            vs = [(And(g, Not(v[0])), v[1]) for g, v in vs if v[0] is not True]
            vs = [(g, v) for g, v in vs if g is not False]
            none = Not(Or([g for g, _ in vs]))
            if f in ('sum', 'total'):
                s = Sum([Ite(g, self._n(v), 0) for g, v in vs])
                return (none if f == 'sum' else False, s)
            if not vs:
                return NULL
            best, has = None, False
            for g, v in vs:
                if best is None:
                    best, has = v, g
                else:
                    take = And(g, Or(Not(has), (v > best) if f == 'max' else (v < best)))
                    best = Ite(take, v, best)
                    has = Or(has, g)
            return (none, best)
        vs = [self.ev(a, env, P) for a in args]
        if f == 'length':
            if vs[0][0] is True:
                return NULL
            return (vs[0][0], core.symlen(vs[0][1]))
        if f in ('coalesce', 'ifnull'):
            r = vs[-1]
            for v in reversed(vs[:-1]):
                r = merge(Not(v[0]), v, r) if v[0] is not True else r
            return r
        if f in ('max', 'min'):
            r = vs[0]
            n = Or([v[0] for v in vs])
            if n is True:
                return NULL
            b = vs[0][1]
            for v in vs[1:]:
                b = Ite((v[1] > b) if f == 'max' else (v[1] < b), v[1], b)
            return (n, b)
        if f == 'abs':
            return (vs[0][0], abs(vs[0][1]))
        raise Inconclusive('SQL function ' + f)

    def source(self, src, P, outer):
        """-> (cols, [(g, {col: val})])"""
        if src[0] == 'sub':
            names, rows = self.sel(src[1], outer, P)
            return names, [(g, dict(zip(names, vs))) for g, vs in rows]
        n = src[1]
        if n in ('sqlite_master', 'sqlite_schema'):
            rows = [(True, {'type': (False, 'table'), 'name': (False, t.name)})
                    for t in self.tables.values()]
            if any(t.autoinc for t in self.tables.values()):
                rows.append((True, {'type': (False, 'table'), 'name': (False, 'sqlite_sequence')}))
            rows += [(True, {'type': (False, 'view'), 'name': (False, v)}) for v in self.views]
            return ['type', 'name'], rows
        if n in self.tables:
            t = self.tables[n]
            return t.cols, [(r.g, self._rv(t, r)) for r in t.rows if r.g is not False]
        if n in self.views:
            names, rows = self.sel(self.views[n], None, ())
            return names, [(g, dict(zip(reversed(names), reversed(vs)))) for g, vs in rows]
        raise SqlError('no such table: ' + n)

    def joined(self, s, outer, P):
        """-> (list of (alias, cols, hidden)), rows [(g, Env)]"""
        rows = [(True, Env([], outer))]
        shape = []
        conj = []
        if s['where'] is not None:
            st = [s['where']]
            while st:
                w = st.pop()
                if w[0] == 'and':
                    st += [w[2], w[1]]
                else:
                    conj.append(w)
        for kind, (src, alias), cond in s['frm']:
            cols, rrows = self.source(src, P, outer)
            hidden = cond[1] if cond and cond[0] == 'using' else ()
            out = []
            for g, env in rows:
                matches = []
                for rg, rv in rrows:
                    e2 = Env(env.tabs + [(alias, rv)], outer)
                    if cond is None:
                        c = True
                    elif cond[0] == 'on':
                        c = truth(self.ev(cond[1], e2, P))
                    else:
                        c = And([truth(sql_eq(env.look(None, u), rv[u])) for u in cond[1]])
                    c = And(rg, c)
                    if c is False:
                        continue
                    matches.append(c)
                    gg = And(g, c)
                    if gg is not False:
                        out.append((gg, e2))
                if kind == 'left':
                    nm = And(g, Not(Or(matches)))
                    if nm is not False:
                        out.append((nm, Env(env.tabs + [(alias, {c: NULL for c in list(cols) + ['__rowid__']})], outer)))
            rows = out
            shape.append((alias, cols, hidden))
        if s['where'] is not None:
            out = []
            for g, env in rows:
                for w in conj:
                    g = And(g, truth(self.ev(w, env, P)))
                    if g is False:
                        break
                if g is not False:
                    out.append((g, env))
            rows = out
        return shape, rows

    def sel(self, s, outer, P):
        names, rows = self.sel_core(s, outer, P)
        for op, s2 in s.get('compound', ()):
            _, r2 = self.sel_core(dict(s2, order=[], limit=None), outer, P)
            r1 = [(g, vs) for g, vs, _ in rows]
            b = [(g, vs) for g, vs, _ in r2]
            if op == 'unionall':
                res = r1 + b
            elif op == 'except':
                res = self._dedupe([(And(g, Not(self._member(vs, b))), vs) for g, vs in r1])
            elif op == 'intersect':
                res = self._dedupe([(And(g, self._member(vs, b)), vs) for g, vs in r1])
            else:
                res = self._dedupe(r1 + b)
            rows = [(g, vs, None) for g, vs in res if g is not False]
            if not s['order']:
                rows = [(g, vs, [(vs[0], False)]) for g, vs, _ in rows] if op != 'unionall' else rows
        if s['order'] and s.get('compound'):
            raise Inconclusive('ORDER BY on compound select')
        keyed = bool(rows) and rows[0][2] is not None
        if keyed:
            rows = self._sort(rows)
        if s['limit'] is not None:
            lim = self.ev(s['limit'], Env([], outer), P)[1]
            lim = core.concretize(lim) if _isinstance(lim, SymInt) else lim
            off = 0
            if s.get('offset') is not None:
                off = core.concretize(self.ev(s['offset'], Env([], outer), P)[1])
            if lim < 0:
                lim = 10 ** 9
            if _len(rows) > lim or off:
                out = []
                prev = []
                for r in rows:
                    before = core.Count(prev)
                    g = And(r[0], before < lim + off, before >= off)
                    prev.append(r[0])
                    if g is not False:
                        out.append((g, r[1]))
                return names, out
        return names, [(r[0], r[1]) for r in rows]

    @staticmethod
    def _member(vs, rows):
        return Or([And(g, And([same(a, b) for a, b in zip(vs, r)])) for g, r in rows])

    def _dedupe(self, rows):
        out = []
        for g, vs in rows:
            g = And(g, Not(self._member(vs, out)))
            if g is not False:
                out.append((g, vs))
        return out

    def _sort(self, rows):
        """Stable sort by keys; symbolic keys are sorted with a merge network over guards."""
        def conc(r):
            return all(k[0] is True or (k[0] is False and not _isinstance(k[1], (SymInt, SymAtom, SymBool)))
                       for k, _ in r[2])
        if all(conc(r) for r in rows):
            import functools

            def cmp(a, b):
                for (x, d), (y, _) in zip(a[2], b[2]):
                    kx = (0, 0) if x[0] else (1, x[1])
                    ky = (0, 0) if y[0] else (1, y[1])
                    if kx != ky:
                        r = -1 if kx < ky else 1
                        return -r if d else r
                return 0
            return sorted(rows, key=functools.cmp_to_key(cmp))
        # Symbolic: fork on the relative order (insertion sort); absent rows are dropped by forking
        present = [r for r in rows if core.CUR.branch(core.tobool(r[0]))]
        out = []
        for r in present:
            i = _len(out)
            while i > 0 and self._less(r, out[i - 1]):
                i -= 1
            out.insert(i, r)
        return [(True, r[1], r[2]) for r in out]

    def _less(self, a, b):
        for (x, d), (y, _) in zip(a[2], b[2]):
            if x[0] is not False or y[0] is not False:
                raise Inconclusive('ordering by nullable symbolic value')
            if _isinstance(x[1], SymAtom) or _isinstance(y[1], SymAtom):
                # opaque strings: order by identity (arbitrary but fixed total order)
                lt = core.mkbool(core.atom_expr(x[1]) < core.atom_expr(y[1]))
                eq = Eq(x[1], y[1])
            else:
                lt, eq = x[1] < y[1], Eq(x[1], y[1])
            if core.CUR.branch(core.tobool(eq)):
                continue
            r = core.CUR.branch(core.tobool(lt))
            return (not r) if d else r
        return False

    def sel_core(self, s, outer, P):
        shape, rows = self.joined(s, outer, P)
        aggregated = bool(s['group']) or any(
            c[0] not in ('*', 't.*') and has_agg(c[0]) for c in s['cols'])
        if aggregated:
            if s['group']:
                keyed = [(g, env, [self.ev(k, env, P) for k in s['group']]) for g, env in rows]
                groups = []
                for i, (g, env, ks) in enumerate(keyed):
                    first = And(g, And([Not(And(g2, And([same(a, b) for a, b in zip(ks, ks2)])))
                                        for g2, _, ks2 in keyed[:i]]))
                    if first is False:
                        continue
                    mem = [(And(g2, And([same(a, b) for a, b in zip(ks, ks2)])), e2)
                           for g2, e2, ks2 in keyed]
                    mem = [m for m in mem if m[0] is not False]
                    groups.append((first, Env(env.tabs, outer, mem)))
                rows = groups
                if s['having'] is not None:
                    rows = [(And(g, truth(self.ev(s['having'], e, P))), e) for g, e in rows]
            else:
                tabs = rows[0][1].tabs if rows else [
                    (a, {c: NULL for c in cols}) for a, cols, _ in shape]
                rows = [(True, Env(tabs, outer, rows))]
        names = []
        getters = []
        for c, alias in s['cols']:
            if c == '*' or c == 't.*':
                for a, cols, hidden in shape:
                    if c == 't.*' and a != alias:
                        continue
                    for col in cols:
                        if col in hidden and c == '*':
                            continue
                        names.append(col)
                        getters.append(('col', a, col))
            else:
                names.append(alias or (c[2] if c[0] == 'col' else 'expr%d' % _len(names)))
                getters.append(c)
        out = []
        for g, env in rows:
            if g is False:
                continue
            vs = [self.ev(c, env, P) for c in getters]
            keys = None
            if s.get('order'):
                keys = []
                for o, d in s['order']:
                    if o[0] == 'const' and _isinstance(o[1], _int):
                        keys.append((vs[o[1] - 1], d))
                        continue
                    if o[0] == 'col' and o[1] is None:
                        al = [i for i, (c, a) in enumerate(s['cols']) if a == o[2]]
                        if al:
                            keys.append((vs[al[0]], d))
                            continue
                    keys.append((self.ev(o, env, P), d))
            out.append((g, vs, keys))
        if s['distinct']:
            out = [(g, vs, [(v, False) for v in vs[:1]] if not s.get('order') else None)
                   for g, vs in self._dedupe([(g, vs) for g, vs, _ in out])]
        return names, out

    # -- statements
    def run(self, sql, P):
        if _isinstance(P, dict):
            raise Inconclusive('named SQL parameters')
        st = parse(sql)
        self.need_rowid = 'rowid' in sql
        k = st[0]
        if self.dead:
            raise self.dead
        if self.hook is not None:
            self.hook(sql, P)
        if k == 'select':
            names, rows = self.sel(st[1], None, P)
            return rows
        if k == 'insert':
            return self.do_insert(st, P)
        if k == 'update':
            return self.do_update(st, P)
        if k == 'delete':
            t = self._t(st[1])
            n = []
            new = []
            for r in t.rows:
                c = r.g
                if c is not False and st[2] is not None:
                    c = And(c, truth(self.ev(st[2], Env([(t.name, self._rv(t, r))]), P)))
                n.append(c)
                g = And(r.g, Not(c)) if c is not r.g else False
                if g is not False:
                    new.append(Row(g, r.v) if g is not r.g else r)
            t.rows = new
            self._changes = core.Count(n)
            return []
        if k == 'create':
            t = st[1]
            if t.name in self.tables:
                if st[2]:
                    return []
                raise SqlError('table %s already exists' % t.name)
            self.tables[t.name] = t.clone()
            return []
        if k == 'createas':
            if st[1] in self.tables:
                raise SqlError('table %s already exists' % st[1])
            names, rows = self.sel(st[2], None, P)
            t = Table(st[1])
            t.temp = st[4]
            for n in names:
                while n in t.cols:
                    n += ':1'
                t.cols.append(n)
            t.implicit = True
            for i, (g, vs) in enumerate(rows):
                t.rows.append(Row(g, dict(zip(t.cols, vs), __rowid__=(False, i + 1))))
            self.tables[st[1]] = t
            return []
        if k == 'createview':
            self.views[st[1]] = st[2]
            return []
        if k == 'createindex':
            if st[1] in self.indices:
                if not st[3]:
                    raise SqlError('index %s already exists' % st[1])
            self._t(st[2])
            self.indices[st[1]] = st[2]
            return []
        if k == 'drop':
            d = {'table': self.tables, 'view': self.views}.get(st[1])
            if st[1] == 'index':
                if st[2] not in self.indices and not st[3]:
                    raise SqlError('no such index: ' + st[2])
                self.indices.pop(st[2], None)
            elif st[2] in d:
                del d[st[2]]
                self.indices = {i: t for i, t in self.indices.items() if t != st[2]}
            elif not st[3]:
                raise SqlError('no such table: ' + st[2])
            return []
        if k == 'tx':
            if st[1] == 'begin':
                if self.in_tx is not None:
                    raise SqlError('cannot start a transaction within a transaction')
                self.in_tx = self.snapshot()
            elif st[1] in ('commit', 'end'):
                if self.in_tx is None:
                    raise SqlError('cannot commit - no transaction is active')
                self.in_tx = None
            elif st[1] == 'rollback':
                if self.in_tx is None:
                    raise SqlError('cannot rollback - no transaction is active')
                self.rollback()
            elif st[1] in ('savepoint', 'release'):
                raise Inconclusive('savepoint')
            return []
        if k == 'pragma':
            if st[1] == 'journal_mode':
                return [(True, [(False, 'wal')])]
            if st[1] == 'wal_checkpoint':
                return [(True, [(False, 0), (False, 0), (False, 0)])]
            if st[1] == 'foreign_key_list':
                t = self.tables.get(str(st[2]).lower())
                if t is None:
                    return []
                out = []
                for i, (c, rt, rc) in enumerate(reversed(t.refs)):
                    out.append((True, [(False, x) for x in (
                        i, 0, rt, c, rc, 'NO ACTION', 'NO ACTION', 'NONE')]))
                return out
            if st[1] in ('integrity_check', 'quick_check'):
                return [(True, [(False, 'ok')])]
            return []
        if k == 'nop':
            return []
        raise Inconclusive('SQL statement ' + k)

    def _rv(self, t, r):
        """Column values; rowid is another name of an integer primary key."""
        if self.need_rowid and t.pk is not None and '__rowid__' not in r.v:
            return dict(r.v, __rowid__=r.v[t.pk])
        return r.v

    def _t(self, n):
        if n not in self.tables:
            raise SqlError('no such table: ' + n)
        return self.tables[n]

    def _next_rowid(self, t):
        c = t.pk or '__rowid__'
        m = t.seq if t.autoinc else 0
        for r in t.rows:
            if r.g is False:
                continue
            v = r.v[c][1]
            if r.g is True and _isinstance(v, _int) and _isinstance(m, _int):
                m = max(m, v)
            elif _isinstance(v, _int) and _isinstance(m, _int) and v <= m:
                pass
            else:
                m = Ite(And(r.g, v > m), v, m)
        return m + 1

    def do_insert(self, st, P):
        _, tn, cols, conflict, src = st
        t = self._t(tn)
        cols = cols or t.cols
        if src[0] == 'values':
            rows = [(True, [self.ev(x, Env([]), P) for x in r]) for r in src[1]]
        else:
            _, rows = self.sel(src[1], None, P)
        if conflict not in (None, 'replace', 'ignore', 'abort', 'rollback', 'fail'):
            raise Inconclusive('conflict clause ' + str(conflict))
        cnt = []
        for g, vs in rows:
            if _len(vs) != _len(cols):
                raise SqlError('%d values for %d columns' % (_len(vs), _len(cols)))
            v = dict(zip(cols, vs))
            for c in v:
                if c not in t.cols:
                    raise SqlError('table %s has no column named %s' % (tn, c))
            for c in t.cols:
                if c in v:
                    if c == t.pk and v[c][0] is True:
                        v[c] = (False, self._next_rowid(t))
                    elif c == t.pk and v[c][0] is not False:
                        raise Inconclusive('nullable rowid')
                    continue
                if c == t.pk:
                    v[c] = (False, self._next_rowid(t))
                elif c in t.defaults:
                    v[c] = self.ev(t.defaults[c], Env([]), ())
                else:
                    v[c] = NULL
            if t.implicit:
                v['__rowid__'] = (False, self._next_rowid(t))
            for c in t.notnull:
                n = And(g, v[c][0])
                if n is not False and core.CUR.branch(core.tobool(n)):
                    raise self.ConstraintError('NOT NULL constraint failed: %s.%s' % (tn, c))
            confl = []
            for r in t.rows:
                x = Or([And([truth(sql_eq(r.v[c], v[c])) for c in u]) for u in t.uniques])
                confl.append(And(r.g, x))
            any_ = And(g, Or(confl))
            if any_ is not False:
                if conflict == 'replace':
                    for i, r in enumerate(t.rows):
                        if confl[i] is not False:
                            t.rows[i] = Row(And(r.g, Not(And(g, confl[i]))), r.v)
                elif conflict == 'ignore':
                    g = And(g, Not(any_))
                elif core.CUR.branch(core.tobool(any_)):
                    raise self.ConstraintError('UNIQUE constraint failed: ' + tn)
            t.rows = [r for r in t.rows if r.g is not False]
            if g is False:
                continue
            t.rows.append(Row(g, v))
            cnt.append(g)
            rid = v[t.pk or '__rowid__'][1] if (t.pk or t.implicit) else 0
            if t.autoinc:
                if g is True and _isinstance(rid, _int) and _isinstance(t.seq, _int):
                    t.seq = max(t.seq, rid)
                else:
                    t.seq = Ite(And(g, rid > t.seq), rid, t.seq)
            self._last = rid if g is True else Ite(g, rid, self._last)
        self._changes = core.Count(cnt)
        return []

    def do_update(self, st, P):
        _, tn, sets, where, conflict = st
        t = self._t(tn)
        for c, _ in sets:
            if c not in t.cols:
                raise SqlError('no such column: ' + c)
        n = []
        new = []
        changed = []
        for r in t.rows:
            env = Env([(t.name, self._rv(t, r))])
            c = r.g
            if where is not None and c is not False:
                c = And(c, truth(self.ev(where, env, P)))
            n.append(c)
            if c is False:
                new.append(r)
                continue
            v = dict(r.v)
            for col, ex in sets:
                x = self.ev(ex, env, P)
                if col in t.notnull:
                    nn = And(c, x[0])
                    if nn is not False and core.CUR.branch(core.tobool(nn)):
                        raise self.ConstraintError('NOT NULL constraint failed: %s.%s' % (tn, col))
                v[col] = x if c is r.g else merge(c, x, r.v[col])
            new.append(Row(r.g, v))
            changed.append(_len(new) - 1)
        # uniqueness
        setcols = {c for c, _ in sets}
        for u in t.uniques:
            if not (set(u) & setcols):
                continue
            for i in changed:
                for j in range(_len(new)):
                    if j == i or (j in changed and j < i):
                        continue
                    a, b = new[i], new[j]
                    x = And(a.g, b.g, n[i], And([truth(sql_eq(a.v[c], b.v[c])) for c in u]))
                    if x is False:
                        continue
                    if core.CUR.branch(core.tobool(x)):
                        if conflict == 'replace':
                            new[j] = Row(False, b.v)
                            continue
                        if conflict is not None:
                            raise Inconclusive('UPDATE OR ' + conflict)
                        raise self.ConstraintError('UNIQUE constraint failed: ' + tn)
        t.rows = [r for r in new if r.g is not False]
        self._changes = core.Count(n)
        return []


def symbolic_val(v):
    return v[0] not in (True, False) or _isinstance(v[1], (SymInt, SymAtom, SymBool))


class Cursor:
    def __init__(self, db):
        self.db = db
        self.rows = []
        self.i = 0
        self.connection = db

    def execute(self, sql, bindings=(), **kw):
        if bindings is None:
            bindings = ()
        self.rows = self.db.run(sql, bindings)
        self.i = 0
        self.same = None
        if _len(self.rows) > 1:
            r0 = self.rows[0][1]
            if all(not symbolic_val(a) for a in r0) and all(
                    all(a[0] == b[0] and type(a[1]) is type(b[1]) and a[1] == b[1] for a, b in zip(r0, r[1]))
                    if not any(symbolic_val(x) for x in r[1]) else False for r in self.rows[1:]):
                self.same = 0
        return self

    def executemany(self, sql, seq):
        for b in seq:
            self.execute(sql, b)
        return self

    def __iter__(self):
        return self

    def __next__(self):
        if self.same is not None:
            n = core.Count([g for g, _ in self.rows])
            c = n > self.same
            if c is True or (c is not False and core.CUR.branch(core.tobool(c))):
                self.same += 1
                return tuple(self._out(v) for v in self.rows[0][1])
            raise StopIteration
        while self.i < _len(self.rows):
            g, vs = self.rows[self.i]
            self.i += 1
            if g is True or (g is not False and core.CUR.branch(core.tobool(g))):
                return tuple(self._out(v) for v in vs)
        raise StopIteration

    next = __next__

    @staticmethod
    def _out(v):
        n, x = v
        if n is True or (n is not False and core.CUR.branch(core.tobool(n))):
            return None
        if _isinstance(x, (bool, SymBool)):
            return Ite(x, 1, 0)
        return x

    def fetchall(self):
        return list(self)

    def fetchone(self):
        try:
            return next(self)
        except StopIteration:
            return None

    fetchval = None

    def close(self, *a):
        self.rows = []
        self.i = 0
        self.same = None
