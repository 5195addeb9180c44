"""Symbolic execution of LLVM IR (clang -O0) over the engine's symbolic integers.

Integers are mathematical integers holding the signed value; results that may leave the range of their type end
the path as Unsupported, so nothing is decided under wrapped arithmetic that is not modelled."""
import re
import subprocess

from . import core


class Unsupported(Exception):
    pass


class Obj:
    """Memory object: cells by byte offset."""
    count = 0

    def __init__(self, name, cells=None, default=None):
        Obj.count += 1
        self.name, self.cells, self.default, self.id = name, dict(cells or {}), default, Obj.count

    def __repr__(self):
        return '<%s>' % self.name


class Ptr:
    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off

    def __hash__(self):
        return hash((id(self.obj), self.off))

    def __repr__(self):
        return '%r+%d' % (self.obj, self.off)


NULL = Ptr(None, 0)


class Fn:
    """Opaque function pointer."""

    def __init__(self, name, call):
        self.name, self.call = name, call


def compile_ir(src, flags=()):
    p = subprocess.run(['clang++', '-std=c++17', '-O0', '-S', '-emit-llvm', '-fno-discard-value-names', *flags, '-o', '-', src],
                       capture_output=True, text=True)
    if p.returncode:
        raise Unsupported('does not compile: ' + p.stderr[-500:])
    return Module(p.stdout)


def demangle(names):
    out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    return dict(zip(names, out))


ID = r'(?:%|@)(?:"[^"]*"|[\w.$-]+)'


class Module:
    def __init__(self, text):
        self.types, self.funcs, self.declared = {}, {}, set()
        self.globals = {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            m = re.match(r'(%s) = type (.*)$' % ID, l)
            if m:
                self.types[m.group(1)] = m.group(2)
            m = re.match(r'(@%s) = ' % r'(?:"[^"]*"|[\w.$-]+)', l)
            if m:
                self.globals[m.group(1)] = l
            m = re.match(r'define .*?(@(?:"[^"]*"|[\w.$-]+))\((.*)$', l)
            if m:
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                self.funcs[m.group(1)] = (l, body)
            m = re.match(r'declare .*?(@(?:"[^"]*"|[\w.$-]+))\(', l)
            if m:
                self.declared.add(m.group(1))
            i += 1
        self.names = demangle([f[1:].strip('"') for f in list(self.funcs) + list(self.declared)])
        self.layouts = {}

    def find(self, short):
        """Function by unmangled name without arguments."""
        r = [f for f in self.funcs if self.demangled(f).split('(')[0] == short]
        if len(r) != 1:
            raise Unsupported('function %s: %s' % (short, r))
        return r[0]

    def demangled(self, f):
        return self.names.get(f[1:].strip('"'), f)

    # -- types
    def split(self, s):
        out, depth, cur = [], 0, ''
        q = False
        for c in s:
            if c == '"':
                q = not q
            if not q:
                if c in '([{<':
                    depth += 1
                if c in ')]}>':
                    depth -= 1
                if c == ',' and depth == 0:
                    out.append(cur.strip())
                    cur = ''
                    continue
            cur += c
        if cur.strip():
            out.append(cur.strip())
        return out

    def size_align(self, t):
        t = t.strip()
        if t == 'ptr':
            return 8, 8
        m = re.fullmatch(r'i(\d+)', t)
        if m:
            n = max(1, (int(m.group(1)) + 7) // 8)
            return n, min(n, 16)
        if t in ('float', 'double'):
            return (4, 4) if t == 'float' else (8, 8)
        m = re.fullmatch(r'\[(\d+) x (.*)\]', t)
        if m:
            s, a = self.size_align(m.group(2))
            return s * int(m.group(1)), a
        fs = self.fields(t)
        off = al = 0
        al = 1
        packed = t.startswith('<{')
        for o, f in fs:
            s, a = self.size_align(f)
            off = o + s
            al = max(al, 1 if packed else a)
        return (off + al - 1) // al * al, al

    def fields(self, t):
        t = t.strip()
        if t in self.types:
            t = self.types[t]
        if t == 'opaque':
            raise Unsupported('opaque type')
        packed = t.startswith('<{')
        if not (t.startswith('{') or packed):
            raise Unsupported('type %s' % t)
        inner = t.strip('<>').strip()[1:-1]
        off, out = 0, []
        for f in self.split(inner):
            s, a = self.size_align(f)
            if not packed:
                off = (off + a - 1) // a * a
            out.append((off, f))
            off += s
        return out


ATTR = re.compile(r'\b(?:noundef|nonnull|zeroext|signext|inreg|noalias|nocapture|readonly|writeonly|returned|nofree|nosync|'
                  r'immarg|dead_on_unwind|writable|allocsize\(\d+\)|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|'
                  r'sret\((?:%"[^"]*"|[^()])*\)|byval\((?:%"[^"]*"|[^()])*\)|tail|musttail|notail|fastcc|noundef)\b\s*|(?<=\s)align \d+\s*')


class Machine:
    """Executes functions; `intrinsics` is a list of (regex over the demangled name, callable(machine, args))."""

    def __init__(self, module, E, intrinsics, max_steps=5000):
        self.m, self.E, self.max_steps = module, E, max_steps
        self.intrinsics = [(re.compile(r), f) for r, f in intrinsics]
        self.globals = {}
        self.steps = 0
        self.depth = 0
        self.executed = []

    def glob(self, name):
        if name not in self.globals:
            self.globals[name] = Obj(name)
        return Ptr(self.globals[name], 0)

    # -- values
    def fits(self, v, bits, what):
        if bits == 1:
            return v
        if isinstance(v, int):
            if not -2 ** (bits - 1) <= v < 2 ** (bits - 1):
                v = (v + 2 ** (bits - 1)) % 2 ** bits - 2 ** (bits - 1)
            return v
        if core.And(v >= -2 ** (bits - 1), v < 2 ** (bits - 1)):
            return v
        raise Unsupported('arithmetic overflow in ' + what)

    def unsigned(self, v, bits):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, int):
            return v % 2 ** bits
        if v >= 0:
            return v
        return v + 2 ** bits

    def value(self, t, s, env):
        s = s.strip()
        if s in env:
            return env[s]
        if s.startswith('@'):
            if s in self.m.funcs or s in self.m.declared:
                return Fn(s, None)
            return self.glob(s)
        if s == 'null':
            return NULL
        if s in ('true', 'false'):
            return 1 if s == 'true' else 0
        if s in ('undef', 'poison'):
            return 0
        if s == 'zeroinitializer':
            return {}
        if re.fullmatch(r'-?\d+', s):
            return int(s)
        raise Unsupported('operand %s' % s)

    def load(self, p, t):
        if not isinstance(p, Ptr) or p.obj is None:
            raise Unsupported('load through %r' % (p,))
        c = p.obj.cells
        if p.off in c:
            return c[p.off]
        if p.obj.default is not None:
            return p.obj.default(p.off)
        if t.startswith('%') or t.startswith('{'):
            return {o: self.load(Ptr(p.obj, p.off + o), f) for o, f in self.m.fields(t)}
        raise Unsupported('read of uninitialised memory %r' % (p,))

    def store(self, p, v):
        if not isinstance(p, Ptr) or p.obj is None:
            raise Unsupported('store through %r' % (p,))
        if isinstance(v, dict):
            for o, x in v.items():
                p.obj.cells[p.off + o] = x
        else:
            p.obj.cells[p.off] = v

    # -- execution
    def call(self, name, args):
        if isinstance(name, Fn):
            if name.call is not None:
                return name.call(*args)
            name = name.name
        d = self.m.demangled(name)
        for r, f in self.intrinsics:
            if r.search(d):
                return f(self, args)
        if name not in self.m.funcs:
            raise Unsupported('call of %s' % d)
        if self.depth > 40:
            raise Unsupported('recursion')
        self.depth += 1
        if d not in self.executed:
            self.executed.append(d)
        try:
            return self.run(name, args)
        finally:
            self.depth -= 1

    def run(self, name, args):
        head, body = self.m.funcs[name]
        ps = head[head.index('(', head.index(name)) + 1:]
        # parameters up to the matching parenthesis
        depth, j = 1, 0
        while depth:
            depth += {'(': 1, ')': -1}.get(ps[j], 0)
            j += 1
        env = {}
        for p, a in zip(self.m.split(ps[:j - 1]), args):
            env[p.split()[-1]] = a
        blocks, label = {}, None
        first = None
        n = len(self.m.split(ps[:j - 1]))
        for l in body:
            l = l.split(' ; ')[0].rstrip() if not l.strip().startswith(';') else ''
            m = re.match(r'^("[^"]*"|[\w.$-]+):', l)
            if m:
                label = '%' + m.group(1)
                blocks[label] = []
            elif l.strip():
                if label is None:
                    label = first = '%entry!'
                    blocks[label] = []
                if blocks[label] and (blocks[label][-1].startswith('switch') and not blocks[label][-1].endswith(']')):
                    blocks[label][-1] += ' ' + l.strip()
                else:
                    blocks[label].append(l.strip())
            if first is None and label is not None:
                first = label
        prev, cur = None, first
        while True:
            for ins in blocks[cur]:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported('too many steps')
                r = self.exec(ins, env, prev)
                if r is not None:
                    break
            else:
                raise Unsupported('block without terminator')
            if r[0] == 'ret':
                return r[1]
            prev, cur = cur, r[1]
            if prev == '%entry!':
                prev = '%' + str(n)

    def exec(self, ins, env, prev):
        ins = re.sub(r', !\S+ !\d+|, !\w+(\.\w+)* !\d+', '', ins)
        ins = re.sub(r' #\d+$', '', ins)
        m = re.match(r'(%s) = (.*)$' % ID, ins)
        dst = None
        if m:
            dst, ins = m.group(1), m.group(2)
        op = ins.split()[0]
        rest = ins[len(op):].strip()
        if op == 'ret':
            if rest == 'void':
                return 'ret', None
            t, v = self.typed(rest)
            return 'ret', self.value(t, v, env)
        if op == 'br':
            a = self.m.split(rest)
            if len(a) == 1:
                return 'br', a[0].split()[-1]
            c = self.value('i1', a[0].split()[-1], env)
            t = bool(c) if not isinstance(c, int) else c != 0
            return 'br', a[1 if t else 2].split()[-1]
        if op == 'switch':
            m = re.match(r'(\S+) (\S+), label (\S+) \[(.*)\]', rest)
            v = self.value(m.group(1), m.group(2).rstrip(','), env)
            for k, lab in re.findall(r'\S+ (-?\d+), label (%\S+)', m.group(4)):
                if v == int(k):
                    return 'br', lab
            return 'br', m.group(3)
        if op == 'store':
            a = self.m.split(re.sub(r'^(volatile|atomic) ', '', rest))
            t, v = self.typed(a[0])
            self.store(self.value('ptr', a[1].split()[1], env), self.value(t, v, env))
            return None
        if op == 'alloca':
            env[dst] = Ptr(Obj('alloca ' + dst))
            return None
        if op == 'load':
            a = self.m.split(re.sub(r'^(volatile|atomic) ', '', rest))
            env[dst] = self.load(self.value('ptr', a[1].split()[1], env), a[0])
            return None
        if op == 'getelementptr':
            rest = re.sub(r'^(inbounds|nuw|nusw) ', '', rest)
            a = self.m.split(rest)
            t = a[0]
            p = self.value('ptr', a[1].split(None, 1)[1], env)
            off = p.off
            for k, ix in enumerate(a[2:]):
                i = self.value('i64', ix.split()[1], env)
                if not isinstance(i, int):
                    raise Unsupported('symbolic index')
                if k == 0:
                    off += i * self.m.size_align(t)[0]
                else:
                    m = re.fullmatch(r'\[(\d+) x (.*)\]', t)
                    if m:
                        t = m.group(2)
                        off += i * self.m.size_align(t)[0]
                    else:
                        o, t = self.m.fields(t)[i]
                        off += o
            env[dst] = Ptr(p.obj, off)
            return None
        if op == 'extractvalue':
            a = self.m.split(rest)
            t, v = self.typed(a[0])
            x = self.value(t, v, env)
            env[dst] = x[self.m.fields(t)[int(a[1])][0]]
            return None
        if op == 'insertvalue':
            a = self.m.split(rest)
            t, v = self.typed(a[0])
            x = self.value(t, v, env)
            x = dict(x) if isinstance(x, dict) else {}
            t2, v2 = self.typed(a[1])
            x[self.m.fields(t)[int(a[2])][0]] = self.value(t2, v2, env)
            env[dst] = x
            return None
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            rest = re.sub(r'^((nsw|nuw|exact|disjoint) )*', '', rest)
            t, ab = rest.split(None, 1)
            a, b = [self.value(t, x, env) for x in self.m.split(ab)]
            env[dst] = self.arith(op, int(t[1:]), a, b)
            return None
        if op == 'icmp':
            pred, t, ab = rest.split(None, 2)
            a, b = [self.value(t, x, env) for x in self.m.split(ab)]
            env[dst] = self.icmp(pred, t, a, b)
            return None
        if op in ('zext', 'sext', 'trunc'):
            m = re.match(r'(?:nneg |nuw |nsw )*i(\d+) (\S+) to i(\d+)', rest)
            f, v, t = int(m.group(1)), self.value('', m.group(2), env), int(m.group(3))
            if op == 'zext':
                v = core.Ite(v, 1, 0) if f == 1 and not isinstance(v, int) else (v if f == 1 else self.unsigned(v, f))
            elif op == 'trunc':
                if t == 1:
                    if isinstance(v, int):
                        v = v & 1
                    elif core.Or(v == 0, v == 1):
                        v = v == 1
                    else:
                        raise Unsupported('trunc')
                else:
                    v = self.fits(v, t, 'trunc')
            env[dst] = v
            return None
        if op == 'select':
            a = self.m.split(rest)
            c = self.value('i1', a[0].split()[-1], env)
            k = 1 if (c != 0 if isinstance(c, int) else bool(c)) else 2
            env[dst] = self.value(*self.typed(a[k]), env)
            return None
        if op == 'phi':
            t, r = rest.split(None, 1)
            for v, lab in re.findall(r'\[ (\S+), (%\S+) \]', r):
                if lab == prev:
                    env[dst] = self.value(t, v, env)
                    return None
            raise Unsupported('phi')
        if op in ('call', 'invoke', 'tail', 'notail', 'musttail'):
            return self.do_call(dst, ins, env)
        if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            m = re.match(r'\S+ (\S+)', rest)
            env[dst] = self.value('', m.group(1), env)
            return None
        if op == 'unreachable':
            raise Unsupported('unreachable code reached')
        raise Unsupported('instruction %s' % op)

    def typed(self, s):
        s = s.strip()
        if s[0] in '{[<':
            depth = 0
            for j, c in enumerate(s):
                depth += (c in '{[<') - (c in '}]>')
                if depth == 0:
                    return s[:j + 1], s[j + 1:].strip()
        if s.startswith('%"'):
            j = s.index('"', 2)
            return s[:j + 1], s[j + 1:].strip()
        t, v = s.split(None, 1)
        return t, v

    def do_call(self, dst, ins, env):
        s = ATTR.sub('', ins)
        s = re.sub(r'^(tail |notail |musttail )?(call|invoke) ', '', s)
        # callee: last identifier before the argument list
        m = re.match(r'(.*?)(%s)\((.*)$' % ID, s)
        while m and m.group(1).count('(') != m.group(1).count(')'):
            m = re.match(r'(.{%d,}?)(%s)\((.*)$' % (len(m.group(1)) + len(m.group(2)) + 1, ID), s)
        if not m:
            raise Unsupported('call ' + s)
        callee, tail = m.group(2), m.group(3)
        depth, j = 1, 0
        while depth:
            depth += {'(': 1, ')': -1}.get(tail[j], 0)
            j += 1
        args = []
        for a in self.m.split(tail[:j - 1]):
            if a.startswith('metadata'):
                continue
            t, v = self.typed(a)
            args.append(self.value(t, v.split()[-1] if not v.startswith('"') else v, env))
        if callee.startswith('@llvm.'):
            r = self.llvm(callee, args)
        elif callee.startswith('%'):
            f = env[callee]
            if not isinstance(f, Fn):
                raise Unsupported('call through %r' % (f,))
            r = self.call(f, args)
        else:
            r = self.call(callee, args)
        if dst is not None:
            env[dst] = r
        m = re.search(r'to label (%\S+)', tail[j:])
        if m:
            return 'br', m.group(1)
        return None

    def llvm(self, name, args):
        if name.startswith(('@llvm.lifetime', '@llvm.dbg', '@llvm.assume', '@llvm.donothing')):
            return None
        m = re.match(r'@llvm\.([us])(min|max)\.i(\d+)', name)
        if m:
            a, b = args
            x, y = (self.unsigned(a, int(m.group(3))), self.unsigned(b, int(m.group(3)))) if m.group(1) == 'u' else (a, b)
            return core.Ite(x < y, a, b) if m.group(2) == 'min' else core.Ite(x > y, a, b)
        raise Unsupported(name)

    def arith(self, op, bits, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported('pointer arithmetic')
        if bits == 1:
            t = lambda x: x != 0 if isinstance(x, int) else x
            a, b = t(a), t(b)
            r = {'and': core.And, 'or': core.Or}.get(op)
            if r is not None:
                return r(a, b)
            if op == 'xor':
                return core.Not(core.Iff(a, b))
            raise Unsupported(op)
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op in ('udiv', 'urem'):
            a, b = self.unsigned(a, bits), self.unsigned(b, bits)
            if b == 0:
                raise Unsupported('division by zero')
            r = a // b if op == 'udiv' else a % b
            return r if isinstance(r, int) and r < 2 ** (bits - 1) or not isinstance(r, int) else r - 2 ** bits
        elif op in ('sdiv', 'srem'):
            if core.And(a >= 0, b > 0):
                return a // b if op == 'sdiv' else a % b
            raise Unsupported('division of negative numbers')
        elif op == 'shl' and isinstance(b, int):
            r = a * 2 ** b
        elif op in ('lshr', 'ashr') and isinstance(b, int):
            a = self.unsigned(a, bits) if op == 'lshr' else a
            return a // 2 ** b
        elif op == 'and' and isinstance(a, int) and isinstance(b, int):
            return a & b
        elif op == 'and' and isinstance(b, int) and b > 0 and b & (b + 1) == 0:
            return self.unsigned(a, bits) % (b + 1)
        elif op == 'and' and isinstance(b, int) and b < 0 and (-b) & (-b - 1) == 0:
            return a - self.unsigned(a, bits) % (-b)
        elif op in ('or', 'xor') and isinstance(a, int) and isinstance(b, int):
            return a | b if op == 'or' else a ^ b
        else:
            raise Unsupported(op)
        return self.fits(r, bits, op)

    def icmp(self, pred, t, a, b):
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if pred not in ('eq', 'ne'):
                raise Unsupported('pointer comparison')
            e = a == b if isinstance(a, Ptr) else a is b
            return int(e if pred == 'eq' else not e)
        if t == 'i1':
            c = lambda x: x != 0 if isinstance(x, int) else x
            r = core.Iff(c(a), c(b))
            return r if pred == 'eq' else core.Not(r)
        if pred[0] == 'u':
            n = int(t[1:])
            a, b = self.unsigned(a, n), self.unsigned(b, n)
            pred = 's' + pred[1:]
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        return int(r) if isinstance(r, bool) else r


# --------------------------------------------------------------------------------------------------
# std::unordered_set<size_t>

class Set:
    """Elements in an arbitrary order; each may be symbolic."""

    def __init__(self, elems=()):
        self.obj = Obj('set')
        self.items = [Node(x) for x in elems]

    def find(self, x):
        for n in self.items:
            if n.value == x:
                return n
        return None


class Node:
    def __init__(self, v):
        self.value = v
        self.obj = Obj('node', {0: v})


def set_intrinsics(sets):
    """Operations of unordered_set<unsigned long> at the level of its interface; sets: Obj -> Set."""
    def S(p):
        return sets[p.obj]
    end = {}

    def endp(s):
        return Ptr(s.obj, 10 ** 6)

    def owner(p):
        for s in sets.values():
            for i, n in enumerate(s.items):
                if n.obj is p.obj:
                    return s, i
        raise Unsupported('use of an invalid iterator')

    def at(s, i):
        return Ptr(s.items[i].obj) if i < len(s.items) else endp(s)

    def insert(m, a):
        s = S(a[0])
        x = m.load(a[1], 'i64')
        x = m.unsigned(x, 64)
        n = s.find(x)
        new = n is None
        if new:
            n = Node(x)
            s.items.append(n)
        return {0: Ptr(n.obj), 8: int(new)}

    def begin(m, a):
        return at(S(a[0]), 0)

    def erase_it(m, a):
        s, i = owner(a[1])
        del s.items[i]
        return at(s, i)

    def erase_key(m, a):
        s = S(a[0])
        n = s.find(m.unsigned(m.load(a[1], 'i64'), 64))
        if n is None:
            return 0
        s.items.remove(n)
        return 1

    def count(m, a):
        return int(S(a[0]).find(m.unsigned(m.load(a[1], 'i64'), 64)) is not None)

    def find(m, a):
        n = S(a[0]).find(m.unsigned(m.load(a[1], 'i64'), 64))
        return Ptr(n.obj) if n is not None else endp(S(a[0]))

    def deref(m, a):
        p = m.load(a[0], 'ptr')
        owner(p)
        return Ptr(p.obj, 0)

    def inc(m, a, post):
        p = m.load(a[0], 'ptr')
        s, i = owner(p)
        m.store(a[0], at(s, i + 1))
        return p if post else a[0]

    def cmp(eq):
        def f(m, a):
            e = m.load(a[0], 'ptr') == m.load(a[1], 'ptr')
            return int(e == eq)
        return f
    U = r'std::unordered_set<unsigned long.*?> >::'
    I = r'std::__detail::_Node_(?:const_)?iterator<unsigned long, true, false>::'
    return [
        (U + r'insert\(unsigned long(?: const)?&&?\)', insert),
        (U + r'emplace<', insert),
        (U + r'c?begin\(\)', begin),
        (U + r'c?end\(\)', lambda m, a: endp(S(a[0]))),
        (U + r'erase\(std::__detail', erase_it),
        (U + r'erase\(unsigned long const&\)', erase_key),
        (U + r'count\(', count),
        (U + r'contains\(', count),
        (U + r'find\(', find),
        (U + r'size\(', lambda m, a: len(S(a[0]).items)),
        (U + r'empty\(', lambda m, a: int(not S(a[0]).items)),
        (U + r'clear\(', lambda m, a: S(a[0]).items.clear()),
        (I + r'operator\*\(', deref),
        (I + r'operator\+\+\(int\)', lambda m, a: inc(m, a, True)),
        (I + r'operator\+\+\(\)', lambda m, a: inc(m, a, False)),
        (I + r'_Node_const_iterator\(', lambda m, a: m.store(a[0], a[1] if a[1].obj.name == 'node' or a[1].off else m.load(a[1], 'ptr'))),
        (r'std::__detail::operator!=\(', cmp(False)),
        (r'std::__detail::operator==\(', cmp(True)),
        (r'std::atomic<bool>::load\(', lambda m, a: m.load(a[0], 'i8')),
        (r'std::atomic<bool>::operator bool\(', lambda m, a: m.load(a[0], 'i8')),
    ]
