"""Reference model of the wrench language (a tree-walking interpreter written
from the documentation) and a typed random program generator for it.

Values: int (int32), float (float32 kept in a python float), bytes (string),
Arr, Hash, Struct.  Anything the documentation leaves undefined raises Undef
and the case is discarded."""
import math, struct
from .core import Discard


class Undef(Discard):
    pass


# ------------------------------------------------------------------ values
class Arr:
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = list(a)


class Hash:
    __slots__ = ('d',)          # key -> [keyvalue, value]

    def __init__(self):
        self.d = {}


class Struct:
    __slots__ = ('name', 'd')

    def __init__(self, name, d):
        self.name, self.d = name, d


def wrap(i):
    i &= 0xFFFFFFFF
    return i - 0x100000000 if i & 0x80000000 else i


_pf = struct.Struct('<f')
_pi = struct.Struct('<I')


def f32(x):
    if x != x or x in (math.inf, -math.inf):
        return x
    try:
        return _pf.unpack(_pf.pack(x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def fbits(x):
    return _pi.unpack(_pf.pack(x))[0]


def frombits(b):
    return _pf.unpack(_pi.pack(b))[0]


def dstr(b):
    o = ['"']
    for c in b:
        if c < 32 or c > 126 or c in (34, 92):
            o.append('\\x%02x' % c)
        else:
            o.append(chr(c))
    o.append('"')
    return ''.join(o)


def dump(v, depth=0):
    if depth > 8:
        return '...'
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return 'i%d' % v
    if isinstance(v, float):
        if v != v:
            return 'fnan'
        return 'f%08x' % fbits(v)
    if isinstance(v, bytes):
        return dstr(v)
    if isinstance(v, Arr):
        return '[' + ','.join(dump(x, depth + 1) for x in v.a) + ']'
    if isinstance(v, Hash):
        return '{' + ','.join(sorted(dump(k, depth + 1) + ':' + dump(x, depth + 1) for k, x in v.d.values())) + '}'
    if isinstance(v, Struct):
        return '<>'
    raise TypeError(v)


def hkey(v):
    if isinstance(v, (Arr, Hash, Struct)):
        raise Undef('container as key')
    return (type(v).__name__, v)


def truth(v):
    if isinstance(v, int):
        return v != 0
    if isinstance(v, float):
        if v != v or (v == 0 and math.copysign(1, v) < 0):
            raise Undef('truth of nan / -0.0')
        return v != 0
    raise Undef('truth of object')


def feq(a, b):
    if a != a or b != b or math.isinf(a) or math.isinf(b):
        raise Undef('nan/inf compare')
    if a == b:
        return True
    d = abs(a - b)
    if abs(a) < 1e-35 or abs(b) < 1e-35:
        if abs(a) > 0 and abs(b) > 0 or d < 1e-30:
            raise Undef('denormal compare')
    if d > 1e-5 * abs(a):
        return False
    raise Undef('float equality too close to call')


def num_to_text(v):
    if isinstance(v, int):
        return b'%d' % v
    raise Undef('float text')


def binop(op, a, b):
    ai, bi = isinstance(a, int), isinstance(b, int)
    if isinstance(a, bytes) or isinstance(b, bytes):
        if op == '+':
            if isinstance(a, bytes) and isinstance(b, bytes):
                if len(a) + len(b) > 3000:
                    raise Undef('long string')
                return a + b
            if isinstance(a, bytes) and bi:
                return a + num_to_text(b)
            if isinstance(b, bytes) and ai:
                return num_to_text(a) + b
        if op in ('==', '!=') and isinstance(a, bytes) and isinstance(b, bytes):
            return int((a == b) == (op == '=='))
        raise Undef('string op')
    if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
        raise Undef('object op')
    if op in ('&&', '||'):
        x, y = truth(a), truth(b)
        return int(x and y) if op == '&&' else int(x or y)
    if ai and bi:
        if op == '+': return wrap(a + b)
        if op == '-': return wrap(a - b)
        if op == '*': return wrap(a * b)
        if op == '/':
            if b == 0:
                return 0
            q = abs(a) // abs(b)
            return wrap(-q if (a < 0) != (b < 0) else q)
        if op == '%':
            if b == 0:
                raise Undef('modulo by zero')
            r = abs(a) % abs(b)
            return wrap(-r if a < 0 else r)
        if op == '&': return wrap(a & b)
        if op == '|': return wrap(a | b)
        if op == '^': return wrap(a ^ b)
        if op in ('<<', '>>'):
            if not 0 <= b <= 31:
                raise Undef('shift count')
            if op == '<<':
                return wrap(a << b)
            return a >> b
        if op == '<': return int(a < b)
        if op == '>': return int(a > b)
        if op == '<=': return int(a <= b)
        if op == '>=': return int(a >= b)
        if op == '==': return int(a == b)
        if op == '!=': return int(a != b)
        raise TypeError(op)
    x, y = f32(float(a)), f32(float(b))
    if op in ('+', '-', '*'):
        if op == '+': r = x + y
        elif op == '-': r = x - y
        else: r = x * y
        return f32(r)
    if op == '/':
        if y == 0:
            return 0.0
        return f32(x / y)
    if op in ('==', '!='):
        return int(feq(x, y) == (op == '=='))
    if op in ('<', '>', '<=', '>='):
        if x != x or y != y:
            raise Undef('nan compare')
        return int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
    raise Undef('bit op on float')


def unop(op, a):
    if op == '!':
        return int(not truth(a))
    if op == '-':
        if isinstance(a, int):
            return wrap(-a)
        if isinstance(a, float):
            return -a
        raise Undef('neg')
    if op == '~':
        if isinstance(a, int):
            return wrap(~a)
        raise Undef('~')
    raise TypeError(op)


def cast(t, a):
    if t == 'int':
        if isinstance(a, int):
            return a
        if isinstance(a, float):
            if a != a or abs(a) >= 2147483520.0:
                raise Undef('float to int range')
            return int(a)
        raise Undef('cast')
    if isinstance(a, (int, float)):
        return f32(float(a))
    raise Undef('cast')


# ------------------------------------------------------------------ interpreter
class BreakX(Exception): pass
class ContinueX(Exception): pass
class GotoX(Exception):
    def __init__(self, label): self.label = label
class ReturnX(Exception):
    def __init__(self, v): self.v = v
class HaltX(Exception):
    def __init__(self, v): self.v = v


class Interp:
    """Executes a Prog; .log is what the host sees through out()."""

    def __init__(self, prog, budget=20000):
        self.p = prog
        self.G = {}
        self.L = [None]
        self.out = []
        self.outsize = 0
        self.steps = budget
        self.yields = 0
        self.cuts = None
        self.depth = 0
        self.maxdepth = 0
        self.funcs = prog.funcs
        self.halt = None
        self.stats = dict(iters=0, calls=0, branches=0, brk=0, cont=0, maxret=0)

    def emit(self, t):
        self.outsize += len(t)
        if self.outsize > 200000:
            raise Undef('output size')
        self.out.append(t)

    def zdiv(self, v):
        if isinstance(v, (int, float)) and v == 0 and 'zdiv' not in self.stats:
            self.stats['zdiv'] = len(self.out)

    def tick(self):
        self.steps -= 1
        if self.steps < 0:
            raise Undef('step budget')

    # -- lvalues
    def get(self, e):
        k = e[0]
        if k == 'var':
            L = self.L[-1]
            if L is not None and e[1] in L:
                return L[e[1]]
            return self.G[e[1]]
        if k == 'gvar':
            return self.G[e[1]]
        if k == 'idx':
            b = self.ev(e[1])
            i = self.ev(e[2])
            if isinstance(b, Arr):
                if not isinstance(i, int) or i < 0 or i >= len(b.a):
                    raise Undef('read out of range')
                return b.a[i]
            if isinstance(b, Hash):
                h = b.d.get(hkey(i))
                if h is None:
                    raise Undef('read of missing key')
                return h[1]
            if isinstance(b, bytes):
                if not isinstance(i, int) or i < 0 or i >= len(b):
                    raise Undef('string index')
                return b[i]
            raise Undef('index of non container')
        if k == 'mem':
            b = self.ev(e[1])
            if isinstance(b, Struct):
                return b.d[e[2]]
            if isinstance(b, Hash):
                h = b.d.get(hkey(e[2].encode()))
                if h is None:
                    raise Undef('read of missing key')
                return h[1]
            raise Undef('member')
        raise TypeError(e)

    def set(self, e, v):
        k = e[0]
        if k == 'var':
            L = self.L[-1]
            if L is not None and e[1] in L:
                L[e[1]] = v
            else:
                self.G[e[1]] = v
        elif k == 'gvar':
            self.G[e[1]] = v
        elif k == 'idx':
            b = self.ev(e[1])
            i = self.ev(e[2])
            if isinstance(b, Arr):
                if not isinstance(i, int) or i < 0 or i > 4000:
                    raise Undef('write index')
                while len(b.a) <= i:
                    b.a.append(0)
                b.a[i] = v
            elif isinstance(b, Hash):
                h = b.d.get(hkey(i))
                if h:
                    h[1] = v
                else:
                    b.d[hkey(i)] = [i, v]
            else:
                raise Undef('write to non container')
        elif k == 'mem':
            b = self.ev(e[1])
            if isinstance(b, Struct):
                b.d[e[2]] = v
            elif isinstance(b, Hash):
                h = b.d.get(hkey(e[2].encode()))
                if not h:
                    raise Undef('new key by name')
                h[1] = v
            else:
                raise Undef('member write')
        else:
            raise TypeError(e)

    # -- expressions
    def ev(self, e):
        k = e[0]
        if k == 'lit':
            return e[1]
        if k in ('var', 'gvar', 'idx', 'mem'):
            return self.get(e)
        if k == 'bin':
            a = self.ev(e[2])
            b = self.ev(e[3])
            if e[1] == '/':
                self.zdiv(b)
            r = binop(e[1], a, b)
            return r
        if k == 'un':
            return unop(e[1], self.ev(e[2]))
        if k == 'cast':
            return cast(e[1], self.ev(e[2]))
        if k == 'asg':
            v = self.ev(e[3])
            if e[1]:
                if e[1] == '/':
                    self.zdiv(v)
                v = binop(e[1], self.get(e[2]), v)
            self.set(e[2], v)
            return v
        if k == 'inc':          # ('inc', 'pre'/'post', +1/-1, lv)
            o = self.get(e[3])
            if isinstance(o, int):
                n = wrap(o + e[2])
            elif isinstance(o, float):
                n = f32(o + e[2])
            else:
                raise Undef('inc')
            self.set(e[3], n)
            return n if e[1] == 'pre' else o
        if k == 'call':
            return self.call(e[1], [self.ev(a) for a in e[2]])
        if k == 'arr':
            return Arr([self.ev(x) for x in e[1]])
        if k == 'hash':
            h = Hash()
            for a, b in e[1]:
                kv = self.ev(a)
                h.d[hkey(kv)] = [kv, self.ev(b)]
            return h
        if k == 'new':          # ('new', sname, args, inits) inits: [(field|None, e)]
            sd = self.p.structs[e[1]]
            args = [self.ev(a) for a in e[2]]
            d = {}
            pm = dict(zip(sd.params, args + [0] * (len(sd.params) - len(args))))
            self.L.append(dict(pm))
            try:
                for f, init in sd.fields:
                    d[f] = self.ev(init) if init is not None else 0
                    self.L[-1][f] = d[f]
            finally:
                self.L.pop()
            for n, (f, x) in enumerate(e[3]):
                d[f or sd.fields[n][0]] = self.ev(x)
            return Struct(e[1], d)
        if k == 'count':
            b = self.ev(e[1])
            if isinstance(b, Arr): return len(b.a)
            if isinstance(b, Hash): return len(b.d)
            if isinstance(b, bytes): return len(b)
            raise Undef('count')
        if k == 'exists':
            b = self.ev(e[1])
            if not isinstance(b, Hash):
                raise Undef('exists')
            return int(hkey(self.ev(e[2])) in b.d)
        if k == 'host':
            return self.host(e[1], [self.ev(a) for a in e[2]])
        if k == 'yield':
            a = [self.ev(x) for x in e[1]]
            self.yields += 1
            if self.cuts is not None:
                self.cuts.append(len(self.out))     # a scheduler answers nothing
                return 0
            self.out.append('Y' + ''.join(' ' + dump(x) for x in a))
            return 1000 + self.yields
        if k == 'par':
            return self.ev(e[1])
        raise TypeError(e)

    def host(self, name, a):
        if name == 'out':
            self.emit(' '.join(dump(x) for x in a))
            return 0
        if name == 'argc':
            return len(a)
        if name == 'hsum':
            s = 0
            for x in a:
                if not isinstance(x, int):
                    raise Undef('hsum')
                s = (s * 31 + x) & 0xFFFFFFFF
            return wrap(s)
        if name == 'hstr':
            return ''.join(dump(x) for x in a).encode('latin-1')
        if name == 'hhalf':
            if not a:
                return 0.25
            return f32(f32(float(a[0])) * 0.5)
        if name == 'hnone':
            return 0
        if name == 'husr7':
            return 7
        if name == 'husr9':
            return 9
        if name == 'str::strlen':
            if not isinstance(a[0], bytes):
                raise Undef('strlen of non string')
            return len(a[0])
        if name == 'math::iscale':
            raise Undef('')
        if name == 'tst::log':
            self.out.append('L' + ''.join(' ' + dump(x) for x in a))
            return len(a)
        if name in PURELIB:
            return PURELIB[name](*a)
        raise TypeError(name)

    def call(self, name, args):
        f = self.funcs[name]
        self.stats['calls'] += 1
        self.tick()
        self.depth += 1
        if self.depth > 40:
            raise Undef('recursion')
        self.maxdepth = max(self.maxdepth, self.depth)
        L = {}
        for i, p in enumerate(f.params):
            L[p] = args[i] if i < len(args) else 0
        for v in f.locals_:
            L[v] = 0
        self.L.append(L)
        try:
            self.block(f.body)
            return 0
        except ReturnX as r:
            return r.v
        finally:
            self.L.pop()
            self.depth -= 1

    # -- statements
    def block(self, b):
        for s in b:
            self.st(s)

    def st(self, s):
        self.tick()
        k = s[0]
        if k == 'decl':             # ('decl', name, expr|None)
            # no initializer: nothing happens at run time, a variable is zero
            # from the start of its function and keeps its value after that
            if s[2] is None:
                if s[1] not in (self.G if self.L[-1] is None else self.L[-1]):
                    self.declset(s[1], 0)
            else:
                self.declset(s[1], self.ev(s[2]))
        elif k == 'declarr':        # ('declarr', name, n|[exprs])
            v = Arr([0] * s[2]) if isinstance(s[2], int) else Arr([self.ev(x) for x in s[2]])
            self.declset(s[1], v)
        elif k == 'expr':
            self.ev(s[1])
        elif k == 'if':             # ('if', [(cond, block)...], else|None)
            for c, b in s[1]:
                self.stats['branches'] += 1
                if truth(self.ev(c)):
                    self.block(b)
                    return
            if s[2] is not None:
                self.block(s[2])
        elif k == 'while':
            while truth(self.ev(s[1])):
                self.tick()
                self.stats['iters'] += 1
                try:
                    self.block(s[2])
                except BreakX:
                    break
                except ContinueX:
                    pass
        elif k == 'dowhile':
            while True:
                self.tick()
                self.stats['iters'] += 1
                try:
                    self.block(s[2])
                except BreakX:
                    break
                except ContinueX:
                    pass
                if not truth(self.ev(s[1])):
                    break
        elif k == 'for':            # ('for', init-list, cond|None, step-list, block, declname|None)
            for x in s[1]:
                if x[0] == 'decl':
                    self.declset(x[1], self.ev(x[2]))
                else:
                    self.ev(x)
            while s[2] is None or truth(self.ev(s[2])):
                self.tick()
                self.stats['iters'] += 1
                try:
                    self.block(s[4])
                except BreakX:
                    break
                except ContinueX:
                    pass
                for x in s[3]:
                    self.ev(x)
        elif k == 'foreach':        # ('foreach', kname|None, vname, expr, block)
            c = self.ev(s[3])
            if isinstance(c, Arr):
                n = 0
                while n < len(c.a):
                    self.tick()
                    self.stats['iters'] += 1
                    if s[1]:
                        self.loopset(s, 0, n)
                    self.loopset(s, 1, c.a[n])
                    n += 1
                    try:
                        self.block(s[4])
                    except BreakX:
                        break
                    except ContinueX:
                        pass
            elif isinstance(c, Hash):
                for kv, vv in list(c.d.values()):
                    self.tick()
                    self.stats['iters'] += 1
                    if s[1]:
                        self.loopset(s, 0, kv)
                    self.loopset(s, 1, vv)
                    try:
                        self.block(s[4])
                    except BreakX:
                        raise Undef('order dependent')
                    except ContinueX:
                        pass
                # the order is unspecified: the loop variables end up unknown,
                # the generator never reads them afterwards
            elif isinstance(c, bytes):
                for n, ch in enumerate(c):
                    self.tick()
                    self.stats['iters'] += 1
                    if s[1]:
                        self.loopset(s, 0, n)
                    self.loopset(s, 1, ch)
                    try:
                        self.block(s[4])
                    except BreakX:
                        break
                    except ContinueX:
                        pass
            else:
                raise Undef('foreach')
        elif k == 'switch':         # ('switch', expr, [(label|'default', stmts)])
            v = self.ev(s[1])
            start = None
            for n, (lab, _) in enumerate(s[2]):
                if lab != 'default' and type(lab) == type(v) and lab == v:
                    start = n
                    break
            if start is None:
                for n, (lab, _) in enumerate(s[2]):
                    if lab == 'default':
                        start = n
            if start is not None:
                try:
                    for lab, b in s[2][start:]:
                        self.block(b)
                except BreakX:
                    self.stats['brk'] += 1
        elif k == 'break':
            self.stats['brk'] += 1
            raise BreakX()
        elif k == 'goto':
            self.stats['goto'] = self.stats.get('goto', 0) + 1
            raise GotoX(s[1])
        elif k == 'gout':           # ('gout', label, block): the label follows the block
            try:
                self.block(s[2])
            except GotoX as g:
                if g.label != s[1]:
                    raise
        elif k == 'gback':          # ('gback', label, block): the label precedes the block
            while True:
                self.tick()
                try:
                    self.block(s[2])
                    break
                except GotoX as g:
                    if g.label != s[1]:
                        raise
                    self.stats['iters'] += 1
        elif k == 'continue':
            self.stats['cont'] += 1
            raise ContinueX()
        elif k == 'return':
            raise ReturnX(self.ev(s[1]) if s[1] is not None else 0)
        elif k == 'block':
            self.block(s[1])
        elif k == 'empty':
            pass
        elif k == 'remove':
            b = self.ev(s[1])
            kv = self.ev(s[2])
            if isinstance(b, Hash):
                b.d.pop(hkey(kv), None)
            elif isinstance(b, Arr):
                if not isinstance(kv, int) or kv < 0 or kv >= len(b.a):
                    raise Undef('remove')
                b.a.pop(kv)
            else:
                raise Undef('remove')
        elif k == 'enum':
            n = 0
            for name, val in s[1]:
                if val is not None:
                    n = val
                self.declset(name, n)
                n += 1
        else:
            raise TypeError(s)

    def declset(self, name, v):
        if self.L[-1] is not None:
            self.L[-1][name] = v
        else:
            self.G[name] = v

    def loopset(self, s, i, v):
        """key (0) or value (1) variable of a foreach: its own, or an existing one"""
        if len(s) > 5 and s[5][i] is not None:
            self.set(s[5][i], v)
        else:
            self.setname(s[1 + i], v)

    def setname(self, name, v):
        self.declset(name, v)

    def run(self):
        try:
            self.block(self.p.main)
            return 0
        except ReturnX as r:
            return r.v
        except RecursionError:
            raise Undef('recursion')

    def log(self):
        return ''.join(l + '\n' for l in self.out)


PURELIB = {}


# ------------------------------------------------------------------ programs
class Func:
    def __init__(self, name, params, ptypes, ret):
        self.name, self.params, self.ptypes, self.ret = name, params, ptypes, ret
        self.body = []
        self.locals_ = []
        self.pure = True
        self.mut = set()        # parameters changed through an operator
        self.wglob = False      # writes globals
        self.yields = False


class StructDef:
    def __init__(self, name, params, fields, types):
        self.name, self.params, self.fields, self.types = name, params, fields, types


class Prog:
    def __init__(self):
        self.funcs = {}
        self.structs = {}
        self.main = []
        self.order = []     # struct / function names in definition order


# ------------------------------------------------------------------ rendering
PREC = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '>': 7, '<=': 7, '>=': 7,
        '==': 6, '!=': 6, '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}

ESC = {10: '\\n', 13: '\\r', 9: '\\t', 92: '\\\\', 34: '\\"', 0: '\\0'}


def strlit(b):
    o = ['"']
    for c in b:
        o.append(ESC.get(c) or chr(c))
    o.append('"')
    return ''.join(o)


def flit(v):
    """decimal text that the compiler reads back as exactly v (v >= 0)"""
    from decimal import Decimal
    t = format(Decimal(v), 'f')
    return t if '.' in t else t + '.0'


class Render:
    def __init__(self, redundant=None):
        self.red = redundant        # callable -> bool : add redundant parentheses

    def e(self, e, p=0):
        """text of e in a context that needs precedence >= p"""
        t, q = self.e0(e)
        if q < p:
            return '(' + t + ')'
        if self.red and q < 12 and self.red():
            return '(' + t + ')'
        return t

    def prim(self, e):
        """operand of a unary operator: anything but a primary is bracketed"""
        t, q = self.e0(e)
        return t if q >= 12 else '(' + t + ')'

    def e0(self, e):
        k = e[0]
        if k == 'lit':
            if len(e) > 2:
                t = e[2]
            else:
                v = e[1]
                if isinstance(v, int):
                    t = str(v)
                elif isinstance(v, float):
                    t = ('-' + flit(-v)) if math.copysign(1, v) < 0 else flit(v)
                else:
                    t = strlit(v)
            return t, (11 if t[0] == '-' else 12)
        if k == 'var':
            return e[1], 12
        if k == 'gvar':
            return '::' + e[1], 12
        if k == 'idx':
            return self.e(e[1], 12) + '[' + self.e(e[2]) + ']', 12
        if k == 'mem':
            return self.e(e[1], 12) + '.' + e[2], 12
        if k == 'bin':
            q = PREC[e[1]]
            return self.e(e[2], q) + ' ' + e[1] + ' ' + self.e(e[3], q + 1), q
        if k == 'un':
            return e[1] + self.prim(e[2]), 11
        if k == 'cast':
            return '(' + e[1] + ')' + self.prim(e[2]), 11
        if k == 'asg':
            return self.e(e[2], 12) + ' ' + e[1] + '= ' + self.e(e[3], 0), 0
        if k == 'inc':
            op = '++' if e[2] > 0 else '--'
            t = self.e(e[3], 12)
            return (op + t, 11) if e[1] == 'pre' else (t + op, 11)
        if k in ('call', 'host'):
            return e[1] + '(' + ', '.join(self.e(a) for a in e[2]) + ')', 12
        if k == 'yield':
            return 'yield(' + ', '.join(self.e(a) for a in e[1]) + ')', 12
        if k == 'arr':
            return '{ ' + ', '.join(self.e(a) for a in e[1]) + ' }', 12
        if k == 'hash':
            return '{ ' + ', '.join(self.e(a) + ': ' + self.e(b) for a, b in e[1]) + ' }', 12
        if k == 'new':
            t = 'new ' + e[1] + '(' + ', '.join(self.e(a) for a in e[2]) + ')'
            if e[3]:
                t += ' { ' + ', '.join((f + ' = ' if f else '') + self.e(x) for f, x in e[3]) + ' }'
            return t, 12
        if k == 'count':
            return self.e(e[1], 12) + '._count', 12
        if k == 'exists':
            return self.e(e[1], 12) + '._exists(' + self.e(e[2]) + ')', 12
        if k == 'par':
            return '(' + self.e(e[1]) + ')', 12
        raise TypeError(e)

    def block(self, b, ind):
        return '{\n' + ''.join(self.s(x, ind + 1) for x in b) + '  ' * ind + '}'

    def s(self, s, ind=0):
        t = '  ' * ind
        k = s[0]
        if k == 'decl' and s[2] is None and len(s) > 3:
            return t + s[3] + ' ' + s[1] + ';\n'
        if k == 'decl':
            return t + 'var ' + s[1] + ((' = ' + self.e(s[2])) if s[2] is not None else '') + ';\n'
        if k == 'declarr':
            if isinstance(s[2], int):
                return t + 'var %s[%d];\n' % (s[1], s[2])
            return t + 'var ' + s[1] + '[] = { ' + ', '.join(self.e(x) for x in s[2]) + ' };\n'
        if k == 'expr':
            return t + self.e(s[1]) + ';\n'
        if k == 'if':
            o = t
            for n, (c, b) in enumerate(s[1]):
                o += ('if ( ' if n == 0 else ' else if ( ') + self.e(c) + ' ) ' + self.sub(b, ind, n + 1 < len(s[1]) or s[2] is not None)
            if s[2] is not None:
                o += ' else ' + self.sub(s[2], ind, False)
            return o + '\n'
        if k == 'while':
            return t + 'while ( ' + self.e(s[1]) + ' ) ' + self.sub(s[2], ind, False) + '\n'
        if k == 'dowhile':
            return t + 'do ' + self.block(s[2], ind) + ' while ( ' + self.e(s[1]) + ' );\n'
        if k == 'for':
            init = ', '.join(('var ' + x[1] + ' = ' + self.e(x[2])) if x[0] == 'decl' else self.e(x) for x in s[1])
            return t + 'for ( ' + init + '; ' + (self.e(s[2]) if s[2] is not None else '') + '; ' + \
                ', '.join(self.e(x) for x in s[3]) + ' ) ' + self.sub(s[4], ind, False) + '\n'
        if k == 'foreach':
            x = s[5] if len(s) > 5 else (None, None)
            kt = self.e(x[0]) if x[0] is not None else 'var ' + s[1] if s[1] else ''
            vt = self.e(x[1]) if x[1] is not None else 'var ' + s[2]
            return t + 'for ( ' + (kt + ', ' if kt else '') + vt + ' : ' + self.e(s[3]) + ' ) ' + self.block(s[4], ind) + '\n'
        if k == 'switch':
            o = t + 'switch ( ' + self.e(s[1]) + ' ) {\n'
            for lab, b in s[2]:
                if lab == 'default':
                    o += t + '  default:\n'
                else:
                    o += t + '  case ' + (str(lab) if isinstance(lab, int) else strlit(lab)) + ':\n'
                o += ''.join(self.s(x, ind + 2) for x in b)
            return o + t + '}\n'
        if k == 'break':
            return t + 'break;\n'
        if k == 'goto':
            return t + 'goto ' + s[1] + ';\n'
        if k == 'gout':
            return ''.join(self.s(x, ind) for x in s[2]) + t + s[1] + ':\n'
        if k == 'gback':
            return t + s[1] + ':\n' + ''.join(self.s(x, ind) for x in s[2])
        if k == 'continue':
            return t + 'continue;\n'
        if k == 'return':
            return t + 'return' + ((' ' + self.e(s[1])) if s[1] is not None else '') + ';\n'
        if k == 'block':
            return t + self.block(s[1], ind) + '\n'
        if k == 'empty':
            return t + ';\n'
        if k == 'remove':
            return t + self.e(s[1], 12) + '._remove( ' + self.e(s[2]) + ' );\n'
        if k == 'enum':
            return t + 'enum { ' + ', '.join(n + ((' = %d' % v) if v is not None else '') for n, v in s[1]) + ' }\n'
        raise TypeError(s)

    def sub(self, b, ind, more):
        """a block, or a bare statement when it is a single simple one"""
        if len(b) == 1 and b[0][0] in ('expr', 'break', 'continue', 'return', 'brace', 'goto') and getattr(self, 'bare', None) and self.bare():
            return self.s(b[0], 0).rstrip('\n')
        return self.block(b, ind)

    def prog(self, p):
        o = []
        for kind, n in p.order:
            if kind == 's':
                sd = p.structs[n]
                o.append('struct %s%s\n{\n%s}\n' % (n, ('( ' + ', '.join(sd.params) + ' )') if sd.params else '',
                         ''.join('  var %s%s;\n' % (f, (' = ' + self.e(i)) if i is not None else '') for f, i in sd.fields)))
            elif kind == 'f':
                f = p.funcs[n]
                o.append('function %s( %s )\n%s\n' % (n, ', '.join(f.params), self.block(f.body, 0)))
            else:
                o.append(self.s(n))
        for x in p.main[getattr(p, 'pre', 0):]:
            o.append(self.s(x))
        return ''.join(o)
