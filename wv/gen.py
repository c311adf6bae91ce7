"""Typed random generator of wrench programs (see lang.py for the model).

Every generated program is well defined: no operator with an undocumented
operand combination, no order-dependent side effects inside an expression, no
read of a missing element, all loops bounded.  Whatever slips through raises
Undef in the model and is discarded (counted in the evidence)."""
import math
from .lang import *

IEDGE = [0, 1, 2, 3, -1, 5, 7, 8, 10, 100, 127, 128, -128, 255, 256, -2, 32767, 32768, -32768, 65535, 65536, 1000000,
         2147483647, -2147483648, -2147483647, 0x55555555, 1 << 30, 9, 16, 31, 33, 1023]
FEDGE = [0.0, 1.0, 0.5, 2.0, -1.0, 0.25, 1.5, 3.0, -0.5, 10.0, 100.0, 0.125, -2.5, 1000.5, 16777216.0, 0.0009765625, 3.75, 65536.0,
         1.0e9, -7.25, 255.0]
SLITS = [b'', b'a', b'abc', b'x', b'hello', b'A b', b'0', b'12', b'zz top', b'q"q', b'n\nl', b'back\\', b'  pad ', b'a\x00b', b'caf\xe9'.replace(b'\xe9', b'e')]
KEYS_S = [b'k', b'key', b'zed', b'alpha', b'b1', b'c_c', b'Q', b'mm', b'name', b'w0w']
KEYS_I = [0, 1, 2, 5, 17, 100, -3, 65536, 1234567, 99]


def ilit(s):
    c = s.draw(6)
    if c < 3:
        v = s.int(0, 12)
    elif c == 3:
        v = s.int(-200, 200)
    elif c == 4:
        v = s.pick(IEDGE)
    else:
        v = wrap(s.draw(1 << 32))
    f = s.draw(12)
    if f == 11 and v >= 0:
        return ('lit', v, '0x%X' % v)
    if f == 10 and 32 < v < 127 and chr(v).isalnum():
        return ('lit', v, "'%s'" % chr(v))
    if f == 9 and v in (0, 1):
        return ('lit', v, ['false', 'true'][v])
    return ('lit', v)


def flitn(s):
    c = s.draw(4)
    if c == 0:
        v = float(s.int(0, 20)) / 2
    elif c == 1:
        v = s.pick(FEDGE)
    elif c == 2:
        v = float(s.int(-100000, 100000)) / 64
    else:
        v = f32(s.int(-999999, 999999) / s.pick([10, 100, 1000, 7, 3]))
        v = f32(float('%.4f' % v))
    if v == 0:
        v = 0.0
    return ('lit', v)


def slit(s):
    if s.chance(1, 5):
        n = s.int(0, 12)
        return ('lit', bytes(s.pick(b'abcdefgXYZ 0189_-+*.,;:{}()[]/') for _ in range(n)))
    return ('lit', s.pick(SLITS))


class Var:
    __slots__ = ('name', 't', 'kind', 'ro', 'shadow', 'n', 'keys', 'hidden', 'own')

    def __init__(self, name, t, kind, ro=False, n=0, keys=()):
        self.name, self.t, self.kind, self.ro, self.n, self.keys = name, t, kind, ro, n, list(keys)
        self.hidden = self.own = False

    def node(self, shadowed=False):
        return ('gvar', self.name) if shadowed else ('var', self.name)


# types: 'i' 'f' 's' ('a', t) ('h', t) ('S', name)
class Gen:
    def __init__(self, s, **opt):
        self.s = s
        o = dict(floats=1, strings=1, arrays=1, hashes=1, structs=1, funcs=3, globals=6, stmts=10, depth=3, edepth=3,
                 loops=1, switch=1, foreach=1, yields=0, libs=1, host=1, nested=1, strchurn=0, retype=0, recursion=1,
                 shadow=1, mainret=0, gcalls=1, gotos=0)
        o.update(opt)
        self.o = o
        self.p = Prog()
        self.nid = 0
        self.vars = []          # globals
        self.loc = None         # locals of the function being generated
        self.fn = None
        self.loopd = 0
        self.loopkind = []
        self.busy = set()       # variables that must not be touched (side effects pending)
        self.size = 0
        self.noret = False
        self.labels = []        # goto targets in reach: (label, counter | None, limit, loop nesting)

    # -- names and variables
    def name(self, pre):
        self.nid += 1
        return '%s%d' % (pre, self.nid)

    def visible(self):
        if self.loc is None:
            return [v for v in self.vars if not v.hidden]
        ln = set(v.name for v in self.loc)
        return [v for v in self.loc if not v.hidden] + [v for v in self.vars if not v.hidden]

    def node(self, v):
        if v.kind == 'g' and self.loc is not None:
            if any(l.name == v.name for l in self.loc) or (self.fn and v.name in self.fn.shadowed):
                return ('gvar', v.name)
            if self.s.chance(1, 12):
                return ('gvar', v.name)
        return ('var', v.name)

    def scalar_types(self):
        t = ['i', 'i']
        if self.o['floats']: t.append('f')
        if self.o['strings']: t.append('s')
        return t

    def anytype(self, depth=1):
        s = self.s
        c = s.draw(10)
        if c < 6 or depth <= 0:
            return s.pick(self.scalar_types())
        o = self.o
        k = []
        if o['arrays']: k.append('a')
        if o['hashes']: k.append('h')
        if o['structs'] and self.p.structs: k.append('S')
        if not k:
            return s.pick(self.scalar_types())
        c = s.pick(k)
        if c == 'S':
            return ('S', s.pick(sorted(self.p.structs)))
        et = self.anytype(depth - 1 if o['nested'] and s.chance(1, 3) else 0)
        return (c, et)

    # -- lvalues of scalar type t
    def lvals(self, t, write=False):
        """candidate lvalue makers for scalars of type t"""
        r = []
        for v in self.visible():
            if v.name in self.busy:
                continue
            if v.t == t:
                if not (write and v.ro):
                    r.append((v, None))
            elif isinstance(v.t, tuple):
                if v.t[0] in ('a', 'h') and v.t[1] == t and (v.n or v.keys):
                    r.append((v, 'el'))
                elif v.t[0] in ('a', 'h') and isinstance(v.t[1], tuple) and v.t[1][0] == 'S' and (v.n or v.keys):
                    sd = self.p.structs[v.t[1][1]]
                    fs = [f for f, ft in zip(sd.fields, sd.types) if ft == t]
                    if fs:
                        r.append((v, ('elf', fs)))
                elif v.t[0] == 'S':
                    sd = self.p.structs[v.t[1]]
                    fs = [f for f, ft in zip(sd.fields, sd.types) if ft == t]
                    if fs:
                        r.append((v, ('f', fs)))
        return r

    def index(self, v):
        s = self.s
        if v.t[0] == 'h':
            k = s.pick(v.keys)
            if isinstance(k, bytes) and k.isalnum() and s.chance(1, 3):
                return ('mem', self.node(v), k.decode())
            return ('idx', self.node(v), self.keynode(k))
        c = s.draw(4)
        if c >= 2:
            iv = [x for x in self.visible() if x.t == 'i' and x.name not in self.busy]
            if iv:
                x = self.node(s.pick(iv))
                m = 1
                while m * 2 <= v.n:
                    m *= 2
                if c == 2 or m == 1:
                    if m > 1:
                        return ('idx', self.node(v), ('bin', '&', x, ('lit', m - 1)))
        return ('idx', self.node(v), ('lit', s.draw(v.n)))

    def keynode(self, k):
        return ('lit', k)

    def mklv(self, c):
        v, how = c
        if how is None:
            return self.node(v)
        if how == 'el':
            return self.index(v)
        if how[0] == 'f':
            return ('mem', self.node(v), self.s.pick(how[1])[0])
        return ('mem', self.index(v), self.s.pick(how[1])[0])

    # -- expressions
    def expr(self, t, d=None):
        if d is None:
            d = self.s.int(0, self.o['edepth'])
        self.size += 1
        if isinstance(t, tuple):
            return self.cexpr(t, d)
        return {'i': self.ei, 'f': self.ef, 's': self.es}[t](d)

    def leaf(self, t):
        s = self.s
        lv = self.lvals(t)
        if lv and s.draw(5) < 4:
            return self.mklv(s.pick(lv))
        return {'i': ilit, 'f': flitn, 's': slit}[t](s)

    def pcalls(self, t):
        return [f for f in self.p.funcs.values() if f.pure and f.ret == t and f is not self.fn and f.done]

    def callf(self, f, d, statement=False):
        s = self.s
        args = []
        n = len(f.params)
        # trailing integer arguments may be left out
        k = n
        if s.chance(1, 6):
            while k > 0 and f.ptypes[k - 1] == 'i' and s.draw(2):
                k -= 1
        for i in range(k):
            a = self.expr(f.ptypes[i], min(d, 2))
            args.append(a)
        if k == n and s.chance(1, 10):
            args.append(self.expr(s.pick(['i', 's'] if self.o['strings'] else ['i']), 0))
        return ('call', f.name, args)

    def ei(self, d):
        s = self.s
        if d <= 0:
            return self.leaf('i')
        c = s.draw(22)
        if c < 8:
            op = s.pick(['+', '-', '*', '/', '&', '|', '^', '%'])
            a, b = self.expr('i', d - 1), self.expr('i', d - 1)
            if op == '%':
                b = s.pick([('lit', s.int(1, 50)), ('lit', -7), ('bin', '|', b, ('lit', 1))])
            return ('bin', op, a, b)
        if c == 8:
            a = self.expr('i', d - 1)
            b = s.pick([('lit', s.int(0, 31)), ('bin', '&', self.expr('i', d - 1), ('lit', 31))])
            return ('bin', s.pick(['<<', '>>']), a, b)
        if c < 11:
            t = 'f' if self.o['floats'] and s.chance(1, 3) else 'i'
            op = s.pick(['<', '>', '<=', '>=', '==', '!='])
            a = self.expr(t, d - 1)
            b = self.expr('i' if s.chance(1, 4) else t, d - 1)
            return ('bin', op, a, b)
        if c == 11:
            return ('bin', s.pick(['&&', '||']), self.expr('i', d - 1), self.expr('i', d - 1))
        if c == 12:
            op = s.pick(['-', '~', '!'])
            return ('un', op, self.expr('i', d - 1))
        if c == 13 and self.o['floats']:
            return ('cast', 'int', self.expr('f', d - 1))
        if c == 14 and self.o['strings']:
            if s.draw(2):
                return ('bin', s.pick(['==', '!=']), self.expr('s', d - 1), self.expr('s', d - 1))
            if self.o['libs']:
                return ('host', 'str::strlen', [self.expr('s', d - 1)])
        if c == 15 and not self.nocount:
            cs = [v for v in self.visible() if (isinstance(v.t, tuple) and v.t[0] in 'ah' or v.t == 's') and v.name not in self.busy]
            if cs:
                v = s.pick(cs)
                if isinstance(v.t, tuple) and v.t[0] == 'h' and s.draw(2):
                    return ('exists', self.node(v), self.keynode(s.pick(KEYS_S + KEYS_I)))
                return ('count', self.node(v))
        if c in (16, 17):
            fs = self.pcalls('i')
            if fs:
                return self.callf(s.pick(fs), d - 1)
        if c == 18 and self.o['host']:
            n = s.draw(4)
            return ('host', s.pick(['hsum', 'argc']), [self.expr('i', d - 1) for _ in range(n)])
        if c == 19 and self.o['libs']:
            return ('lit', -12345, 'tst::KI')
        return self.leaf('i')

    def ef(self, d):
        s = self.s
        if d <= 0:
            return self.leaf('f')
        c = s.draw(12)
        if c < 5:
            op = s.pick(['+', '-', '*', '/'])
            k = s.draw(4)
            a = self.expr('i' if k == 1 else 'f', d - 1)
            b = self.expr('i' if k == 2 else 'f', d - 1)
            return ('bin', op, a, b)
        if c == 5:
            return ('un', '-', self.expr('f', d - 1))
        if c == 6:
            return ('cast', 'float', self.expr(s.pick(['i', 'f']), d - 1))
        if c == 7:
            fs = self.pcalls('f')
            if fs:
                return self.callf(s.pick(fs), d - 1)
        if c == 8 and self.o['host']:
            return ('host', 'hhalf', [self.expr(s.pick(['f', 'i']), d - 1)])
        if c == 9 and self.o['libs']:
            return ('lit', 2.5, 'tst::KF')
        return self.leaf('f')

    def es(self, d):
        s = self.s
        if d <= 0:
            return self.leaf('s')
        c = s.draw(8)
        if c < 3:
            return ('bin', '+', self.expr('s', d - 1), self.expr('s', d - 1))
        if c == 3:
            a, b = self.expr('s', d - 1), self.expr('i', min(d - 1, 1))
            return ('bin', '+', a, b) if s.draw(3) else ('bin', '+', b, a)
        if c == 4:
            fs = self.pcalls('s')
            if fs:
                return self.callf(s.pick(fs), d - 1)
        if c == 5 and self.o['host']:
            return ('host', 'hstr', [self.expr('i', 0)])
        return self.leaf('s')

    def cexpr(self, t, d):
        """container valued: an existing one of that type"""
        vs = [v for v in self.visible() if v.t == t and v.name not in self.busy]
        if vs:
            return self.node(self.s.pick(vs))
        raise LookupError(t)

    def fresh(self, t, d=1):
        """(expression creating a container of type t, n, keys)"""
        s = self.s
        if t[0] == 'a':
            n = s.int(1, 6)
            return ('arr', [self.val(t[1], d) for _ in range(n)]), n, []
        if t[0] == 'h':
            ks = self.keyset(s.int(1, 5))
            return ('hash', [(self.keynode(k), self.val(t[1], d)) for k in ks]), 0, ks
        sd = self.p.structs[t[1]]
        args = [self.expr('i', 1) for _ in sd.params]
        if s.chance(1, 5) and args:
            args.pop()
        inits = []
        m = s.draw(3)
        # a field left out starts as integer 0, so only integer fields may be
        if m == 1:
            for (f, i), ft in zip(sd.fields, sd.types):
                if (i is None and ft != 'i') or s.draw(2):
                    inits.append((f, self.val(ft, d)))
            inits = s.shuffle(inits)
        elif m == 2 or any(i is None and ft != 'i' for (f, i), ft in zip(sd.fields, sd.types)):
            for (f, i), ft in zip(sd.fields, sd.types):
                inits.append((None, self.val(ft, d)))
        return ('new', t[1], args, inits), 0, []

    def val(self, t, d):
        if isinstance(t, tuple):
            vs = [v for v in self.visible() if v.t == t and v.name not in self.busy]
            if vs and self.s.draw(3) == 0:
                return self.node(self.s.pick(vs))
            return self.fresh(t, 0)[0]
        return self.expr(t, d)

    def keyset(self, n):
        ks = []
        for _ in range(n):
            k = self.s.pick(KEYS_S + KEYS_I)
            if k not in ks:
                ks.append(k)
        return ks

    # -- statements
    def decl(self, t=None, kind=None, depth=1, name=None):
        s = self.s
        if t is None:
            t = self.anytype()
        kind = kind or ('g' if self.loc is None else 'l')
        name = name or self.name({'g': 'g', 'l': 'l'}[kind])
        n, keys = 0, []
        if isinstance(t, tuple):
            if t[0] == 'a' and s.chance(1, 4) and t[1] == 'i':
                n = s.int(1, 9)
                st = ('declarr', name, n)
            elif t[0] == 'a':
                e, n, keys = self.fresh(t)
                st = ('declarr', name, e[1])
            else:
                e, n, keys = self.fresh(t)
                st = ('decl', name, e)
        else:
            if t == 'i' and s.chance(1, 10):
                st = ('decl', name, None)
            else:
                st = ('decl', name, self.expr(t))
        v = Var(name, t, kind, n=n, keys=keys)
        v.own = True        # made here, nothing else refers to it
        (self.vars if kind == 'g' else self.loc).append(v)
        if kind == 'l':
            self.fn.locals_.append(name)
            # a declaration inside a conditional block is only visible (to the
            # generator) within that block
        return st

    def outst(self):
        s = self.s
        if self.fn is not None:
            self.fn.pure = False
        args = []
        n = s.int(1, 3)
        for _ in range(n):
            vs = [v for v in self.visible() if isinstance(v.t, tuple) and v.t[0] in 'ah']
            if vs and s.chance(1, 4):
                args.append(self.node(s.pick(vs)))
            else:
                args.append(self.expr(s.pick(self.scalar_types())))
        if self.o['libs'] and s.chance(1, 8):
            return ('expr', ('host', 'tst::log', args))
        return ('expr', ('host', 'out', args))

    def note_write(self, lv):
        """record what writing this lvalue means for the enclosing function"""
        if self.fn is None:
            return
        root = lv
        while root[0] in ('idx', 'mem'):
            root = root[1]
        n = root[1]
        mine = [l for l in self.loc if l.name == n]
        # an element of a parameter belongs to the caller's container
        depth, x = 0, lv
        while x[0] in ('idx', 'mem'):
            depth, x = depth + 1, x[1]
        if root[0] == 'gvar' or not mine or (depth and not mine[-1].own) or depth > 1:
            self.fn.wglob = True
            self.fn.pure = False

    def assign(self):
        s = self.s
        t = s.pick(self.scalar_types())
        lv = self.lvals(t, True)
        if self.fn is not None and self.fn.wantpure:
            lv = [c for c in lv if c[0].kind != 'g' and not (c[0].kind == 'p' and c[1] is not None)]
        if not lv:
            return self.outst()
        c = s.pick(lv)
        node = self.mklv(c)
        v = c[0]
        k = s.draw(8)
        isparam = v.kind == 'p' and c[1] is None
        if isparam and k >= 3:
            self.fn.mut.add(v.name)
        self.note_write(node)
        if k < 3:
            return ('expr', ('asg', '', node, self.expr(t)))
        if k < 6:
            if t == 'i':
                op = s.pick(['+', '-', '*', '/', '&', '|', '^', '%', '<<', '>>'])
                r = self.expr('i')
                if op == '%':
                    r = ('lit', s.int(1, 99))
                elif op in ('<<', '>>'):
                    r = ('lit', s.int(0, 31))
                return ('expr', ('asg', op, node, r))
            if t == 'f':
                return ('expr', ('asg', s.pick(['+', '-', '*', '/']), node, self.expr(s.pick(['f', 'i']))))
            return ('expr', ('asg', '+', node, self.expr('s', 1)))
        if t != 's':
            st = ('inc', s.pick(['pre', 'post']), s.pick([1, -1]), node)
            if k == 6 or self.fn is not None and self.fn.wantpure:
                return ('expr', st)
            # x = y++ + e  with y nowhere else
            if c[1] is None:
                self.busy.add(v.name)
                try:
                    lv2 = [q for q in self.lvals(t, True) if q[1] is None and q[0].name != v.name and q[0].kind != 'p']
                    if lv2:
                        x = self.mklv(s.pick(lv2))
                        self.note_write(x)
                        return ('expr', ('asg', '', x, ('bin', s.pick(['+', '-', '*']), st, self.pureexpr(t))))
                finally:
                    self.busy.discard(v.name)
            return ('expr', st)
        return ('expr', ('asg', '', node, self.expr(t)))

    def pureexpr(self, t):
        """an expression that calls nothing (so it cannot see v through a global)"""
        old = self.p.funcs
        self.p.funcs = {}
        try:
            return self.expr(t, 1)
        finally:
            self.p.funcs = old

    nocount = False

    def growval(self, t):
        """a value that does not look at the size of any container: whether the
        target grows before or after the value is evaluated is unspecified"""
        old = self.p.funcs
        self.p.funcs = {}
        self.nocount = True
        try:
            return self.val(t, 1)
        finally:
            self.p.funcs = old
            self.nocount = False

    def cstmt(self):
        """container statement: grow, add key, alias, replace, remove"""
        s = self.s
        vs = [v for v in self.visible() if isinstance(v.t, tuple) and not v.ro and v.name not in self.busy]
        if self.fn is not None and self.fn.wantpure:
            vs = [v for v in vs if v.kind == 'l']
        if not vs:
            return self.outst()
        v = s.pick(vs)
        node = self.node(v)
        self.note_write(('idx', node, ('lit', 0)))
        t = v.t
        if t[0] == 'a':
            k = s.draw(4)
            if k < 2:
                return ('expr', ('asg', '', ('idx', node, ('lit', s.int(0, v.n + 2))), self.growval(t[1])))
            if k == 2 and not isinstance(t[1], tuple):
                return ('expr', ('asg', '', ('idx', node, ('count', node)), self.growval(t[1])))
        if t[0] == 'h':
            k = s.draw(5)
            if k < 3:
                return ('expr', ('asg', '', ('idx', node, self.keynode(s.pick(KEYS_S + KEYS_I))), self.growval(t[1])))
            if k == 3:
                ks = [x for x in KEYS_S + KEYS_I if x not in v.keys]
                return ('remove', node, self.keynode(s.pick(ks)))
        if t[0] == 'S' and s.draw(2):
            sd = self.p.structs[t[1]]
            i = s.draw(len(sd.fields))
            return ('expr', ('asg', '', ('mem', node, sd.fields[i][0]), self.val(sd.types[i], 1)))
        # rebind: only keeps the static facts if the new one has at least them
        if v.kind == 'p':
            return self.outst()
        if t[0] == 'S':
            return ('expr', ('asg', '', node, self.fresh(t)[0]))
        return self.outst()

    def stmts(self, n, d):
        out = []
        mark = len(self.loc) if self.loc is not None else len(self.vars)
        for _ in range(n):
            x = self.stmt(d)
            out.append(x)
            if x[0] in ('break', 'continue', 'return', 'goto'):
                break
        # variables declared in here are not used outside
        lst = self.loc if self.loc is not None else self.vars
        if self.nestd > 0:
            for v in lst[mark:]:
                v.hidden = True
        return out

    nestd = 0

    def body(self, d, avg=3):
        self.nestd += 1
        try:
            pad = []
            if self.s.chance(1, 12) and self.size < 400:
                # enough code that the jumps around it need their long forms
                lv = [c for c in self.lvals('i', True) if c[1] is None]
                if lv:
                    n = self.mklv(self.s.pick(lv))
                    self.note_write(n)
                    pad = [('expr', ('asg', '', n, ('bin', '+', n, ('lit', 300 + i)))) for i in range(self.s.int(1, 40))]
            return pad + self.stmts(self.s.int(1, avg), d)
        finally:
            self.nestd -= 1

    def cond(self):
        s = self.s
        c = s.draw(8)
        if c > 5:
            # two plain variables, or one and a constant: the fused compare-and-branch forms
            lv = [x for x in self.lvals('i') if x[1] is None]
            if lv:
                a = self.mklv(s.pick(lv))
                b = self.mklv(s.pick(lv)) if c == 6 else ('lit', s.pick(IEDGE) if s.draw(2) else s.int(0, 9))
                if s.draw(4) == 0:
                    a, b = b, a
                return ('bin', s.pick(['<', '>', '<=', '>=', '==', '!=']), a, b)
            c = 0
        if c < 3:
            t = 'f' if self.o['floats'] and s.chance(1, 4) else 'i'
            return ('bin', s.pick(['<', '>', '<=', '>=', '==', '!=']), self.expr(t, 1), self.expr(t, 1))
        if c == 3:
            return self.expr('i', 2)
        if c == 4:
            return ('un', '!', self.expr('i', 1))
        return ('bin', s.pick(['&&', '||']), self.expr('i', 1), self.expr('i', 1))

    def stmt(self, d):
        s = self.s
        o = self.o
        self.size += 1
        W = [(6, 'asg'), (3, 'out'), (3, 'decl')]
        if o['arrays'] or o['hashes'] or o['structs']:
            W.append((2, 'cst'))
        if d > 0 and self.size < 500:
            W.append((4, 'if'))
            if o['loops']:
                W += [(2, 'while'), (1, 'do'), (4, 'for')]
            if o['foreach']:
                W.append((3, 'foreach'))
            if o['switch']:
                W.append((3, 'switch'))
            W.append((1, 'block'))
            if o['gotos']:
                W.append((3, 'label'))
        if self.labels and 'hash' not in self.loopkind:
            W.append((6, 'goto'))
        if self.loopkind:
            W.append((3, 'brk'))
        if self.fn is not None and self.nestd and not self.noret:
            W.append((2, 'ret'))
        if self.gcallable():
            W.append((4, 'call'))
        if o['yields'] and (self.fn is None or not self.fn.wantpure):
            W.append((o['yields'], 'yield'))
        W.append((1, 'empty'))
        k = s.weighted(W)
        if k == 'asg':
            return self.assign()
        if k == 'out':
            if self.fn is not None:
                if self.fn.wantpure:
                    return self.assign()
                self.fn.pure = False
            return self.outst()
        if k == 'decl':
            t = self.anytype()
            if self.fn is None and len(self.vars) > 40:
                return self.assign()
            return self.decl(t)
        if k == 'cst':
            x = self.cstmt()
            if x[0] == 'expr' and x[1][0] == 'host' and self.fn is not None:
                if self.fn.wantpure:
                    return self.assign()
                self.fn.pure = False
            return x
        if k == 'empty':
            return ('empty',)
        if k == 'label':
            lab = self.name('lb')
            if s.draw(2):
                self.labels.append((lab, None, 0))
                b = self.body(d - 1, 5)
                self.labels.pop()
                return ('block', [('gout', lab, b)]) if s.draw(4) == 0 else ('gout', lab, b)
            cnt = self.name('gc')
            n = s.int(1, 4)
            v = Var(cnt, 'i', 'l' if self.loc is not None else 'g')
            v.hidden = True
            (self.loc if self.loc is not None else self.vars).append(v)
            if self.loc is not None:
                self.fn.locals_.append(cnt)
            self.labels.append((lab, cnt, n))
            b = self.body(d - 1, 4)
            self.labels.pop()
            if not b or b[-1][0] not in ('break', 'continue', 'return', 'goto'):
                b.append(self.jump((lab, cnt, n)))
            return ('block', [('decl', cnt, ('lit', 0)), ('gback', lab, b)])
        if k == 'goto':
            return self.jump(s.pick(self.labels))
        if k == 'yield':
            if self.fn is not None:
                self.fn.pure = False
                self.fn.yields = True
            y = ('yield', [self.expr(s.pick(self.scalar_types()), 1) for _ in range(s.draw(3))])
            lv = [c for c in self.lvals('i', True) if c[1] is None]
            if lv and s.draw(2):
                n = self.mklv(s.pick(lv))
                self.note_write(n)
                return ('expr', ('asg', '', n, y))
            return ('expr', y)
        if k == 'if':
            br = [(self.cond(), self.body(d - 1))]
            while len(br) < 4 and s.draw(3) == 2:
                br.append((self.cond(), self.body(d - 1)))
            return ('if', br, self.body(d - 1) if s.draw(2) else None)
        if k == 'block':
            return ('block', self.body(d - 1))
        if k == 'brk':
            kinds = ['break']
            if 'loop' in [x for x in self.loopkind if x != 'switch']:
                kinds.append('continue')
            c = s.pick(kinds)
            if c == 'break' and self.loopkind[-1] == 'hash':
                return self.assign()
            if c == 'continue':
                # innermost loop
                pass
            if s.draw(3):
                return ('if', [(self.cond(), [(c,)])], None)
            return (c,)
        if k == 'ret':
            if 'hash' in self.loopkind:
                return self.assign()
            if isinstance(self.fn.ret, tuple):
                return self.assign()
            r = ('return', self.expr(self.fn.ret))
            return ('if', [(self.cond(), [r])], None) if s.draw(3) else r
        if k == 'call':
            f = s.pick(self.gcallable())
            if self.fn is not None:
                self.fn.pure = False
                self.fn.wglob = self.fn.wglob or f.wglob
                self.fn.yields = self.fn.yields or f.yields
            ok, c = self.trycall(f)
            if not ok:
                return self.assign()
            if f.ret in ('i', 'f', 's') and s.draw(2):
                lv = [q for q in self.lvals(f.ret, True) if q[1] is None and (q[0].kind != 'p')]
                if lv:
                    n = self.mklv(s.pick(lv))
                    self.note_write(n)
                    return ('expr', ('asg', '', n, c))
            return ('expr', c)
        if k in ('while', 'do', 'for', 'foreach'):
            return self.loop(k, d)
        return self.switch(d)

    def jump(self, l):
        lab, cnt, n = l
        j = ('goto', lab)
        if cnt is None:
            return ('if', [(self.cond(), [j])], None) if self.s.draw(4) else j
        return ('if', [(('bin', '<', ('inc', 'post', 1, ('var', cnt)), ('lit', n)), [j])], None)

    def gcallable(self):
        if not self.o['gcalls'] or 'hash' in self.loopkind:
            return []
        if self.fn is not None and self.fn.wantpure:
            return []
        return [f for f in self.p.funcs.values() if f.done and f is not self.fn]

    def trycall(self, f):
        try:
            return True, self.callf(f, 1)
        except LookupError:
            return False, None

    def loop(self, k, d):
        s = self.s
        cnt = self.name('c')
        n = s.pick([0, 1, 2, 3, 3, 4, 5, 9])
        if self.loopd >= 2:
            n = min(n, 2)
        lst = self.vars if self.loc is None else self.loc
        kind = 'g' if self.loc is None else 'l'

        def addv(name, t='i', ro=True, nn=0, keys=()):
            v = Var(name, t, kind, ro=ro, n=nn, keys=keys)
            lst.append(v)
            if kind == 'l':
                self.fn.locals_.append(name)
            return v

        def body(lk, avg=3):
            self.loopd += 1
            self.loopkind.append(lk)
            try:
                return self.body(d - 1, avg)
            finally:
                self.loopd -= 1
                self.loopkind.pop()
        if k == 'for':
            v = addv(cnt)
            form = s.draw(4)
            lim = ('lit', n)
            if form == 0:
                init = [('decl', cnt, ('lit', 0))]
                cond = ('bin', '<', ('var', cnt), lim)
                step = [('inc', s.pick(['pre', 'post']), 1, ('var', cnt))]
            elif form == 1:
                init = [('decl', cnt, ('lit', n))]
                cond = ('bin', s.pick(['>', '!=']), ('var', cnt), ('lit', 0))
                step = [('inc', s.pick(['pre', 'post']), -1, ('var', cnt))]
            elif form == 2:
                k2 = s.int(2, 5)
                init = [('decl', cnt, ('lit', 0))]
                cond = ('bin', '<=', ('var', cnt), ('lit', n * k2))
                step = [('asg', '+', ('var', cnt), ('lit', k2))]
            else:
                c2 = self.name('c')
                addv(c2)
                b = body('loop')
                v.hidden = True
                lst[-1].hidden = True
                for x in lst:
                    if x.name == c2:
                        x.hidden = True
                pre = [('decl', cnt, None), ('decl', c2, None)]
                st = ('for', [('asg', '', ('var', cnt), ('lit', 0)), ('asg', '', ('var', c2), ('lit', n))],
                      ('bin', '<', ('var', cnt), ('var', c2)),
                      [('inc', 'post', 1, ('var', cnt)), ('inc', 'post', -1, ('var', c2))], b)
                return ('block', pre + [st])
            b = body('loop')
            v.hidden = True
            if s.chance(1, 8):
                # infinite for with an explicit exit
                return ('for', init, None, step, [('if', [(('un', '!', ('par', cond)), [('break',)])], None)] + b)
            return ('for', init, cond, step, b)
        if k in ('while', 'do'):
            v = addv(cnt)
            v.hidden = True
            b = body('loop')
            pre = ('decl', cnt, ('lit', 0))
            c = ('bin', '<', ('inc', 'post', 1, ('var', cnt)), ('lit', n))
            if s.draw(3) == 0:
                c = ('bin', '<', ('inc', 'pre', 1, ('var', cnt)), ('lit', n))
            if s.chance(1, 8) and k == 'while':
                return ('block', [pre, ('while', ('lit', 1, 'true'), [('if', [(('bin', '>=', ('inc', 'post', 1, ('var', cnt)), ('lit', n)), [('break',)])], None)] + b)])
            return ('block', [pre, (('while' if k == 'while' else 'dowhile'), c, b)])
        # foreach
        cs = [v for v in self.visible() if isinstance(v.t, tuple) and v.t[0] in 'ah' and v.name not in self.busy]
        ss = [v for v in self.visible() if v.t == 's' and v.name not in self.busy]
        if not cs and not ss:
            return self.assign()
        use = s.pick(cs + ss[:2])
        # the container is not resized inside its own loop
        vn = self.name('v')
        kn = self.name('k') if s.draw(2) else None
        node = self.node(use)
        wasro = use.ro
        use.ro = True
        old = self.noresize
        self.noresize = True
        try:
            if use.t != 's' and use.t[0] == 'h':
                v = addv(vn, use.t[1])
                v.hidden = True
                acc = [c for c in self.lvals('i', True) if c[1] is None]
                if self.fn is not None:
                    acc = [c for c in acc if c[0].kind != 'p' and (c[0].kind == 'l' or not self.fn.wantpure)]
                if not acc:
                    return self.assign()
                a = self.mklv(s.pick(acc))
                self.note_write(a)
                e = ('lit', 1)
                if use.t[1] == 'i':
                    e = s.pick([('var', vn), ('bin', '*', ('var', vn), ('lit', 3)), ('bin', '^', ('var', vn), ('lit', 5))])
                elif use.t[1] == 's':
                    e = ('count', ('var', vn))
                b = [('expr', ('asg', '+', a, e))]
                if s.chance(1, 3):
                    b = [('if', [(('bin', '>', e, ('lit', 3)), [('continue',)])], None)] + b
                return ('foreach', kn, vn, node, b)
            et = 'i' if use.t == 's' else use.t[1]
            ex = []
            if et == 'i' and s.draw(3) == 0:
                # loop over variables that exist already
                ex = [c for c in self.lvals('i', True) if c[1] is None]
                if self.fn is not None:
                    ex = [c for c in ex if c[0].kind == 'l' or not self.fn.wantpure]
            if ex:
                kx = s.pick(ex) if kn and s.draw(2) else None
                vx = s.pick([c for c in ex if c is not kx] + [None]) if kx is None or s.draw(2) else None
                x = []
                for c in (kx, vx):
                    x.append(None if c is None else self.mklv(c))
                    if c is not None:
                        self.note_write(x[-1])
                new = []
                if kn and kx is None:
                    new.append(addv(kn, 'i'))
                if vx is None:
                    new.append(addv(vn, 'i'))
                ros = [(c[0], c[0].ro) for c in (kx, vx) if c is not None]
                for c, _ in ros:
                    c.ro = True
                b = body('loop')
                for c, r in ros:
                    c.ro = r
                for c in new:
                    c.hidden = True
                return ('foreach', kn, vn, node, b, tuple(x))
            v = addv(vn, et, nn=0)
            if kn:
                kv = addv(kn, 'i')
            b = body('loop')
            v.hidden = True
            if kn:
                kv.hidden = True
            return ('foreach', kn, vn, node, b)
        finally:
            use.ro = wasro
            self.noresize = old

    noresize = False

    def switch(self, d):
        s = self.s
        labs = []
        if self.o['strings'] and s.chance(1, 5):
            e = self.expr('s', 0)
            pool = [b'', b'a', b'abc', b'x', b'hello', b'0', b'12', b'zz']
        else:
            m = s.pick([3, 5, 9, 7])
            e = ('bin', '&', self.expr('i', 1), ('lit', 7)) if s.draw(3) else self.expr('i', 1)
            pool = [0, 1, 2, 3, 4, 5, 6, 7] if s.draw(3) else [0, 1, 2, 5, 7, 100, 253, 254, 255, 256, 1000, 65536, 70000, 2147483647]
        n = s.int(0, 5)
        for _ in range(n):
            x = s.pick(pool)
            if x not in labs:
                labs.append(x)
        if s.draw(3):
            labs.insert(s.int(0, len(labs)), 'default')
        cases = []
        self.loopkind.append('switch')
        try:
            for l in labs:
                b = [] if s.chance(1, 6) else self.body(d - 1, 2)
                if s.draw(3) and (not b or b[-1][0] not in ('break', 'continue', 'return')):
                    b.append(('break',))
                cases.append((l, b))
        finally:
            self.loopkind.pop()
        return ('switch', e, cases)

    # -- functions
    def function(self, pure, rec=False):
        s = self.s
        np_ = s.int(0, 4)
        ret = s.pick(self.scalar_types())
        f = Func(self.name('f'), [], [], ret)
        f.done = False
        f.wantpure = pure
        f.shadowed = set()
        self.fn = f
        self.loc = []
        sg = [v.name for v in self.vars if not v.hidden]
        for i in range(np_):
            t = s.pick(self.scalar_types())
            if self.o['arrays'] and s.chance(1, 6):
                t = ('a', 'i')
                if not any(v.t == t for v in self.vars):
                    t = 'i'
            nm = self.name('p')
            if self.o['shadow'] and sg and s.chance(1, 6):
                nm = s.pick(sg)
                if nm in f.params:
                    nm = self.name('p')
            f.params.append(nm)
            f.ptypes.append(t)
            self.loc.append(Var(nm, t, 'p', n=0))
            f.shadowed.add(nm)
        self.p.funcs[f.name] = f
        # shadowing locals come first
        body = []
        if self.o['shadow'] and sg and s.chance(1, 3):
            nm = s.pick(sg)
            if nm not in f.params:
                f.shadowed.add(nm)
                st = self.decl(s.pick(self.scalar_types()), 'l', name=nm)
                body.append(st)
        nd, self.nestd = self.nestd, 0
        if rec:
            # bounded recursion on the first parameter
            nm = self.name('p')
            f.params.insert(0, nm)
            f.ptypes.insert(0, 'i')
            self.loc.insert(0, Var(nm, 'i', 'p', ro=True))
            f.shadowed.add(nm)
            base = self.expr(ret, 1)
            body.append(('if', [(('bin', '<=', ('var', nm), ('lit', 0)), [('return', base)])], None))
            body += self.stmts(s.int(0, 2), 1)
            args = [('bin', '-', ('bin', '&', ('var', nm), ('lit', 7)), ('lit', 1))]
            for t in f.ptypes[1:]:
                a = self.expr(t, 1)
                if a[0] in ('var', 'gvar', 'idx', 'mem') and not isinstance(t, tuple):
                    a = {'i': ('bin', '+', a, ('lit', 0)), 'f': ('bin', '*', a, ('lit', 1.0)), 's': ('bin', '+', a, ('lit', b''))}[t]
                args.append(a)
            call = ('call', f.name, args)
            if body[-1][0] not in ('return',):
                if not f.pure:
                    # operands are evaluated in no particular order
                    body.append(('return', call))
                elif ret == 's':
                    body.append(('return', ('bin', '+', ('lit', b'r'), call)))
                else:
                    body.append(('return', ('bin', s.pick(['+', '-']), call, self.expr(ret, 1))))
        else:
            body += self.stmts(s.int(1, 5), 2)
            if not body or body[-1][0] != 'return':
                if ret == 'i' and s.chance(1, 8):
                    pass
                else:
                    body.append(('return', self.expr(ret)))
        self.nestd = nd
        f.body = body
        f.done = True
        self.fn = None
        self.loc = None
        self.p.order.append(('f', f.name))
        return f

    def structdef(self):
        s = self.s
        nm = self.name('S')
        params = [self.name('q') for _ in range(s.draw(3))]
        fields, types = [], []
        old, self.vars = self.vars, [Var(p, 'i', 'g') for p in params]
        self.loc, oldl = None, self.loc
        oldf, self.p.funcs = self.p.funcs, {}
        for i in range(s.int(1, 5)):
            t = s.pick(self.scalar_types())
            init = None
            if s.draw(3) == 0:
                init = self.expr(t, 1)
            fields.append((self.name('m'), init))
            types.append(t)
        self.vars, self.loc, self.p.funcs = old, oldl, oldf
        self.p.structs[nm] = StructDef(nm, params, fields, types)
        self.p.order.append(('s', nm))

    # -- whole program
    def program(self):
        s, o, p = self.s, self.o, self.p
        # globals the functions can use
        pre = []
        oh, self.o = self.o, dict(self.o, structs=0)
        for _ in range(s.int(1, o['globals'])):
            pre.append(self.decl(None, 'g'))
        self.o = oh
        for st in pre:
            p.order.append(('st', st))
        if o['structs']:
            for _ in range(s.draw(3)):
                self.structdef()
        for i in range(s.int(0, o['funcs']) if o['funcs'] else 0):
            self.function(pure=bool(s.draw(2)), rec=bool(o['recursion'] and s.chance(1, 4)))
        main = list(pre)
        p.pre = len(pre)
        main += self.stmts(s.int(2, o['stmts']), o['depth'])
        if main and main[-1][0] == 'return':
            main.pop()
        # show the whole final state
        vs = [v for v in self.vars if not v.hidden]
        for i in range(0, len(vs), 6):
            args = []
            for v in vs[i:i + 6]:
                if isinstance(v.t, tuple) and v.t[0] == 'S':
                    sd = p.structs[v.t[1]]
                    for f, _ in sd.fields:
                        args.append(('mem', ('var', v.name), f))
                else:
                    args.append(('var', v.name))
            if args:
                main.append(('expr', ('host', 'out', args)))
        p.main = main
        return p
