"""Literals, enums and library constants have the value they are written with, wherever they are used."""
import struct
from ..core import *
from .c15 import d, arg, w32

NAMES = ['A', 'AB', 'ABC', 'A1', 'A_', 'n0', 'n1', 'n10', 'red', 'Red', 'RED', 'e', 'E', 'varx', 'iff', 'forx', 'truex', 'intx', '_u', '_', 'outx', 'x0', 'returnx', 'K', 'KK', 'new_', 'nullx', 'z9z', 'enumx', 'f1']
SPACES = ['Color', 'C', 'Co', 'Colors', 'S_1', 'Status', 'tst2']


def f32(v):
    return struct.unpack('<f', struct.pack('<f', v))[0]


class G:
    def __init__(self, s):
        self.s = s
        self.src = []
        self.out = []
        self.cl = set()
        self.n = 0
        self.glob = {}      # text -> value, visible everywhere from here on
        self.used = set()
        self.nuse = 0
        self.lib = set()      # not known to the compiler: no keys of literals or case labels

    def fresh(self, p='v'):
        self.n += 1
        return 'q%s%d' % (p, self.n)

    # -------------------------------------------------------------- literals
    def intlit(self, small=False):
        """(text, value) of a non-negative literal"""
        s = self.s
        v = s.draw(10) if small else s.pick([0, 1, 7, 8, 9, 10, 63, 64, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 16777216, 2147483646, 2147483647, 2147483648, 4294967295, 3000000000]) if s.draw(2) else s.draw(1 << s.int(1, 31))
        k = s.draw(6)
        if k == 0:
            t = ('%x' if s.draw(2) else '%X') % v
            t = '0x' + '0' * s.draw(3) + t
        elif k == 1 and v < 2**31:
            t = '0b' + '0' * s.draw(3) + bin(v)[2:]
        elif k == 2 and v < 2**31 and v:
            t = '0' * s.int(1, 2) + oct(v)[2:]
        else:
            t = str(v)
        if k <= 2 and t[0] == '0':
            self.cl.add('radix')
        return t, w32(v)

    def fltlit(self):
        s = self.s
        k = s.draw(6)
        a = s.pick([0, 1, 3, 12, 255, 1000, 65536, 123456])
        b = s.pick(['0', '5', '25', '125', '001', '1', '333333', '9999'])
        t = ['%d.%s' % (a, b), '%d.' % a, '.' + b, '%d.%sf' % (a, b), '%df' % a, '%d.f' % a][k]
        self.cl.add('float literal')
        return t, f32(float(t.rstrip('f')))

    def chrlit(self):
        s = self.s
        c = s.pick(["a", "Z", "0", " ", "~", '"', "/", "*", "}", ";", "#"]) if s.draw(3) else None
        self.cl.add('character literal')
        if c:
            return "'%s'" % c, ord(c)
        t, v = s.pick([('\\n', 10), ('\\r', 13), ('\\t', 9), ("\\'", 39), ('\\"', 34), ('\\\\', 92), ('\\0', 0), ('\\065', 65), ('\\0127', 127)])
        return "'%s'" % t, v

    def strlit(self):
        s = self.s
        t = ''
        v = b''
        for _ in range(s.draw(12) if s.draw(10) else s.int(200, 600)):
            k = s.draw(8)
            if k == 0:
                a, b = s.pick([('\\n', b'\n'), ('\\r', b'\r'), ('\\t', b'\t'), ("\\'", b"'"), ('\\"', b'"'), ('\\\\', b'\\')])
            elif k == 1:
                c = s.pick([0, 1, 7, 65, 127, 128, 200, 255])
                a, b = '\\0%s%d_' % ('0' * s.draw(2), c), bytes([c]) + b'_'
            elif k == 2:
                a = s.pick(['//', '/*', '*/', '{', '}', ';', 'A', 'red', "'", '%d', '::', ' ', 'tst::KI', '\t'])
                b = a.encode()
            else:
                c = s.int(32, 126)
                if c in (34, 92):
                    c = 97
                a, b = chr(c), bytes([c])
            t += a
            v += b
        self.cl.add('string literal')
        return '"%s"' % t, v

    def lit(self):
        k = self.s.draw(10)
        if k <= 3:
            return self.intlit()
        if k == 4:
            t, v = self.intlit()
            return '-' + t, w32(-v)
        if k == 5:
            t, v = self.fltlit()
            return t, v
        if k == 6:
            t, v = self.fltlit()
            return '-' + t, -v
        if k == 7:
            return self.chrlit()
        if k == 8:
            return self.strlit()
        return self.s.pick([('true', 1), ('false', 0), ('null', 0)])

    # -------------------------------------------------------------- enums
    def enum(self, scope, ns, names):
        s = self.s
        mem = []
        n = 0
        for nm in names:
            k = s.draw(6)
            if k <= 2:
                mem.append(nm)
                v = n
            elif k <= 4:
                if s.draw(4) == 0:
                    t, v = self.chrlit()
                else:
                    t, v = self.intlit()
                    if s.draw(3) == 0:
                        t, v = '-' + (' ' if s.draw(3) == 0 else '') + t, w32(-v)
                mem.append('%s = %s' % (nm, t))
            else:
                t, v = self.fltlit()
                if s.draw(3) == 0:
                    t, v = '-' + t, -v
                mem.append('%s = %s' % (nm, t))
            scope[(ns + '::' if ns else '') + nm] = v
            n = w32(v + 1) if isinstance(v, int) else w32(n + (1 if k > 4 else 0))
        self.cl.add('named enum' if ns else 'enum')
        sep = s.pick([', ', ',\n\t', ','])
        return 'enum %s{ %s%s }%s' % (ns + ' ' if ns else '', sep.join(mem), ',' if s.draw(3) == 0 else '', ';' if s.draw(2) else '\n')

    def names(self, taken, n):
        s = self.s
        l = []
        for _ in range(n):
            nm = s.pick(NAMES)
            if nm not in taken and nm not in l:
                l.append(nm)
        return l or [self.fresh('e')]

    # -------------------------------------------------------------- uses
    def use(self, vis):
        """statements that use one constant, and what they print"""
        s = self.s
        if vis and s.draw(5):
            t = s.pick(sorted(vis))
            v = vis[t]
            const = True
        else:
            t, v = self.lit()
            const = False
        self.nuse += 1
        o = self.out
        x = self.fresh()
        neg = t.startswith('-')
        k = s.draw(15)
        num = isinstance(v, (int, float))
        if t in self.lib and k in (6, 9):
            k = 0
        if k == 0:
            o.append(d(v))
            return 'out( %s );' % t
        if k == 1:
            o.append('%s %s %s' % (d(v), d(1), d(v)))
            return 'out( %s, 1, %s );' % (t, t)
        if k == 2:
            o.append(d(v))
            return 'var %s = %s; out( %s );' % (x, t, x)
        if k == 3:
            o.append(d(v))
            return 'var %s = 1; %s = %s; out( %s );' % (x, x, t, x)
        if k == 4 and isinstance(v, int):
            a = s.int(-9, 99)
            o.append('%s %s %s %s' % (d(w32(v + a)), d(w32(a - v)), d(w32(v * a)), d(w32(v + 1))))
            self.cl.add('arithmetic')
            return 'var %s = %d; out( %s + %s, %s - (%s), (%s) * %s, %s + 1 );' % (x, a, t, x, x, t, t, x, t)
        if k == 4 and isinstance(v, float):
            o.append('%s %s' % (d(f32(v + 1)), d(f32(2 - v))))
            return 'var %s = 2; out( %s + 1, %s - (%s) );' % (x, t, x, t)
        if k == 5:
            o.append('[%s,%s]' % (d(v), d(v)))
            return 'var %s[] = { %s, %s }; out( %s );' % (x, t, t, x)
        if k == 6 and not neg:
            if isinstance(v, float):
                return self.use(vis)
            w = s.int(0, 99)
            o.append('{%s:%s} %s' % (d(v), d(w), d(w)))
            self.cl.add('key')
            return 'var %s = { %s: %d }; out( %s, %s[%s] );' % (x, t, w, x, x, t)
        if k == 7:
            o.append('{%s:%s}' % (d(5), d(v)))
            return 'var %s = { 5: %s }; out( %s );' % (x, t, x)
        if k == 8 and isinstance(v, int) and 0 <= v < 40:
            o.append(d(v * 3))
            self.cl.add('index')
            return 'var %s[40]; %s[%s] = %d; out( %s[%d] );' % (x, x, t, v * 3, x, v)
        if k == 9 and isinstance(v, int) and v >= 0 and not neg:
            other = s.pick([w32(v ^ 1), w32(v + 1000)])
            if other < 0:
                return self.use(vis)
            sel = s.pick([v, other])
            o.append(d(1 if sel == v else 2))
            self.cl.add('case label')
            return 'var %s = %d; switch( %s ) { case %d: out( 2 ); break; case %s: out( 1 ); break; default: out( 3 ); }' % (x, sel, x, other, t)
        if k == 9 and isinstance(v, bytes):
            o.append(d(1))
            self.cl.add('case label')
            return 'var %s = %s; switch( %s ) { case 7: out( 2 ); break; case %s: out( 1 ); break; default: out( 3 ); }' % (x, t, x, t)
        if k == 10:
            o.append(d(v))
            return 'out( id( %s ) );' % t
        if k == 11:
            self.out_fn = True
            o.append(d(v))
            self.pre.append('function %s() { return %s; }' % (x, t) if not const or t in self.glob else 'function %s() { %s return 1; }' % (x, ''))
            if const and t not in self.glob:
                o.pop()
                self.pre.pop()
                o.append(d(v))
                return 'out( %s );' % t
            return 'out( %s() );' % x
        if k == 12 and isinstance(v, int):
            o.append('%s %s' % (d(1 if v else 0), d(1)))
            return 'var %s = 0; if ( %s ) { %s = 1; } out( %s, %s == %d );' % (x, t, x, x, t, v)
        if k == 13 and num:
            a = s.int(0, 50)
            r = w32(a + v) if isinstance(v, int) else f32(a + v)
            o.append(d(r))
            return 'var %s = %d; %s += %s; out( %s );' % (x, a, x, t, x)
        if k == 14 and const and num:
            o.append(d(w32(-v) if isinstance(v, int) else -v))
            return 'out( -%s );' % t
        o.append(d(v))
        return 'out( %s );' % t


class C27(Prop):
    id = 'C27'
    configs = ['default', 'compact', 'amalgam']
    quick = 60000
    thorough = 1000000
    rule = ('a case is a program of enums (anonymous, named, global and local to functions, with values of every kind), library constants registered by the host, and up to 40 uses of them and of literals in every '
            'notation as operands, arguments, elements, keys, indices, case labels and return values; non-trivial with at least four uses')
    assumptions = ['an enum name is not also used as a member name', 'characters of character literals are below 128']

    def gen(self, s):
        g = G(s)
        regs = []
        pre = 'function id( p ) { return p; }\n'
        g.pre = []
        lib = {}
        for nm in ['my::K', 'my::KK', 'm::K', 'tst::KI2', 'my::A', 'lib_9::x_y']:
            if s.draw(2):
                v = s.pick([0, 1, -1, 77, 2147483647, -2147483648, 65536, 1.5, -0.25, 1000000.0, s.int(-99999, 99999)])
                if s.draw(4) == 0:
                    regs.append((['regconst', 1, nm, arg(s.draw(50))], None))     # registered again below: the last one counts
                regs.append((['regconst', 1, nm, arg(v)], None))
                lib[nm] = v
                g.cl.add('library constant')
        lib['tst::KI'] = -12345
        lib['tst::KF'] = 2.5
        g.lib = set(lib)
        parts = []
        glob = g.glob
        glob.update(lib)
        taken = set()
        spaces = set()
        for _ in range(s.int(1, 5)):
            k = s.draw(4)
            if k == 0:
                l = g.names(taken, s.int(1, 5))
                taken.update(l)
                parts.append(g.enum(glob, '', l))
            elif k == 1:
                ns = s.pick(SPACES)
                if ns not in spaces and ns not in taken:
                    spaces.add(ns)
                    l = g.names(taken, s.int(1, 5))
                    parts.append(g.enum(glob, ns, l))
            elif k == 2:
                # a function with constants of its own
                fn = g.fresh('f')
                loc = {}
                l = g.names(taken, s.int(1, 4))
                e = g.enum(loc, '', l) if s.draw(3) else ''
                ns = s.pick(SPACES)
                if ns not in spaces and ns not in taken and s.draw(3) == 0:
                    e += g.enum(loc, ns, g.names(list(taken) + l, s.int(1, 3)))
                vis = dict(glob)
                vis.update(loc)
                save = g.out
                g.out = []
                body = [g.use(vis) for _ in range(s.int(1, 6))]
                fo = g.out
                g.out = save
                parts.append('\n'.join(g.pre) + '\nfunction %s() {\n %s %s\n return 0; }\n' % (fn, e, '\n '.join(body)))
                g.pre = []
                if s.draw(4):
                    parts.append('%s();' % fn)
                    g.out += fo
                g.cl.add('local enum')
            u = [g.use(glob) for _ in range(s.int(0, 6))]
            parts += g.pre + u
            g.pre = []
        src = pre + '\n'.join(parts)
        err = 0
        if s.draw(12) == 0:
            src += '\nout( %s );' % s.pick(['my::nothing', 'nolib::K', 'my::Q', 'tst::K'])
            err = 5
            g.cl.add('missing library constant')
        return dict(src=src, regs=regs, out=g.out, err=err, cfg=s.pick(self.configs), cl=sorted(g.cl), nt=g.nuse >= 4, flags=s.pick([1, 3, 0]))

    def run(self, case, eng):
        ops = ([['newstate', 1, 500, 1, -1, 0]] + [o for o, _ in case['regs']] +
               [['compile', 1, case['flags'], 0, case['src'] + '\n'], ['run', 1, 1, 1, 0], ['log'], ['err', 1], ['killstate', 1]])
        r = eng[case['cfg']].req(ops)
        n = 1 + len(case['regs'])
        if r[n][0] != b'0':
            raise Violation('[%s] does not compile: %r' % (case['cfg'], r[n]))
        want = ''.join(x + '\n' for x in case['out']).encode('latin-1')
        if r[n + 2] != [want]:
            a, b = r[n + 2][0].split(b'\n'), want.split(b'\n')
            for i in range(max(len(a), len(b))):
                x, y = a[i:i + 1], b[i:i + 1]
                if x != y:
                    raise Violation('[%s] line %d prints %r, expected %r' % (case['cfg'], i, x, y))
        if r[n + 3] != [b'%d' % case['err']]:
            raise Violation('[%s] error %r, expected %d' % (case['cfg'], r[n + 3], case['err']))
        if r[-1] != [b'0', b'0']:
            raise Violation('[%s] leak %r' % (case['cfg'], r[-1]))
        return case['nt'], case['cl'] + [case['cfg']]

    def render(self, case):
        return '// %s\n// %r\n%s\n/* expected:\n%s */' % (case['cfg'], case['regs'], case['src'], '\n'.join(case['out']))


PROP = C27()
