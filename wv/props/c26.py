"""Host memory handed to a script through containers, references and raw arrays: the script sees and changes exactly it, and nothing beside it."""
import struct
from ..core import *
from .c15 import d, arg, w32

INTS = [0, 1, -1, 7, 127, 128, 200, 255, 256, -300, 65535, 65536, 2147483647, -2147483648]
FLTS = [0.5, -1.25, 3.0, 1000.5, 0.0]
NAMES = ['a', 'b', 'name', 'x1', '_i', '_f', 'count', 'integer', 'some_long_member_name_that_goes_on', 'raw', 'q', 'zz', 'K', 'v0', 'v1', 'v2', 'v3', 'v4', 'v5', 'v6', 'v7']
SIZES = [1, 1, 2, 3, 5, 10, 16, 255, 256, 257, 300, 4096, 65535, 65536, 70000]


def f32(v):
    return struct.unpack('<f', struct.pack('<f', v))[0]


class B:
    def __init__(self, s):
        self.s = s
        self.pre = []           # host operations before the script runs
        self.ops = []
        self.C = {}             # container slot -> {name: entry}
        self.raw = {}           # buffer id -> bytearray
        self.val = {}           # value slot -> scalar
        self.n = 1
        self.cl = set()

    def new(self):
        self.n += 1
        return self.n

    def scalar(self):
        return self.s.pick(FLTS) if self.s.draw(4) == 0 else self.s.pick(INTS) if self.s.draw(2) else self.s.int(-1000, 1000)

    def op(self, o, want=None):
        self.ops.append((o, want))

    def field(self, c, nm, depth=0):
        s = self.s
        k = s.draw(10)
        if k <= 1:
            v = s.pick(INTS)
            self.op(['contint', c, nm, v])
            self.C[c][nm] = ['n', v]
        elif k == 2:
            v = f32(s.pick(FLTS))
            self.op(['contflt', c, nm, '%08x' % struct.unpack('<I', struct.pack('<f', v))[0]])
            self.C[c][nm] = ['n', v]
        elif k <= 5:
            sl = s.pick(sorted(self.val)) if self.val and s.draw(4) == 0 else None
            if sl is None:
                sl = self.new()
                v = self.scalar()
                self.op(['setval', sl, arg(v)])
                self.val[sl] = v
            self.op(['contval', c, nm, sl])
            self.C[c][nm] = ['ref', sl]
        elif k == 6 and depth < 2:
            sub = self.cont(depth + 1)
            self.op(['contval', c, nm, sub])
            self.C[c][nm] = ['sub', sub]
            self.cl.add('nested container')
        else:
            b = s.pick(sorted(self.raw)) if self.raw and s.draw(5) == 0 else None
            if b is None:
                b = self.new()
                n = 2097151 if s.draw(400) == 399 else s.pick(SIZES) if s.draw(3) == 0 else s.int(1, 20)
                data = bytearray((i * 37 + b * 11) & 255 for i in range(n)) if n > 300 else bytearray(s.draw(256) for _ in range(n))
                self.op(['setbuf', b, bytes(data)])
                self.raw[b] = data
            self.op(['contarr', c, nm, b])
            self.C[c][nm] = ['raw', b]

    def cont(self, depth=0):
        s = self.s
        c = self.new()
        self.op(['mkcont', c, s.pick([0, 0, 0, 1, 5, 16])])
        self.C[c] = {}
        for _ in range(s.int(1, 6 if s.draw(5) else 18)):
            self.field(c, s.pick(NAMES), depth)
        return c

    def paths(self, c, pre):
        for nm, e in sorted(self.C[c].items()):
            yield pre, nm, e
            if e[0] == 'sub':
                for x in self.paths(e[1], pre + [nm]):
                    yield x

    def get(self, e):
        return e[1] if e[0] == 'n' else self.val[e[1]]

    def put(self, e, v):
        if e[0] == 'n':
            e[1] = v
        else:
            self.val[e[1]] = v


class C26(Prop):
    id = 'C26'
    configs = ['default', 'compact', 'slices', 'amalgam']
    quick = 30000
    thorough = 400000
    rule = ('a case builds host containers of integers, floats, references to host values, raw byte arrays (1 to 70000 bytes) and nested containers, and a script whose functions read and write them by every '
            'form of access, interleaved with changes made by the host; non-trivial with at least four accesses and one write')
    assumptions = ['only integers and floats are stored into host containers by scripts', 'raw arrays are accessed by element', 'bytes are stored from integers']

    def gen(self, s):
        b = B(s)
        top = [b.cont() for _ in range(s.int(1, 2))]
        ops0 = b.ops
        b.ops = []
        nf = s.int(1, 4)
        fns = []
        src = 'var G; var gi; var gv = 3;\nfunction peek( r, i ) { return r[i]; }\nfunction poke( r, i, v ) { r[i] = v; return r[i]; }\nfunction rd( c ) { return c; }\nfunction keep( c ) { G = c; return 1; }\n'
        plan = []
        acc = wr = 0
        for k in range(nf):
            c = s.pick(top)
            useG = s.draw(4) == 0
            D = 'G' if useG else 'data'
            body = []
            out = []
            host = []
            if not useG and s.draw(2):
                # changes by the host before the call
                for _ in range(s.draw(3)):
                    pre, nm, e = s.pick(list(b.paths(c, [])))
                    if e[0] == 'raw':
                        i = s.draw(len(b.raw[e[1]]))
                        v = s.draw(256)
                        b.raw[e[1]][i] = v
                        host.append((['pokebuf', e[1], i, v], None))
                    elif e[0] == 'ref':
                        v = b.scalar()
                        b.val[e[1]] = v
                        host.append((['setval', e[1], arg(v)], None))
                    elif e[0] == 'n' and not pre:
                        v = s.pick(INTS)
                        e[1] = v
                        host.append((['contint', c, nm, v], None))
                    b.cl.add('host changes')
            for _ in range(s.int(1, 10)):
                pre, nm, e = s.pick(list(b.paths(c, [])))
                base = D + ''.join('.' + x if s.draw(3) else '["%s"]' % x for x in pre)
                p = base + ('.' + nm if s.draw(3) or nm == 'count' else '["%s"]' % nm)
                acc += 1
                if e[0] == 'sub':
                    body.append('var t%d = %s; out( t%d._count );' % (len(body), p, len(body)))
                    out.append(d(len(b.C[e[1]])))
                    continue
                if e[0] == 'raw':
                    data = b.raw[e[1]]
                    n = len(data)
                    i = s.pick([0, n - 1, s.draw(n), s.draw(n), n, n + 1, n + 1000, 2097150, -1, -2147483648]) if s.draw(3) == 0 else s.draw(n)
                    inb = 0 <= i < n
                    j = s.draw(4)
                    if j == 1:
                        body.append('var i%d = %d;' % (len(body), i))
                        ix = 'i%d' % (len(body) - 1)
                    elif j == 2:
                        body.append('gi = %d;' % i)
                        ix = 'gi'
                    elif j == 3 and i < 2**31 - 1:
                        ix = '%d + 1' % (i - 1) if i > -2**31 else str(i)
                    else:
                        ix = str(i)
                    m = s.draw(8)
                    alias = s.draw(4) == 0
                    if alias:
                        body.append('var r%d = %s;' % (len(body), p))
                        p = 'r%d' % (len(body) - 1)
                        b.cl.add('alias')
                    cur = data[i] if inb else 0
                    if not inb:
                        b.cl.add('out of bounds')
                        m = s.pick([0, 1, 3])
                    if m <= 1:
                        body.append(s.pick(['out( %s[%s] );', 'var z%d = %%s[%%s]; out( z%d );' % (len(body), len(body)), 'out( peek( %s, %s ) );', 'out( %s[%s] + 0 );']) % (p, ix))
                        out.append(d(cur))
                    elif m == 2:
                        body.append('out( %s._count );' % p)
                        out.append(d(n))
                    elif m <= 5:
                        v = s.pick(INTS) if s.draw(2) else s.draw(256)
                        if inb and s.draw(3) == 0:
                            body.append('out( poke( %s, %s, %d ) );' % (p, ix, v))
                            out.append(d(v & 255))
                        else:
                            body.append('%s[%s] = %d;' % (p, ix, v))
                        if inb:
                            data[i] = v & 255
                            wr += 1
                    else:
                        v = s.int(1, 300)
                        if m == 6:
                            body.append('%s[%s] += %d; out( %s[%s] );' % (p, ix, v, p, ix))
                            data[i] = (cur + v) & 255
                        else:
                            body.append('%s%s[%s]; out( %s[%s] );' % (s.pick(['++', '--']), p, ix, p, ix))
                            data[i] = (cur + (1 if body[-1][0] == '+' else -1)) & 255
                        out.append(d(data[i]))
                        wr += 1
                    b.cl.add('raw array')
                    continue
                cur = b.get(e)
                m = s.draw(9)
                if m <= 2:
                    body.append(s.pick(['out( %s );', 'var t%d = %%s; out( t%d );' % (len(body), len(body)), 'out( rd( %s ) );']) % p)
                    out.append(d(cur))
                elif m <= 5:
                    v = b.scalar()
                    body.append('%s = %s;' % (p, ('%.4f' % v if isinstance(v, float) else '%d' % v) if s.draw(3) or not isinstance(v, int) or v != 3 else 'gv'))
                    b.put(e, v)
                    wr += 1
                elif m == 6 and isinstance(cur, int):
                    v = s.int(1, 1000)
                    o = s.pick('+-*|^')
                    body.append('%s %s= %d;' % (p, o, v))
                    b.put(e, w32({'+': cur + v, '-': cur - v, '*': cur * v, '|': cur | v, '^': cur ^ v}[o]))
                    wr += 1
                elif m == 7 and isinstance(cur, int):
                    body.append('out( %s%s );' % (s.pick(['++', '--']), p))
                    b.put(e, w32(cur + (1 if '++' in body[-1] else -1)))
                    out.append(d(b.get(e)))
                    wr += 1
                elif isinstance(cur, int):
                    body.append('out( %s%s );' % (p, s.pick(['++', '--'])))
                    b.put(e, w32(cur + (1 if '++' in body[-1] else -1)))
                    out.append(d(cur))
                    wr += 1
                b.cl.add('reference' if e[0] == 'ref' else 'number')
            rv = s.int(0, 99)
            src += 'function f%d( data ) {\n  %s\n  return %d; }\n' % (k, '\n  '.join(body), rv)
            plan += host
            if useG:
                plan.append((['call', 1, 'keep', 'v%d' % c], [b'i1', b'0', b'0']))
                plan.append((['call', 1, 'f%d' % k], [b'i%d' % rv, b'0', b'0']))
                b.cl.add('kept in a global')
            else:
                plan.append(([s.pick(['call', 'callh']), 1, 'f%d' % k, 'v%d' % c], [b'i%d' % rv, b'0', b'0']))
            plan.append((['log'], [''.join(x + '\n' for x in out).encode()]))
            # what the host finds
            for x, data in sorted(b.raw.items()):
                plan.append((['getbuf', x], [bytes(data)]))
            for x, v in sorted(b.val.items()):
                plan.append((['dumpval', x], [d(v).encode()]))
            for cc in sorted(b.C):
                for nm, e in sorted(b.C[cc].items()):
                    if e[0] in ('n', 'ref') and s.draw(2):
                        plan.append((['contget', cc, nm], [d(b.get(e)).encode()]))
            if useG:
                plan.append((['setglobal', 1, 'G', 'i0'], [b'i0']))
        ops = ([(['newstate', 1, 200, 1, s.pick([-1, 0, 0, 300]), 0], [b'ok'])] + ops0 +
               [(['compile', 1, s.pick([1, 3, 9]), s.draw(2), src], [b'0']), (['run', 1, 1, 1, 0], [b'ok', b'0'])] + plan)
        kill = [(['killcont', c], None) for c in sorted(b.C, key=lambda c: s.draw(100))]
        ops += kill + [(['killstate', 1], None)] if s.draw(2) else [(['killstate', 1], None)] + kill
        return dict(ops=ops, cl=sorted(b.cl), cfg=s.pick(self.configs), nt=acc >= 4 and wr >= 1, src=src)

    def run(self, case, eng):
        ops = case['ops']
        r = eng[case['cfg']].req([o for o, _ in ops])
        for i, (o, want) in enumerate(ops):
            if want is not None and r[i][:len(want)] != want:
                raise Violation('[%s] step %d %r gives %r, expected %r' % (case['cfg'], i, o if o[0] != 'compile' else 'compile', r[i], want))
        if r[-1] != [b'0', b'0']:
            raise Violation('[%s] leak %r' % (case['cfg'], r[-1]))
        return case['nt'], case['cl'] + [case['cfg']]

    def render(self, case):
        return '// %s\n%s\n' % (case['cfg'], case['src']) + '\n'.join('%r  ->  %r' % (o, w) for o, w in case['ops'] if o[0] != 'compile')


PROP = C26()
