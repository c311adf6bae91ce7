"""The host sees and drives exactly what the scripts have; contexts and states do not disturb one another."""
import struct
from ..core import *
from .. import gen

LONG = 'g' + 'lobal_with_a_rather_long_name_' * 3


def d(v):
    if v is None:
        return 'NULL'
    if isinstance(v, int):
        return 'i%d' % v
    if isinstance(v, float):
        return 'f%08x' % struct.unpack('<I', struct.pack('<f', v))[0]
    if isinstance(v, list):
        return '[%s]' % ','.join(d(x) for x in v)
    if isinstance(v, dict):
        return '{%s}' % ','.join(sorted('%s:%s' % (d(k), d(x)) for k, x in v.items()))
    return '"%s"' % ''.join(chr(c) if 32 <= c <= 126 and c not in (34, 92) else '\\x%02x' % c for c in v)


def arg(v):
    if isinstance(v, int):
        return b'i%d' % v
    if isinstance(v, float):
        return b'f%08x' % struct.unpack('<I', struct.pack('<f', v))[0]
    return b's' + v


def lit(v):
    return gen_lit(v)


def gen_lit(v):
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return '%.4f' % v
    return '"%s"' % v.decode()


def w32(v):
    return (v + 2**31) % 2**32 - 2**31


SRC = '''
blank pre1; var blank pre2; blank var pre3; var pcopy = pre1;
var a = %(a)s; var s = "%(s)s"; var arr[] = { %(arr)s }; var h = { "k0": %(a)s, "k1": 7 }; var cnt = 0; var %(long)s = %(k)d; var junk;
function seta( v ) { ++cnt; a = v; return a; }
function geta() { ++cnt; return a; }
function swap( v ) { var o = a; a = v; return o; }
function three( p, q, r ) { ++cnt; out( p, q, r ); return q; }
function noret( p ) { a = p; }
function at( i ) { return arr[i]; }
function push( v ) { arr[arr._count] = v; return arr._count; }
function whole() { return arr; }
function table() { return h; }
function put( k, v ) { h[k] = v; return h._count; }
function get( k ) { if ( h._exists( k ) ) { return h[k]; } return "none"; }
function del( k ) { hash::remove( h, k ); return h._count; }
function cat( p ) { s = s + p; return s; }
function pair( p, q ) { var x[] = { p, q, a }; junk = { 1: p, 2: q }; return x; }
function host( p, q ) { return hsum( p, q ) + husr7() * 100 + husr9(); }
function hosts( p, q ) { return hstr( p, q ); }
function ctx() { return hctx(); }
function rec( n ) { ++cnt; if ( n <= 0 ) { return cnt; } var r = rec( n - 1 ); return r + 1; }
function y( v, u ) { ++cnt; var g = yield( v, u, a ); var l[] = { v, g }; junk = l; return l; }
function y2( v ) { var g = yield( v ); a = yield( g, v, 3 ); return v; }
function mw( k, v ) { msg::write( k, v ); return 0; }
function mr( k, c ) { if ( msg::peek( k ) ) { return msg::read( k, c ); } return "no"; }
function bad( v ) { a = v; return nosuch%(k)d( v ); }
function isf( n ) { return sys::isFunction( n ); }
function usr( e ) { sys::halt( e ); return 4; }
function %(long)s_f( p ) { return %(long)s + p; }
return %(k)d;
'''
NAMES = ['seta', 'geta', 'swap', 'three', 'noret', 'at', 'push', 'whole', 'table', 'put', 'get', 'del', 'cat', 'pair', 'host', 'hosts', 'ctx', 'rec', 'y', 'y2', 'mw', 'mr', 'bad', 'usr', 'isf', LONG + '_f']

ISF = {b'seta': 2, b'geta': 2, b'isf': 2, LONG.encode() + b'_f': 2, b'out': 1, b'hsum': 1, b'tst::log': 1, b'math::abs': 1, b'sys::isFunction': 1, b'nope': 0, b'seta2': 0, b'Seta': 0, b'a': 0, b'arr': 0, b'': 0, b'math::nope': 0}


class Ctx:
    """model of one context"""
    def __init__(self, st, v, s, arr, k):
        self.st = st
        self.init = (v, s, arr, k)
        self.G = None
        self.pre = {'pre1': 0, 'pre2': 0, 'pre3': 0}      # globals the host may fill in before the script runs
        self.local = 0
        self.yielded = None
        self.out = ''

    def start(self):
        v, s, arr, k = self.init
        self.G = {'a': v, 's': s, 'arr': list(arr), 'h': {b'k0': v, b'k1': 7}, 'cnt': 0, LONG: k, 'junk': 0}
        self.G.update(self.pre)
        self.G['pcopy'] = self.pre['pre1']

    def call(self, f, args):
        """(value, error, yielded) ; value None after an error or a yield"""
        G = self.G
        st = self.st

        def p(i):
            return args[i] if i < len(args) else 0
        if f == 'seta':
            G['cnt'] += 1
            G['a'] = p(0)
            return G['a'], 0
        if f == 'geta':
            G['cnt'] += 1
            return G['a'], 0
        if f == 'swap':
            o, G['a'] = G['a'], p(0)
            return o, 0
        if f == 'three':
            G['cnt'] += 1
            self.out += ' '.join(d(p(i)) for i in range(3)) + '\n'
            return p(1), 0
        if f == 'noret':
            G['a'] = p(0)
            return 0, 0
        if f == 'at':
            return G['arr'][p(0)], 0
        if f == 'push':
            G['arr'].append(p(0))
            return len(G['arr']), 0
        if f == 'whole':
            return G['arr'], 0
        if f == 'table':
            return G['h'], 0
        if f == 'put':
            G['h'][p(0)] = p(1)
            return len(G['h']), 0
        if f == 'get':
            return G['h'].get(p(0), b'none'), 0
        if f == 'del':
            G['h'].pop(p(0), None)
            return len(G['h']), 0
        if f == 'cat':
            G['s'] += p(0)
            return G['s'], 0
        if f == 'pair':
            G['junk'] = {1: p(0), 2: p(1)}
            return [p(0), p(1), G['a']], 0
        if f == 'host':
            return w32(p(0) * 31 + p(1) + 709), 0
        if f == 'hosts':
            return (d(p(0)) + d(p(1))).encode(), 0
        if f == 'ctx':
            return st.ctx * 1000 + self.local, 0
        if f == 'rec':
            G['cnt'] += p(0) + 1
            return G['cnt'] + p(0), 0
        if f == 'y':
            G['cnt'] += 1
            self.yielded = ('y', [p(0), p(1), G['a']], p(0))
            return None, 0
        if f == 'y2':
            self.yielded = ('y2a', [p(0)], p(0))
            return None, 0
        if f == 'mw':
            st.msg[p(0)] = p(1)
            return 0, 0
        if f == 'mr':
            if p(0) in st.msg:
                r = st.msg[p(0)]
                if p(1):
                    del st.msg[p(0)]
                return r, 0
            return b'no', 0
        if f == 'bad':
            G['a'] = p(0)
            return None, 2
        if f == 'usr':
            return None, p(0)
        if f == 'isf':
            return ISF[p(0)], 0
        if f == LONG + '_f':
            return w32(G[LONG] + p(0)), 0
        raise AssertionError(f)

    def cont(self, ans):
        k, _, v = self.yielded
        self.yielded = None
        if k == 'y':
            l = [v, ans]
            self.G['junk'] = l
            return l, 0
        if k == 'y2a':
            self.yielded = ('y2b', [ans, v, 3], v)
            return None, 0
        self.G['a'] = ans
        return v, 0


class St:
    def __init__(self):
        self.ctx = 0
        self.msg = {}


class History:
    def __init__(self, s, multi):
        self.s = s
        self.multi = multi
        self.ops = []       # (op, expectation or None)
        self.ctxs = {}
        self.states = {}
        self.nb = 0
        self.fn = {}
        self.cl = set()
        self.n = 0
        self.gc = s.pick([-1, 0, 0, 300])
        self.flags = s.pick([1, 1, 3, 5, 7, 9])
        self.bufs = {}

    def op(self, o, want=None):
        self.ops.append((o, want))

    def scalar(self):
        s = self.s
        k = s.draw(5)
        if k <= 1:
            return s.pick([0, 1, -1, 7, 255, 65536, 2147483647, -2147483648, s.int(-1000, 1000)])
        if k == 2:
            return s.pick([0.5, -1.25, 3.0, 1000000.0, 0.0])
        return s.pick([b'x', b'hello', b'a longer string with words', b'k0', b'key%d' % s.draw(9), bytes([1 + s.draw(255) for _ in range(1 + s.draw(6))])])

    def state(self):
        i = len(self.states) and max(self.states) + 1
        i = self.n
        self.n += 1
        self.op(['newstate', i, 500, 1, self.gc, 0], [b'ok'])
        self.states[i] = St()
        return i

    def newctx(self, si):
        s = self.s
        st = self.states[si]
        if self.bufs and s.draw(3) == 0:
            b = s.pick(sorted(self.bufs))
            init = self.bufs[b]
            own = 0
            self.cl.add('shared image')
        else:
            b = 100 + self.n
            self.n += 1
            init = (s.pick([5, -3, 2.5, b'txt', 0]), s.pick([b'init', b'z', b'a string']), [s.int(-9, 9) for _ in range(s.int(1, 4))], s.int(0, 99))
            src = SRC % dict(a=gen_lit(init[0]), s=init[1].decode(), arr=', '.join(map(str, init[2])), long=LONG, k=init[3])
            self.op(['compile', b, self.flags, s.draw(2), src], [b'0'])
            own = s.draw(2)
            if not own:
                self.bufs[b] = init
        ci = self.n
        self.n += 1
        c = Ctx(st, *init)
        c.si = si
        self.ctxs[ci] = c
        if s.draw(2):
            self.op(['run', ci, si, b, own], [b'ok', b'0', b'i%d' % init[3], b'0'])
            c.start()
        else:
            self.op(['newctx', ci, si, b, own], [b'ok'])
        return ci

    def step(self):
        s = self.s
        if not self.states or (self.multi and len(self.states) < 3 and s.draw(12) == 0):
            self.state()
            return
        live = sorted(self.ctxs)
        if not live or (len(live) < (5 if self.multi else 1) and s.draw(6) == 0):
            self.newctx(s.pick(sorted(self.states)))
            return
        ci = s.pick(live)
        c = self.ctxs[ci]
        k = s.draw(24)
        if self.multi and k == 23:
            if s.draw(2):
                self.op(['killctx', ci])
                self.dead(ci)
                self.cl.add('context destroyed')
            else:
                si = s.pick(sorted(self.states))
                self.op(['killstate', si])
                for x in list(self.ctxs):
                    if self.ctxs[x].si == si:
                        self.dead(x)
                del self.states[si]
                self.cl.add('state destroyed')
            return
        if c.G is None:
            if s.draw(4) == 0:
                self.op(['call', ci, 'geta'], [b'NULL', b'28'])
                self.cl.add('call before run')
                return
            if s.draw(3):
                n = s.pick(sorted(c.pre) + ['pre1', 'a', 'cnt'])
                if s.draw(4):
                    v = self.scalar()
                    self.op(['setglobal', ci, n, arg(v)], [d(v).encode('latin-1')])
                    if n in c.pre:
                        c.pre[n] = v
                elif n in c.pre:
                    self.op(['global', ci, n], [d(c.pre[n]).encode('latin-1')])
                self.cl.add('global set before run')
                return
            c.start()
            self.op(['exec', ci], [b'i%d' % c.init[3], b'0', b'0'])
            if s.draw(8) == 0:
                self.op(['exec', ci], [b'NULL', b'48'])
            return
        if c.yielded:
            self.cl.add('yield')
            self.op(['yinfo', ci], [b'1', b'%d' % len(c.yielded[1]), ' '.join(d(x) for x in c.yielded[1]).encode('latin-1')])
            if s.draw(3) == 0:
                return
            if s.draw(8) == 0:
                self.op(['callh', ci, 'math::abs', 'i-3'], [b'NULL', b'35', b'1'])
            ans = 0
            if s.draw(3):
                ans = self.scalar()
                self.op(['yinfo', ci, arg(ans)], [b'1'])
            v, e = c.cont(ans)
            if s.draw(3):
                self.op(['cont', ci], self.res(c, v, e))
            else:
                self.op(['call', ci, s.pick(NAMES + ['nope']), 'i3'], self.res(c, v, e))
                if self.ops[-1][0][2] == 'nope':
                    self.ops[-1] = (['cont', ci], self.ops[-1][1])
            return
        if k <= 12 and s.draw(16) == 0:
            x, y = s.int(-99, 99), s.int(-99, 99)
            f, a, v = s.pick([('math::abs', [x], float(abs(x))), ('math::pow', [2, x & 7], float(2 ** (x & 7))), ('math::floor', [x + .5], float(x)), ('str::strlen', [b'q' * (x & 7)], x & 7), ('str::toupper', [b'aB'], b'AB'),
                              ('str::left', [b'some text', y & 3], b'some text'[:y & 3])])
            self.op(['callh', ci, f] + [arg(q) for q in a], [d(v).encode('latin-1'), b'0', b'0'])
            self.cl.add('library function by hash')
        elif k <= 12:
            self.call(ci, c)
        elif k == 13:
            self.op(['cont', ci], [b'NULL', b'34'])
            self.op(['yinfo', ci], [b'0'])
        elif k == 14:
            n = s.pick(['nope', 'seta2', 'a', '', 'Seta'])
            self.op([s.pick(['call', 'callh']), ci, n] + [arg(self.scalar())] * s.draw(2), [b'NULL', b'31'])
            self.op(['err', c.si], [b'31'])
            self.cl.add('missing function')
        elif k == 15:
            n = s.pick(['nope', 'aa', 'seta', 'v', '', LONG + 'x', LONG[:61], LONG[:-1]])
            self.op(['global', ci, n], [b'NULL'])
        elif k <= 18:
            n = s.pick(['a', 's', 'arr', 'h', 'cnt', 'junk', LONG, 'pre1', 'pre2', 'pre3', 'pcopy'])
            self.op(['global', ci, s.pick(['', '::']) + n], [d(c.G[n]).encode('latin-1')])
            self.cl.add('global read')
        elif k == 19:
            n = s.pick(['a', 'a', LONG, 'cnt', 'pre2', 'pcopy'])
            v = self.scalar() if n[0] in 'ap' else s.int(-9, 999)
            self.op(['setglobal', ci, n, arg(v)], [d(v).encode('latin-1')])
            c.G[n] = v
            self.cl.add('global written')
        elif k == 20:
            i = s.draw(len(c.G['arr']) + s.draw(3))
            o = ['wvidx', ci, 'arr', i]
            v = None
            if s.draw(2):
                v = self.scalar()
                o.append(arg(v))
            while len(c.G['arr']) <= i:
                c.G['arr'].append(0)
            if v is not None:
                c.G['arr'][i] = v
            self.op(o, [d(c.G['arr'][i]).encode('latin-1'), b'%d' % len(c.G['arr'])])
            self.cl.add('WrenchValue')
        elif k == 21:
            key = s.pick(['k0', 'k1', 'k2', 'new%d' % s.draw(5)])
            if s.draw(2):
                v = self.scalar()
                self.op(['wvadd', ci, 'h', key, arg(v)], [d(v).encode('latin-1')])
                c.G['h'][key.encode()] = v
            else:
                self.op(['wvget', ci, 'h', key], [d(c.G['h'].get(key.encode())).encode('latin-1')])
            self.cl.add('WrenchValue')
        elif k == 22 and s.draw(3):
            self.api(ci, c)
        elif k == 22:
            if s.draw(2):
                v = s.draw(100)
                self.op(['sctx', c.si, v])
                self.states[c.si].ctx = v
            else:
                v = s.draw(100)
                self.op(['lctx', ci, v])
                c.local = v
        else:
            self.op(['setgc', c.si, s.pick([0, 100, 4000])])

    def api(self, ci, c):
        """WRValue accessors: indexArray, indexHash, iteration, predicates"""
        s = self.s
        G = c.G
        self.cl.add('WRValue access')
        k = s.draw(8)
        n = s.pick(['a', 's', 'arr', 'h', 'junk'])
        enc = lambda v: d(v).encode('latin-1')
        if k == 0:
            v = G[n]
            rows = []
            if isinstance(v, bytes):
                rows = ['3|%d|%d' % (i, x) for i, x in enumerate(v)]
            elif isinstance(v, list):
                rows = ['0|%d|%s' % (i, d(x)) for i, x in enumerate(v)]
            elif isinstance(v, dict):
                rows = ['2|%s|%s' % (d(a), d(b)) for a, b in v.items()]
            rows = sorted(x.split('|', 1)[1] for x in rows)
            self.op(['giter', ci, n], [''.join(x + '\n' for x in rows).encode('latin-1')])
        elif k == 1:
            v = G[n]
            t = 'I.....' if isinstance(v, int) else '.F....' if isinstance(v, float) else '..S...' if isinstance(v, bytes) else '...A..' if isinstance(v, list) else '....H.'
            z = -1 if isinstance(v, (int, float)) else len(v)
            num = isinstance(v, (int, float))
            self.op(['info', ci, n], [t.encode(), b'%d' % (z if isinstance(v, (list, bytes)) else -1)] + ([b'%d' % int(v)] if num else []))
        elif k == 6 and isinstance(G['a'], (int, float)) and abs(G['a']) < 2**30:
            v = G['a']
            if s.draw(2):
                v = int(v)
                self.op(['wvint', ci, 'a'] + ([9] if s.draw(2) else []), [b'%d' % v])
                G['a'] = 9 if len(self.ops[-1][0]) > 3 else v
            else:
                v = struct.unpack('<f', struct.pack('<f', float(v)))[0]
                self.op(['wvfloat', ci, 'a'] + (['40500000'] if s.draw(2) else []), [d(v)[1:].encode()])
                G['a'] = 3.25 if len(self.ops[-1][0]) > 3 else v
        elif k == 7:
            x = self.scalar()
            if s.draw(2):
                v = G['junk'] if isinstance(G['junk'], dict) else {}
                key = s.pick(['k0', 'n1', 'n2', 'n3'])
                v[key.encode()] = x
                G['junk'] = v
                self.op(['wvadd', ci, 'junk', key, arg(x)], [enc(x)])
            elif not isinstance(G['junk'], bytes):
                v = G['junk'] if isinstance(G['junk'], list) else []
                i = s.draw(9)
                while len(v) <= i:
                    v.append(0)
                v[i] = x
                G['junk'] = v
                self.op(['wvidx', ci, 'junk', i, arg(x)], [enc(x), b'%d' % len(v)])
            self.op(['global', ci, 'junk'], [enc(G['junk'])])
        elif k <= 3:
            i = s.draw(len(G['arr']) + s.draw(4))
            n = s.pick(['arr', 'arr', 'arr', 'a', 's', 'h', 'junk'])
            cr = s.draw(2)
            v = G[n]
            if not cr:
                m = v[i] if isinstance(v, list) and i < len(v) else None
                self.op(['gidx', ci, n, i, 0], [enc(m), enc(v)])
            elif n in ('arr', 'junk', 'a'):
                if not isinstance(v, list):
                    v = []
                while len(v) <= i:
                    v.append(0)
                x = self.scalar()
                v[i] = x
                G[n] = v
                self.op(['gidx', ci, n, i, 1, arg(x)], [enc(x), enc(v)])
                if n == 'a':        # back to a scalar: the other operations expect one
                    self.op(['setglobal', ci, 'a', 'i4'], [b'i4'])
                    G['a'] = 4
        elif k <= 5:
            key = s.pick([b'k0', b'k1', b'k2', 5, 77, b'new%d' % s.draw(5), 12345678])
            n = s.pick(['h', 'h', 'h', 'a', 'arr', 'junk'])
            v = G[n]
            cr = s.draw(2)
            ka = b'i%d' % key if isinstance(key, int) else b's' + key
            if not cr:
                self.op(['ghash', ci, n, ka, 0], [enc(v.get(key) if isinstance(v, dict) else None), enc(v)])
            elif n in ('h', 'junk') and isinstance(v, dict) and key in v:
                x = self.scalar()
                v[key] = x
                self.op(['ghash', ci, n, ka, 1, arg(x)], [enc(x), enc(v)])
            elif n == 'h':      # a new entry: the key it shows is unspecified, so it goes away again
                x = self.scalar()
                self.op(['ghash', ci, n, ka, 1, arg(x)], [enc(x)])
                self.op(['call', ci, 'get', arg(key)], [enc(x), b'0'])
                self.op(['call', ci, 'del', arg(key)], [b'i%d' % len(v), b'0'])

    def dead(self, ci):
        del self.ctxs[ci]
        for f in list(self.fn):
            if self.fn[f][0] == ci:
                del self.fn[f]

    def res(self, c, v, e):
        if e:
            return [b'NULL', b'%d' % e, b'0']
        if c.yielded:
            return [b'NULL', b'0', b'1']
        return [d(v).encode('latin-1'), b'0', b'0']

    def call(self, ci, c):
        s = self.s
        f = s.pick(NAMES)
        if f == 'at':
            a = [s.draw(len(c.G['arr']))]
        elif f in ('put', 'get', 'del'):
            a = [s.pick([b'k0', b'k1', b'k2', b'k%d' % s.draw(30)]), self.scalar()][:2 if f == 'put' else 1]
        elif f == 'cat':
            if len(c.G['s']) > 200:
                return
            a = [s.pick([b'x', b'yz', b'some more text'])]
        elif f == 'host':
            a = [s.int(-99, 99), s.pick([3, 2147483647, -5])]
        elif f == 'rec':
            a = [s.draw(12)]
        elif f == 'mw':
            a = [s.pick([b'm1', 5, b'out', b'seta', 77]), s.int(-99, 99)]
        elif f == 'mr':
            a = [s.pick([b'm1', 5, b'out', b'seta', 77]), s.draw(2)]
        elif f == 'isf':
            a = [s.pick(sorted(ISF))]
        elif f == 'usr':
            a = [s.pick([101, 150, 254])]
        elif f == LONG + '_f':
            a = [s.int(-99, 99)]
        else:
            a = [self.scalar() for _ in range(s.draw(5))]
        if f in ('push',) and not a:
            a = [1]
        if f == 'push' and len(c.G['arr']) > 40:
            return
        if f in ('bad', 'noret', 'seta', 'swap', 'push', 'three', 'geta', 'y', 'whole') and s.draw(6) == 0:
            a = a + [self.scalar(), 5]
        a = a[:8]
        v, e = c.call(f, a)
        args = [arg(x) for x in a]
        k = s.draw(4)
        if k == 3:
            sl = [x for x in self.fn if self.fn[x] == (ci, f)]
            if not sl:
                i = 5000 + self.n
                self.n += 1
                self.op(['getfn', i, ci, f], [b'1'])
                self.fn[i] = (ci, f)
                sl = [i]
            o = ['callp', ci, sl[0]]
            self.cl.add('call by pointer')
        else:
            o = [['call', 'call', 'callh'][k], ci, f]
        want = self.res(c, v, e)
        if not e and not c.yielded:
            want = want + want[:1]
        self.op(o + args, want)
        if c.out:
            self.op(['log'], [c.out.encode('latin-1')])
            c.out = ''
        if e:
            self.op(['err', c.si], [b'%d' % e])
            self.cl.add('script error')
        self.cl.add('call')
        if not e and not c.yielded and s.draw(6) == 0:
            self.op(['ret', ci], [d(v).encode('latin-1')])


class C15(Prop):
    id = 'C15'
    configs = ['default', 'compact', 'slices', 'amalgam']
    multi = False
    quick = 25000
    thorough = 250000
    rule = ('a case is a script and a history of up to 40 host operations on it (run, calls by name, hash and pointer with any number and type of arguments, yields and their '
            'answers, reads and writes of globals, elements and table entries, user contexts, missing names, scripts that end in an error); non-trivial with at least three calls')
    assumptions = ['library functions are called from the host by hash only; library constants and C callbacks are not']

    def gen(self, s):
        h = History(s, self.multi)
        for _ in range(s.int(3, 70 if self.multi else 40)):
            h.step()
        return dict(ops=h.ops, cl=sorted(h.cl), cfg=s.pick(self.configs), states=sum(1 for o, _ in h.ops if o[0] == 'newstate'), ctxs=sum(1 for o, _ in h.ops if o[0] in ('run', 'newctx')))

    def run(self, case, eng):
        ops = case['ops']
        r = eng[case['cfg']].req([o for o, _ in ops])
        for i, (o, want) in enumerate(ops):
            if want is not None and r[i][:len(want)] != want:
                raise Violation('[%s] step %d %r gives %r, expected %r' % (case['cfg'], i, o if o[0] != 'compile' else 'compile', r[i], want))
        if r[-1] != [b'0', b'0']:
            raise Violation('leak %r' % r[-1])
        return self.nontrivial(case), case['cl'] + [case['cfg']]

    def nontrivial(self, case):
        return sum(1 for o, _ in case['ops'] if o[0].startswith('call')) >= 3

    def render(self, case):
        return '// %s\n' % case['cfg'] + '\n'.join('%r  ->  %r' % (o, w) for o, w in case['ops'])


PROP = C15()
