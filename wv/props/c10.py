"""Serialised values come back equal; damaged ones are refused or harmless."""
import struct
from ..core import *


def esc(b):
    o = '"'
    for c in b:
        if c < 32 or c > 126 or c in b'"\\':
            o += '\\x%02x' % c
        else:
            o += chr(c)
    return o + '"'


def dumpv(v):
    k = v[0]
    if k == 'i':
        return 'i%d' % v[1]
    if k == 'f':
        x = struct.unpack('<f', struct.pack('<I', v[1]))[0]
        return 'fnan' if x != x else 'f%08x' % v[1]
    if k == 's':
        return esc(v[1])
    if k == 'a':
        return '[' + ','.join(dumpv(x) for x in v[1]) + ']'
    return '{' + ','.join(sorted(dumpv(a) + ':' + dumpv(b) for a, b in v[1])) + '}'


INTS = [0, 1, -1, 127, 128, -128, 255, 256, 32767, 32768, 65535, 65536, 0x7FFFFFFF, -0x80000000, 0x01020304, -559038737]
FLTS = [0, 0x3f800000, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x7f7fffff, 0x3dcccccd, 0xc2f60000, 0x00800000]


class G:
    def __init__(self, s, big):
        self.s, self.lines, self.strs, self.nv, self.budget, self.big = s, [], [], 0, s.int(1, 40), big
        self.depth = 0

    def string(self):
        s = self.s
        n = s.weighted([(3, 0), (12, 1), (3, 2), (1, 3)])
        if self.big and s.chance(1, 3):
            n = 4
        if n == 0:
            return b''
        if n == 1:
            return s.bytes(s.int(1, 12))
        if n == 2:
            return s.bytes(1) * s.int(1, 300)
        if n == 3:
            return bytes(i & 255 for i in range(s.int(200, 600)))
        return s.bytes(1) * s.pick([65534, 65535, 65536, 65537, 70001, 131072])

    def value(self, depth):
        """-> (model, expression usable as an argument)"""
        s = self.s
        self.budget -= 1
        self.depth = max(self.depth, depth)
        k = s.weighted([(6, 'i'), (3, 'f'), (4, 's'), (5, 'a'), (5, 'h')])
        if self.budget <= 0 or depth >= 5:
            k = s.pick(['i', 'f', 's'])
        if k == 'i':
            v = s.pick(INTS) if s.draw(2) else s.int(-2**31, 2**31 - 1)
            return ('i', v), ['i%d' % v]
        if k == 'f':
            v = s.pick(FLTS) if s.draw(2) else s.draw(2**32)
            return ('f', v), ['f%08x' % v]
        if k == 's':
            v = self.string()
            return ('s', v), [b's' + v]
        name = 'v%d' % self.nv
        self.nv += 1
        if k == 'a':
            n = s.weighted([(1, 0), (5, 1)])
            if n:
                n = s.int(1, 6)
            self.lines.append(('array', name, n))
            items = []
            for i in range(n):
                m, e = self.value(depth + 1)
                items.append(m)
                self.lines.append(('seta', name, i, e))
            return ('a', items), name
        self.lines.append(('hash', name))
        items, seen = [], set()
        n = s.pick([0, 1, 2, 3, 4, 6, 9, 14])
        for i in range(n):
            if s.draw(2):
                key = ('i', s.pick(INTS) if s.draw(3) == 0 else s.int(-40, 40))
                ke = 'i%d' % key[1]
            else:
                b = s.bytes(s.int(1, 5), b'abcdefgh\x01\x80\xff') if s.draw(4) == 0 else s.pick([b'alpha', b'beta', b'x', b'y', b'key%d' % s.draw(20)])
                key = ('s', b)
                ke = b's' + b
            if key in seen or key == ('i', -1414812757):
                continue
            seen.add(key)
            m, e = self.value(depth + 1)
            items.append((key, m))
            self.lines.append(('seth', name, ke, e))
        # a removed entry leaves a hole behind
        for j in range(len(items)):
            if s.chance(1, 8):
                self.lines.append(('remh', name, ('i%d' % items[j][0][1]) if items[j][0][0] == 'i' else b's' + items[j][0][1]))
                items[j] = None
        return ('h', [x for x in items if x]), name


LIB = '''
var T[1];
function seta( n, i, v ) { T[n][i] = v; }
function setav( n, i, m ) { T[n][i] = T[m]; }
function seth( n, k, v ) { T[n][k] = v; }
function sethv( n, k, m ) { T[n][k] = T[m]; }
function remh( n, k ) { hash::remove( T[n], k ); }
function mkarr( n, c ) { var q[1]; array::truncate( q, 0 ); if ( c > 0 ) { array::insert( q, 0, c ); } T[n] = q; }
function fill( n, c ) { var q[1]; array::truncate( q, 0 ); array::insert( q, 0, c ); for ( var i = 0; i < c; ++i ) { q[i] = 7; } T[n] = q; }
function mkhash( n ) { var q = {:}; T[n] = q; }
var g; var r; var r2;
function put( v ) { g = v; }
function putv( n ) { g = T[n]; }
function roundtrip() { r2 = std::deserialize( std::serialize( g ) ); }
function count( w ) { if ( w == 0 ) { return g._count; } if ( w == 1 ) { return r._count; } return r2._count; }
function has( w, k ) { if ( w == 0 ) { return hash::exists( g, k ); } if ( w == 1 ) { return hash::exists( r, k ); } return hash::exists( r2, k ); }
function get( w, k ) { if ( w == 0 ) { return g[k]; } if ( w == 1 ) { return r[k]; } return r2[k]; }
function setk( w, k, v ) { if ( w == 0 ) { g[k] = v; } else if ( w == 1 ) { r[k] = v; } else { r2[k] = v; } }
function rem( w, k ) { if ( w == 0 ) { hash::remove( g, k ); } else if ( w == 1 ) { hash::remove( r, k ); } else { hash::remove( r2, k ); } }
function hostile() { r2 = std::deserialize( g ); return 1; }
function churn( n ) { var s = ""; for ( var i = 0; i < n; ++i ) { s = "a" + i; var q[3]; q[1] = s; } return s; }
'''


class C10(Prop):
    id = 'C10'
    configs = ['default', 'compact', 'amalgam', 'amcompact']
    quick = 20000
    thorough = 300000
    rule = ('a case is a generated value tree (ints, floats of any bits, strings of any bytes, arrays, tables, depth <= 6) that is '
            'serialised and read back in the same or another program, or a damaged serialisation fed to the reader; non-trivial '
            'when the value is a container, or the damaged bytes differ from the original')
    assumptions = ['values are acyclic', 'table keys are ints or strings']

    def gen(self, s):
        kind = s.pick(['rt', 'rt', 'hostile', 'raw'])
        if s.chance(1, 2000):
            return dict(kind='bigarr', n=s.pick([65535, 65536, 65537, 66000]), rcfg=s.pick(self.configs))
        big = kind == 'rt' and s.chance(1, 200)
        g = G(s, big)
        model, expr = g.value(1)
        case = dict(kind=kind, model=model, expr=expr, lines=g.lines, nv=g.nv,
                    wcfg=s.pick(self.configs), rcfg=s.pick(self.configs), gc=-1 if big else s.pick([-1, 0, 200]))
        if kind == 'rt':
            ops = []
            if model[0] == 'h':
                for _ in range(s.int(0, 12)):
                    k = s.pick(['has', 'get', 'setk', 'rem', 'count'])
                    if model[1] and s.draw(3):
                        key = s.pick(model[1])[0]
                        key = 'i%d' % key[1] if key[0] == 'i' else b's' + key[1]
                    else:
                        key = 'i%d' % s.int(-60, 60)
                    ops.append((k, key, 'i%d' % s.draw(100)))
            elif model[0] == 'a' and model[1]:
                for _ in range(s.int(0, 6)):
                    k = s.pick(['get', 'setk', 'count'])
                    ops.append((k, 'i%d' % s.draw(len(model[1])), 'i%d' % s.draw(100)))
            case['ops'] = ops
        elif kind == 'hostile':
            case['mut'] = [(s.pick(['flip', 'set', 'trunc', 'ins', 'del', 'dup', 'swap16']), s.draw(1 << 16), s.draw(256), s.draw(8))
                           for _ in range(s.int(1, 4))]
        else:
            # grammar-ish raw bytes
            b = b''
            for _ in range(s.int(1, 30)):
                b += s.pick([bytes([0]), bytes([1]), bytes([2]), bytes([3]), s.bytes(1), s.bytes(2), b'\x03\xa0\x04', b'\x03\xa0\x05', b'\x03\xe0', b'\x03\xa0',
                             b'\x05\x00', b'\x00\x00', b'\xff\xff', b'\x01\x00'])
            case['raw'] = b
        return case

    def build(self, e, case, extra):
        ops = [['newstate', 0, 500, 1, case['gc'], 0], ['compile', 0, 1, 1, LIB], ['run', 0, 0, 0, 0]]
        idx = {}

        def name(n):
            return int(n[1:]) + 1
        for l in case['lines']:
            if l[0] == 'array':
                ops.append(['call', 0, 'mkarr', 'i%d' % name(l[1]), 'i%d' % l[2]])
            elif l[0] == 'fill':
                ops.append(['call', 0, 'fill', 'i%d' % name(l[1]), 'i%d' % l[2]])
            elif l[0] == 'hash':
                ops.append(['call', 0, 'mkhash', 'i%d' % name(l[1])])
            elif l[0] == 'seta':
                if isinstance(l[3], list):
                    ops.append(['call', 0, 'seta', 'i%d' % name(l[1]), 'i%d' % l[2], l[3][0]])
                else:
                    ops.append(['call', 0, 'setav', 'i%d' % name(l[1]), 'i%d' % l[2], 'i%d' % name(l[3])])
            elif l[0] == 'seth':
                if isinstance(l[3], list):
                    ops.append(['call', 0, 'seth', 'i%d' % name(l[1]), l[2], l[3][0]])
                else:
                    ops.append(['call', 0, 'sethv', 'i%d' % name(l[1]), l[2], 'i%d' % name(l[3])])
            else:
                ops.append(['call', 0, 'remh', 'i%d' % name(l[1]), l[2]])
        if isinstance(case['expr'], list):
            ops.append(['call', 0, 'put', case['expr'][0]])
        else:
            ops.append(['call', 0, 'putv', 'i%d' % name(case['expr'])])
        n = len(ops)
        return ops + extra, n

    def run(self, case, eng):
        if case['kind'] == 'bigarr':
            r = eng[case['rcfg']].req([['newstate', 0, 500, 1, -1, 0], ['compile', 0, 1, 1, LIB], ['run', 0, 0, 0, 0],
                                       ['call', 0, 'fill', 'i1', 'i%d' % case['n']], ['call', 0, 'putv', 'i1'], ['call', 0, 'roundtrip'],
                                       ['global', 0, 'g'], ['global', 0, 'r2']])
            want = b'[' + b','.join([b'i7'] * case['n']) + b']'
            if r[6][0] != want or r[7][0] != want:
                raise Violation('an array of %d elements was not restored: %s' % (case['n'], r[7][0][:100]))
            return True, ['bigarr']
        e = eng[case['wcfg']]
        kind = case['kind']
        want = dumpv(case['model'])
        ops, n = self.build(e, case, [['global', 0, 'g'], ['serglobal', 0, 'g'], ['global', 0, 'g']])
        r = e.req(ops)
        if int(r[1][0]) or r[2][1] != b'0':
            raise Violation('support script failed: %r %r' % (r[1], r[2]))
        got = r[n][0].decode('latin-1')
        if got != want:
            raise Violation('value built by the script differs\n  want %s\n  got  %s' % (want[:600], got[:600]))
        if r[n + 1][0] != b'1':
            raise Violation('serialize refused %s' % want[:400])
        data = r[n + 1][1]
        if r[n + 2][0].decode('latin-1') != want:
            raise Violation('serialize changed the value: %s' % r[n + 2][0][:400])
        f = eng[case['rcfg']]
        if kind == 'rt':
            # in the same program through std::, and in another program through the host interface
            ops, n = self.build(f, case, [['call', 0, 'roundtrip'], ['global', 0, 'r2'], ['deser', 0, data, 'r'], ['call', 0, 'churn', 'i60'],
                                          ['global', 0, 'r'], ['global', 0, 'r2'], ['serglobal', 0, 'r'], ['serglobal', 0, 'r2'], ['serglobal', 0, 'g']])
            seq = []
            for k, key, val in case['ops']:
                for w in range(3):
                    a = ['call', 0, k, 'i%d' % w]
                    if k != 'count':
                        a.append(key)
                    if k == 'setk':
                        a.append(val)
                    if k == 'get' and case['model'][0] == 'h':
                        a = ['call', 0, 'has', 'i%d' % w, key]
                    seq.append(a)
            seq += [['global', 0, 'g'], ['global', 0, 'r'], ['global', 0, 'r2']]
            r = f.req(ops + seq)
            if r[n + 2][0] != b'1':
                raise Violation('deserialize refused what serialize produced (%s): %s' % (want[:300], data[:60].hex()))
            for i, what in ((n + 1, 'std::deserialize'), (n + 4, 'wr_deserialize'), (n + 5, 'std::deserialize later')):
                g = r[i][0].decode('latin-1')
                if g != want:
                    raise Violation('%s: value differs\n  want %s\n  got  %s' % (what, want[:600], g[:600]))
            if not (r[n + 6] == r[n + 7] == r[n + 8]):
                raise Violation('serialising the restored value gives other bytes')
            m = n + 9
            i = m
            for k, key, val in case['ops']:
                if not (r[i][:2] == r[i + 1][:2] == r[i + 2][:2]):
                    raise Violation('after restoring, %s(%r) answers differently: original %s, wr_deserialize %s, std::deserialize %s'
                                    % (k, key, r[i][0], r[i + 1][0], r[i + 2][0]))
                i += 3
            if not (r[i] == r[i + 1] == r[i + 2]):
                raise Violation('after the same updates the restored values differ\n %s\n %s\n %s' % (r[i][0][:300], r[i + 1][0][:300], r[i + 2][0][:300]))
            return case['model'][0] in 'ah', ['rt-' + case['model'][0], 'big' if len(data) > 65536 else 'small']
        if kind == 'hostile':
            b = bytearray(data)
            tr = None
            for k, p, v, bit in case['mut']:
                if not b:
                    break
                p %= len(b)
                if k == 'flip':
                    b[p] ^= 1 << bit
                elif k == 'set':
                    b[p] = v
                elif k == 'trunc':
                    b = b[:p]
                elif k == 'ins':
                    b[p:p] = bytes([v])
                elif k == 'del':
                    del b[p]
                elif k == 'dup':
                    b += b[p:]
                else:
                    b[p:p + 2] = bytes([v, bit * 32])
            b = bytes(b)
        else:
            b = case['raw']
        r = f.req([['newstate', 0, 500, 1, case['gc'], 0], ['compile', 0, 1, 1, LIB], ['run', 0, 0, 0, 0],
                   ['deser', 0, b, 'r'], ['call', 0, 'churn', 'i20'], ['global', 0, 'r'],
                   ['setglobal', 0, 'g', b's' + b] , ['call', 0, 'hostile'], ['call', 0, 'churn', 'i20']])
        ok = r[3][0] == b'1'
        if ok and r[5] != [r[3][1]]:
            raise Violation('a value read from damaged bytes changed by itself: %s -> %s' % (r[3][1][:300], r[5][0][:300]))
        if len(b) < len(data) and data[:len(b)] == b and ok:
            raise Violation('a serialisation cut to %d of %d bytes was accepted' % (len(b), len(data)))
        if b == data and (not ok or r[3][1].decode('latin-1') != want):
            raise Violation('undamaged bytes refused or misread')
        if r[-1] != [b'0', b'0']:
            raise Violation('memory not returned: %s' % r[-1])
        return b != data, [kind, 'accepted' if ok else 'refused']

    def render(self, case):
        c = dict(case)
        return repr(c)


PROP = C10()
