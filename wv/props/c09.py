"""String library against a byte-string reference."""
from ..core import *

SPACE = b' \t\n\v\f\r'


def esc(b):
    o = '"'
    for c in b:
        if c < 32 or c > 126 or c in b'"\\':
            o += '\\x%02x' % c
        else:
            o += chr(c)
    return o + '"'


def i32(v):
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v >= 1 << 31 else v


def dumpv(v):
    return esc(v) if isinstance(v, bytes) else 'i%d' % v


def tol(b, base):
    b = b.split(b'\0')[0]
    i = 0
    while i < len(b) and b[i] in SPACE:
        i += 1
    neg = False
    if i < len(b) and b[i] in b'+-':
        neg = b[i] == 45
        i += 1

    def dig(c):
        if 48 <= c <= 57:
            return c - 48
        if 65 <= c <= 90:
            return c - 55
        if 97 <= c <= 122:
            return c - 87
        return 99
    if base in (0, 16) and b[i:i + 2].lower() == b'0x' and i + 2 < len(b) and dig(b[i + 2]) < 16:
        i += 2
        base = 16
    elif base == 0:
        base = 8 if b[i:i + 1] == b'0' else 10
    v = 0
    while i < len(b) and dig(b[i]) < base:
        v = v * base + dig(b[i])
        i += 1
    v = -v if neg else v
    if not -2**31 <= v < 2**31:
        return None
    return v


def fmt1(conv, minus, zero, alt, width, v):
    """one conversion as C prints it"""
    if conv == 's':
        t, sign = v, b''
    elif conv == 'c':
        t, sign = bytes([v & 255]), b''
    else:
        u = v & 0xFFFFFFFF
        sign = b''
        if conv in 'di':
            t = b'%d' % abs(v)
            sign = b'-' if v < 0 else b''
        elif conv == 'u':
            t = b'%d' % u
        elif conv == 'x':
            t = b'%x' % u
        elif conv == 'X':
            t = b'%X' % u
        elif conv == 'o':
            t = b'%o' % u
        else:
            t = bin(u)[2:].encode()
        if alt:
            sign = b'0x'
    pad = width - len(t) - len(sign)
    if pad <= 0:
        return sign + t
    if minus:
        return sign + t + b' ' * pad
    if zero:
        return sign + b'0' * pad + t
    return b' ' * pad + sign + t


# name -> body; a,b,c are values; V[d] takes the result
FN = {
    'len': 'str::strlen( V[a] )', 'mid': 'str::mid( V[a], x, y )', 'substr': 'str::substr( V[a], x, y )', 'mid2': 'str::mid( V[a], x )',
    'chr': 'str::chr( V[a], x )', 'lower': 'str::tolower( V[a] )', 'upper': 'str::toupper( V[a] )', 'left': 'str::left( V[a], x )',
    'trunc': 'str::trunc( V[a], x )', 'right': 'str::right( V[a], x )', 'trimr': 'str::trimright( V[a] )', 'triml': 'str::trimleft( V[a] )',
    'trim': 'str::trim( V[a] )', 'insert': 'str::insert( V[a], V[b], x )', 'concat': 'str::concat( V[a], V[b] )',
    'concat3': 'str::concat( V[a], V[b], V[c] )', 'concat4': 'str::concat( V[a], V[b], V[c], V[a] )', 'plus': 'V[a] + V[b]',
    'tol': 'str::tol( V[a], x )', 'tol10': 'str::tol( V[a] )', 'copy': 'V[a]', 'eq': 'V[a] == V[b]', 'ne': 'V[a] != V[b]',
    'count': 'V[a]._count', 'at': 'V[a][x]', 'chlower': 'str::tolower( x )', 'chupper': 'str::toupper( x )',
    'isspace': 'str::isspace( x ) != 0', 'isdigit': 'str::isdigit( x ) != 0', 'isalpha': 'str::isalpha( x ) != 0',
    'plusi': 'V[a] + x', 'iplus': 'x + V[a]',
}
LIB = 'var V[8];\nfunction put( d, v ) { V[d] = v; return V[d]; }\n' + ''.join(
    'function op_%s( d, a, b, c, x, y ) { V[d] = %s; return V[d]; }\n' % (k, v) for k, v in sorted(FN.items())) + '''
function nest( d, a, x ) { V[d] = str::trim( str::concat( str::left( V[a], x ), str::right( V[a], x ) ) ); return V[d]; }
function fmt0( d, f ) { V[d] = str::format( f ); return V[d]; }
function fmt1( d, f, a ) { V[d] = str::format( f, a ); return V[d]; }
function fmt2( d, f, a, b ) { V[d] = str::format( f, a, b ); return V[d]; }
function fmt3( d, f, a, b, c ) { V[d] = str::format( f, a, b, c ); return V[d]; }
var T = "";
function fresh( s ) { T = s; return T; }
function spf0( f ) { return str::sprintf( T, f ); }
function spf1( f, a ) { return str::sprintf( T, f, a ); }
function spf2( f, a, b ) { return str::sprintf( T, f, a, b ); }
function spf3( f, a, b, c ) { return str::sprintf( T, f, a, b, c ); }
function prf1( f, a ) { return str::printf( f, a ); }
function getT() { return T; }
function chars( a ) { var n = 0; for ( var ch : V[a] ) { n = n * 31 + ch; } return n; }
'''
LIB = LIB.replace("function chars( a ) { var n = 0; for ( var ch : V[a] )", "function chars( a ) { var n = 0; var s = V[a]; for ( var ch : s )")


class C09(Prop):
    id = 'C09'
    configs = ['default', 'compact', 'amalgam', 'amcompact']
    quick = 16000
    thorough = 300000
    rule = ('a case is a history of up to 30 string operations on eight slots, every result and the final slots compared with a '
            'byte-string model; non-trivial when at least three operations produced strings')
    assumptions = ['counts and positions given to str:: functions are not negative', 'printf arguments have the type the conversion asks for']

    def rstr(self, s):
        k = s.weighted([(2, 0), (8, 1), (4, 2), (2, 3), (2, 4), (1, 5)])
        if k == 0:
            return b''
        if k == 1:
            return s.bytes(s.int(1, 10), b'abcXYZ 019_\t')
        if k == 2:
            return s.bytes(s.int(1, 8))
        if k == 3:
            return s.bytes(s.int(0, 4), SPACE) + s.bytes(s.int(0, 5), b'aB \t') + s.bytes(s.int(0, 4), SPACE)
        if k == 4:
            sp = s.bytes(s.int(0, 3) if s.draw(3) else s.int(15, 30), SPACE)
            base = s.pick([2, 8, 10, 16, 36])
            v = s.pick([0, 1, 7, 255, 2**31 - 1, s.draw(2**31)])
            t = ''
            while True:
                t = '0123456789abcdefghijklmnopqrstuvwxyz'[v % base] + t
                v //= base
                if not v:
                    break
            t = t.encode()
            if s.draw(2):
                t = t.upper()
            return sp + s.pick([b'', b'', b'-', b'+']) + s.pick([b'', b'', b'0x', b'0', b'000000000000000000']) + t + s.pick([b'', b'', b'z', b' ', b'\0' + b'9'])
        return s.bytes(1, b'qR ') * s.int(70, 400)

    def spec(self, s, V):
        """-> (format bytes, args, expected bytes)"""
        f, args, out = b'', [], b''
        for _ in range(s.int(0, 5)):
            if s.draw(3) == 0:
                lit = s.bytes(s.int(1, 6), b'abc 09.-#xds\xe9') if s.draw(8) else b'L' * s.int(60, 120)
                f += lit
                out += lit
                continue
            if s.draw(8) == 0:
                f += b'%%'
                out += b'%'
                continue
            if len(args) >= 3:
                continue
            conv = s.pick('ddixXuobsscsd')
            minus = zero = alt = False
            width = 0
            if conv == 's':
                v = self.rstr(s)
                a = b's' + v
            else:
                v = s.pick([0, 1, -1, 9, 10, 255, 32767, 65535, 65536, -32768, 2**31 - 1, -2**31]) if s.draw(2) else i32(s.draw(2**32))
                if conv == 'c':
                    v = s.draw(256)
                a = 'i%d' % v
            sp = b'%'
            if conv != 'c' and s.draw(2):
                minus = s.draw(3) == 0
                zero = conv != 's' and s.draw(3) == 0
                alt = conv == 'x' and v != 0 and s.draw(3) == 0
                fl = ([b'-'] if minus else []) + ([b'0'] if zero else []) + ([b'#'] if alt else [])
                sp += b''.join(s.shuffle(fl))
                width = s.pick([0, 1, 2, 5, 8, 10, 11, 12, 20, 33, 100])
                if width:
                    sp += b'%d' % width
            f += sp + conv.encode()
            args.append(a)
            out += fmt1(conv, minus, zero, alt, width, v)
        return f, args, out

    def gen(self, s):
        V = [b''] * 8
        ops = []
        nstr = 0
        T = b''
        for i in range(8):
            V[i] = self.rstr(s) if i < 4 else b''
            ops.append((['call', 0, 'put', 'i%d' % i, b's' + V[i]], V[i]))
        strs = lambda: [i for i in range(8) if isinstance(V[i], bytes)]
        for _ in range(s.int(1, 26)):
            k = s.weighted([(20, 'op'), (5, 'fmt'), (5, 'spf'), (3, 'put'), (1, 'nest'), (1, 'chars'), (1, 'prf')])
            sl = strs()
            if k == 'put' or not sl:
                d = s.draw(8)
                V[d] = self.rstr(s)
                ops.append((['call', 0, 'put', 'i%d' % d, b's' + V[d]], V[d]))
                continue
            if k == 'nest':
                d, a, x = s.draw(8), s.pick(sl), s.draw(8)
                A = V[a]
                V[d] = (A[:x] + A[max(0, len(A) - x):]).strip(SPACE)
                ops.append((['call', 0, 'nest', 'i%d' % d, 'i%d' % a, 'i%d' % x], V[d]))
                continue
            if k == 'chars':
                a = s.pick(sl)
                n = 0
                for ch in V[a]:
                    n = i32(n * 31 + ch)
                ops.append((['call', 0, 'chars', 'i%d' % a], n))
                continue
            if k == 'prf':
                f, args, out = self.spec(s, V)
                if len(args) == 1:
                    ops.append((['call', 0, 'prf1', b's' + f] + args, len(out)))
                continue
            if k == 'fmt':
                f, args, out = self.spec(s, V)
                d = s.draw(8)
                V[d] = out
                nstr += 1
                ops.append((['call', 0, 'fmt%d' % len(args), 'i%d' % d, b's' + f] + args, out))
                continue
            if k == 'spf':
                if s.draw(3) == 0:
                    T = self.rstr(s)
                    ops.append((['call', 0, 'fresh', b's' + T], T))
                for _ in range(s.int(1, 3)):
                    f, args, out = self.spec(s, V)
                    ops.append((['call', 0, 'spf%d' % len(args), b's' + f] + args, len(out)))
                    T = out
                    ops.append((['call', 0, 'getT'], T))
                    nstr += 1
                continue
            n = s.pick(sorted(FN))
            d, a, b, c = s.draw(8), s.pick(sl), s.pick(sl), s.pick(sl)
            A, B, C = V[a], V[b], V[c]
            x = s.draw(len(A) + 4) if s.draw(4) else s.pick([0, 1, len(A), 1000, 2**31 - 1])
            y = s.draw(len(A) + 4) if s.draw(4) else s.pick([0, 1, len(A), 1000, 2**31 - 1])
            if n == 'len' or n == 'count':
                r = len(A)
            elif n in ('mid', 'substr'):
                r = A[x:x + y] if x < len(A) else b''
            elif n == 'mid2':
                r = A[x:]
            elif n == 'chr':
                x = s.pick(list(A)) if A and s.draw(3) else s.draw(256)
                r = A.find(bytes([x]))
            elif n == 'lower':
                r = A.lower()
            elif n == 'upper':
                r = A.upper()
            elif n in ('left', 'trunc'):
                r = A[:x]
            elif n == 'right':
                r = A[max(0, len(A) - x):]
            elif n == 'trimr':
                r = A.rstrip(SPACE)
            elif n == 'triml':
                r = A.lstrip(SPACE)
            elif n == 'trim':
                r = A.strip(SPACE)
            elif n == 'insert':
                r = A[:x] + B + A[x:]
            elif n in ('concat', 'plus'):
                r = A + B
            elif n == 'concat3':
                r = A + B + C
            elif n == 'concat4':
                r = A + B + C + A
            elif n in ('tol', 'tol10'):
                x = s.pick([10, 16, 2, 8, 0, 36]) if n == 'tol' else 10
                r = tol(A, x)
                if r is None:
                    continue
            elif n == 'copy':
                r = A
            elif n == 'eq':
                r = int(A == B)
            elif n == 'ne':
                r = int(A != B)
            elif n == 'at':
                if not A:
                    continue
                x = s.draw(len(A))
                r = A[x]
            elif n in ('chlower', 'chupper'):
                x = s.draw(256)
                r = x
                if n == 'chlower' and 65 <= x <= 90:
                    r = x + 32
                if n == 'chupper' and 97 <= x <= 122:
                    r = x - 32
            elif n == 'isspace':
                x = s.draw(256)
                r = int(x in SPACE)
            elif n == 'isdigit':
                x = s.draw(256)
                r = int(48 <= x <= 57)
            elif n == 'isalpha':
                x = s.draw(256)
                r = int(65 <= x <= 90 or 97 <= x <= 122)
            elif n == 'plusi':
                x = i32(s.draw(2**32)) if s.draw(2) else x
                r = A + b'%d' % x
            elif n == 'iplus':
                x = i32(s.draw(2**32)) if s.draw(2) else x
                r = b'%d' % x + A
            if isinstance(r, bytes) and len(r) > 6000:
                continue
            nstr += isinstance(r, bytes)
            V[d] = r
            ops.append((['call', 0, 'op_' + n, 'i%d' % d, 'i%d' % a, 'i%d' % b, 'i%d' % c, 'i%d' % x, 'i%d' % y], r))
        return dict(ops=ops, V=V, cfg=s.pick(self.configs), gc=s.pick([-1, 0, 300]), nstr=nstr)

    def run(self, case, eng):
        pre = [['newstate', 0, 500, 1, case['gc'], 0], ['compile', 0, 1, 1, LIB], ['run', 0, 0, 0, 0]]
        r = eng[case['cfg']].req(pre + [o for o, _ in case['ops']] + [['global', 0, 'V']])
        if int(r[1][0]) or r[2][1] != b'0':
            raise Violation('support script failed: %r %r' % (r[1], r[2]))
        for (op, want), got in zip(case['ops'], r[3:]):
            w = dumpv(want)
            g = got[0].decode('latin-1')
            if g != w:
                raise Violation('%s %r\n  want %s\n  got  %s' % (op[2], op[3:], w[:500], g[:500]))
        g = r[3 + len(case['ops'])][0].decode('latin-1')
        w = '[' + ','.join(dumpv(v) for v in case['V']) + ']'
        if g != w:
            raise Violation('slots at the end\n  want %s\n  got  %s' % (w[:900], g[:900]))
        if r[-1] != [b'0', b'0']:
            raise Violation('memory not returned: %s' % r[-1])
        return case['nstr'] >= 3, [case['cfg']]

    def render(self, case):
        return '// %s gc=%s\n' % (case['cfg'], case['gc']) + '\n'.join('%s %r -> %r' % (o[2], o[3:], w) for o, w in case['ops'])


PROP = C09()
