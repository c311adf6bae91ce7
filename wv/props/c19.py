"""Value <-> text: exact, bounded, terminated."""
import re, struct
from ..core import *
from . import c10

INTS = c10.INTS


def f32(u):
    return struct.unpack('<f', struct.pack('<I', u))[0]


def tech(v, hexa):
    """text of int/float/string/array; tables are only compared as prefixes"""
    k = v[0]
    if k == 'i':
        return ('0x%08X' % (v[1] & 0xFFFFFFFF)) if hexa else '%d' % v[1]
    if k == 'f':
        x = f32(v[1])
        if x != x or x in (float('inf'), float('-inf')):
            raise Discard('special float')
        return '%g' % x
    if k == 's':
        return '"' + v[1].decode('latin-1') + '"'
    if k == 'a':
        return '[ ' + ', '.join(tech(x, hexa) for x in v[1]) + ' ]'
    return None


def has_table(v):
    return v[0] == 'h' or (v[0] == 'a' and any(has_table(x) for x in v[1]))


FTEXT = re.compile(r'^-?[0-9]+(\.[0-9]{1,5})?$')


class C19(Prop):
    id = 'C19'
    configs = ['default', 'compact', 'amalgam', 'fsprintf']
    quick = 60000
    thorough = 300000
    rule = ('a case converts one generated value to text through the host accessors with a buffer of exactly the given size, through '
            'string concatenation, or through a float conversion of str::format; non-trivial when the value is a container, the '
            'buffer is too small for the whole text, or the value is a float')
    assumptions = ['the decimal text of a float is only specified below 2^31 in magnitude']

    def gen(self, s):
        kind = s.pick(['num', 'num', 'str', 'tech', 'ffmt'])
        ml = s.int(1, 30) if s.draw(3) else s.pick([1, 2, 3, 12, 64, 200])
        if kind == 'num':
            if s.draw(2):
                v = ('i', s.pick(INTS) if s.draw(2) else s.int(-2**31, 2**31 - 1))
            else:
                k = s.draw(5)
                if k == 0:
                    u = s.draw(2**32)
                elif k == 1:
                    u = struct.unpack('<I', struct.pack('<f', s.int(-10**7, 10**7) / 10**s.int(0, 6)))[0]
                elif k == 2:
                    u = struct.unpack('<I', struct.pack('<f', float(s.int(-2**31 + 200, 2**31 - 200))))[0]
                elif k == 3:
                    u = struct.unpack('<I', struct.pack('<f', s.int(-300, 300) / 2.0**s.int(0, 12)))[0]
                else:
                    u = s.pick(c10.FLTS)
                v = ('f', u)
            return dict(kind=kind, v=v, ml=ml, cfg=s.pick(self.configs))
        if kind == 'str':
            b = s.bytes(s.int(0, 40)) if s.draw(2) else s.bytes(1) * s.int(0, 300)
            return dict(kind=kind, v=('s', b), ml=ml, cfg=s.pick(self.configs))
        if kind == 'ffmt':
            parts, args, out = b'', [], b''
            for _ in range(s.int(1, 3)):
                lit = s.bytes(s.int(0, 4), b'ab f.g1')
                parts += lit
                out += lit
                conv = s.pick('fg')
                sp = '%' + s.pick(['', '', '-', '0']) + s.pick(['', '1', '5', '10', '20', '40']) + s.pick(['', '.0', '.1', '.3', '.6', '.9'])
                if sp == '%0':
                    sp = '%'
                u = struct.unpack('<I', struct.pack('<f', s.pick([0.0, 1.0, -1.5, s.int(-10**6, 10**6) / 1000.0, s.int(-10**9, 10**9) * 1.0, 1e-6 * s.draw(1000)])))[0]
                args.append('f%08x' % u)
                parts += (sp + conv).encode()
                out += ((sp + conv) % f32(u)).encode()
            tail = s.bytes(s.int(0, 4), b'xyz %') .replace(b'%', b'%%')
            return dict(kind=kind, fmt=parts + tail, args=args, out=out + tail.replace(b'%%', b'%'), cfg='fsprintf')
        g = c10.G(s, False)
        m, e = g.value(1)
        return dict(kind=kind, model=m, expr=e, lines=g.lines, gc=-1, ml=ml, hexa=s.draw(2), cfg=s.pick(self.configs), v=m)

    def cut(self, full, ml):
        return full[:ml - 1]

    def run(self, case, eng):
        e = eng[case['cfg']]
        kind = case['kind']
        if kind == 'ffmt':
            src = 'function f1( f, a ) { return str::format( f, a ); } function f2( f, a, b ) { return str::format( f, a, b ); } ' \
                  'function f3( f, a, b, c ) { return str::format( f, a, b, c ); }'
            r = e.req([['newstate', 0, 100, 1, 0, 0], ['compile', 0, 1, 1, src], ['run', 0, 0, 0, 0],
                       ['call', 0, 'f%d' % len(case['args']), b's' + case['fmt']] + case['args']])
            want = c10.esc(case['out']).encode()
            if r[3][0] != want:
                raise Violation('format %r %r\n  want %s\n  got  %s' % (case['fmt'], case['args'], want, r[3][0]))
            return True, ['ffmt']
        ml = case['ml']
        if kind in ('num', 'str'):
            v = case['v']
            arg = (b's' + v[1]) if v[0] == 's' else ('i%d' % v[1] if v[0] == 'i' else 'f%08x' % v[1])
            src = 'function cat( v ) { return "" + v; } function cat2( v ) { return v + "!"; }'
            r = e.req([['newstate', 0, 100, 1, 0, 0], ['compile', 0, 1, 1, src], ['run', 0, 0, 0, 0],
                       ['asstr', 0, arg, ml], ['asstr', 0, arg, 0], ['mstr', 0, arg], ['call', 0, 'cat', arg], ['call', 0, 'cat2', arg],
                       ['asstr', 0, arg, 500]])
            if v[0] == 's':
                full = v[1]
            elif v[0] == 'i':
                full = b'%d' % v[1]
            else:
                full = r[8][1]
                x = f32(v[1])
                if x == x and abs(x) < 2147483500.0:
                    t = full.decode('latin-1')
                    if not FTEXT.match(t) or (('.' in t) and t.endswith('0')):
                        raise Violation('text of float %r is %r' % (x, t))
                    if abs(float(t) - x) > 1.2e-5 + abs(x) * 2.0**-22:
                        raise Violation('text of float %r is %r' % (x, t))
            z = full.split(b'\0')[0]
            for i, n in ((3, ml), (4, 0), (8, 500)):
                w = full if n == 0 else full[:n - 1]
                rr = r[i]
                if rr[0] != b'1' or rr[1] != w.split(b'\0')[0] or rr[2] != b'1' or int(rr[3]) != len(w):
                    raise Violation('asString(maxLen %d) of %r: %r, expected %r length %d' % (n, v, rr, w, len(w)))
            if r[5][0] != z or int(r[5][1]) != len(full):
                raise Violation('asMallocString of %r: %r, expected %r length %d' % (v, r[5], z, len(full)))
            if r[6][0].decode() != c10.esc(full) or r[7][0].decode() != c10.esc(full + b'!'):
                raise Violation('concatenation with %r: %r %r, text is %r' % (v, r[6][0], r[7][0], full))
            return v[0] == 'f' or len(full) >= ml, [kind, v[0]]
        hexa = case['hexa']
        b = c10.PROP
        ops, n = b.build(e, case, [['techstr', 0, 'gg', ml, hexa], ['techstr', 0, 'gg', 60000, hexa], ['mstr', 0, 'gg']])
        r = e.req(ops)
        full = r[n + 1]
        if full[0] != b'1' or full[2] != b'1':
            raise Violation('technicalAsString not terminated: %r' % full[:3])
        flen = int(full[3])
        if not has_table(case['v']):
            w = tech(case['v'], hexa)
            if flen != len(w) or full[1].decode('latin-1') != w.split('\0')[0]:
                raise Violation('technicalAsString: want %r\n got %r length %d' % (w[:500], full[1][:500], flen))
        got = r[n]
        wl = min(flen, ml - 1)
        if got[0] != b'1' or got[2] != b'1' or int(got[3]) != wl or (len(full[1]) == flen and got[1] != full[1][:wl]):
            raise Violation('technicalAsString(maxLen %d): %r length %s, whole text %r length %d' % (ml, got[1], got[3], full[1][:300], flen))
        return True, ['tech']

    def render(self, case):
        return repr(case)


PROP = C19()
