"""A damaged bytecode image is refused everywhere; an intact one is accepted everywhere."""
import struct
from ..core import *
from .. import lang, gen

CRC = b'47'
MAIN = '''var calls = 0;
function imp( b ) { return sys::importByteCode( b ); }
function ping( n ) { calls = calls + 1; return n * 2 + calls; }
'''


def mutate(img, muts):
    b = bytearray(img)
    for m in muts:
        k = m[0]
        n = len(b)
        if k == 'raw':
            b = bytearray(m[1])
        elif k == 'trunc':
            b = b[:m[1] % (n + 1)]
        elif k == 'chop':
            b = b[:max(0, n - m[1])]
        elif k == 'ext':
            b += m[1]
        elif k == 'front':
            b = bytearray(m[1]) + b
        elif k == 'behead':
            b = b[m[1]:]
        elif k == 'ver' and n >= 4:
            h = struct.unpack('<I', bytes(b[-4:]))[0]
            b[-4:] = struct.pack('<I', (h + m[1]) & 0xFFFFFFFF)
        elif n:
            p = m[1] % n
            if k == 'flip':
                b[p] ^= 1 << m[2]
            elif k == 'set':
                b[p] = m[2]
            elif k == 'zero':
                b[p:p + m[2]] = bytes(len(b[p:p + m[2]]))
            elif k == 'swap':
                q = m[2] % n
                b[p], b[q] = b[q], b[p]
            elif k == 'del':
                del b[p:p + m[2]]
            elif k == 'ins':
                b[p:p] = m[2]
    return bytes(b)


class C11(Prop):
    id = 'C11'
    configs = ['default', 'compact', 'really', 'mfail', 'amalgam', 'unaligned']
    quick = 12000
    thorough = 250000
    rule = ('a case compiles one generated program, damages its image in one generated way (bit flips, byte changes, cuts, '
            'insertions, swaps, zeroed blocks, foreign bytes, hash arithmetic) and offers it to every entry point; non-trivial when the damaged '
            'image differs from the intact one and is at least 8 bytes long')
    assumptions = ['the 32-bit image hash does not collide for the generated damage (probability 2^-32 per case)']

    def gen(self, s):
        g = gen.Gen(s, funcs=2, stmts=4)
        p = g.program()
        src = lang.Render().prog(p)
        it = lang.Interp(p)
        it.run()
        muts = []
        for _ in range(1 if s.draw(4) else s.int(2, 4)):
            k = s.weighted([(6, 'flip'), (5, 'set'), (3, 'trunc'), (2, 'chop'), (2, 'ext'), (1, 'front'), (1, 'behead'), (1, 'raw'), (2, 'zero'),
                            (2, 'swap'), (2, 'del'), (2, 'ins'), (2, 'ver')])
            where = s.draw(40) if s.draw(3) == 0 else (1 << 30) // 7 * s.draw(2000) if s.draw(2) else -1 - s.draw(8)
            if k == 'flip':
                muts.append((k, where, s.draw(8)))
            elif k == 'set':
                muts.append((k, where, s.draw(256)))
            elif k in ('trunc',):
                muts.append((k, abs(where)))
            elif k in ('chop', 'behead'):
                muts.append((k, s.int(1, 12)))
            elif k in ('ext', 'front'):
                muts.append((k, s.bytes(s.int(1, 12))))
            elif k == 'raw':
                muts.append((k, s.bytes(s.int(0, 16)) if s.draw(2) else bytes(s.int(0, 16))))
            elif k == 'ver':
                muts.append((k, s.pick([1, -1, 2, -2, 7, 256, -6])))
            elif k == 'swap':
                muts.append((k, where, s.draw(4000)))
            elif k == 'ins':
                muts.append((k, where, s.bytes(s.int(1, 5))))
            else:
                muts.append((k, where, s.int(1, 8)))
        return dict(src=src, log=it.log(), muts=muts, cfg=s.pick(self.configs), cfg2=s.pick(self.configs),
                    flags=s.pick([0, 1, 1, 3, 5, 7]) if False else s.pick([0, 1]))

    def run(self, case, eng):
        e, e2 = eng[case['cfg']], eng[case['cfg2']]
        r = e.req([['compile', 0, case['flags'], 1, case['src']], ['valid', 0], ['getbuf', 0]])
        if r[0][0] != b'0':
            raise Violation('compile failed %r' % r[0])
        img = r[2][0]
        bad = mutate(img, case['muts'])
        if r[1][0] != b'1' or int(r[1][1]) != struct.unpack('<I', img[-4:])[0]:
            raise Violation('fresh image not valid: %r' % r[1])
        ok = [['setbuf', 3, img], ['tight', 3], ['valid', 3], ['log'], ['run', 3, 0, 3, 0], ['log']]
        ops = [['newstate', 0, 2000, 1, -1, 0], ['compile', 2, 1, 1, MAIN], ['run', 2, 0, 2, 0], ['call', 2, 'ping', 'i20']]
        n0 = len(ops)
        same = bad == img
        if not same:
            ops += [['setbuf', 1, bad], ['valid', 1], ['newctx', 1, 0, 1, 0], ['run', 1, 0, 1, 0], ['import', 2, 1, 0],
                    ['call', 2, 'imp', b's' + bad], ['log'], ['call', 2, 'ping', 'i20']]
        n1 = len(ops)
        ops += ok + [['import', 2, 3, 0], ['log'], ['call', 2, 'ping', 'i20']]
        r = e2.req(ops)
        if r[n0 - 1][0] != b'i41':
            raise Violation('host program: %r' % r[n0 - 1])
        if not same:
            v, nc, rn, im, ib, lg, pg = r[n0 + 1:n0 + 8]
            if v[0] != b'0':
                raise Violation('damaged image declared valid: %r' % v)
            for nm, x in (('wr_newContext', nc), ('wr_run', rn), ('wr_import', im)):
                if x[0] != b'NULL' or x[1] != CRC:
                    raise Violation('damaged image: %s gave %r' % (nm, x))
            if len(bad) and ib[1] != CRC:
                raise Violation('damaged image: sys::importByteCode gave %r' % ib)
            if lg[0]:
                raise Violation('damaged image executed: %r' % lg[0])
            if pg[0] != b'i42' or pg[1] != b'0':
                raise Violation('program after refused imports: %r' % pg)
        v, rn, lg = r[n1 + 2], r[n1 + 4], r[n1 + 5]
        if v[0] != b'1' or int(v[1]) != struct.unpack('<I', img[-4:])[0]:
            raise Violation('intact image refused by wr_isBytecodeValid: %r' % v)
        if rn[0] != b'ok' or rn[1] != b'0' or lg[0].decode('latin-1') != case['log']:
            raise Violation('intact image: %r\n got %r\nwant %r' % (rn, lg[0], case['log']))
        im, lg, pg = r[n1 + 6], r[n1 + 7], r[n1 + 8]
        if im[0] != b'ok' or lg[0].decode('latin-1') != case['log']:
            raise Violation('import of the intact image: %r\n got %r\nwant %r' % (im, lg[0], case['log']))
        if pg[0] != (b'i42' if same else b'i43'):
            raise Violation('program after import: %r' % pg)
        if r[-1][0] != b'0':
            raise Violation('leak %r' % r[-1])
        return not same and len(bad) >= 8, [m[0] for m in case['muts']]

    def render(self, case):
        return 'damage %r (%s -> %s)\n%s' % (case['muts'], case['cfg'], case['cfg2'], case['src'])


PROP = C11()
