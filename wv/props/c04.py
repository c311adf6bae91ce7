"""Every build of wrench compiles the same images and runs them the same way."""
from ..core import *
from . import c01, c02, c03, c07, c08

SOURCES = [(3, c01), (4, c02), (2, c03), (2, c07), (2, c08)]
DIVZERO = 51


class C04(Prop):
    id = 'C04'
    configs = ['default', 'compact', 'really', 'mfail', 'trapdiv', 'unaligned', 'fsprintf', 'slices', 'cslices', 'amalgam', 'amcompact', 'amslices']
    quick = 8000
    thorough = 300000
    rule = ('a case is a generated program (expressions, statements, functions, tables, arrays), two builds that compile it and two that run '
            'the image; non-trivial when it compiles, runs to its end and prints something')
    assumptions = []

    def gen(self, s):
        m = s.weighted([(w, m) for w, m in SOURCES])
        c = m.PROP.gen(s)
        k = m.PROP.id
        src = c['src']
        if not isinstance(src, bytes):
            src = src.encode('latin-1')
        a = s.pick(self.configs)
        run = [a, s.pick([x for x in self.configs if x != a])]
        cc = [s.pick(self.configs), s.pick(self.configs)]
        return dict(kind=k, src=src, log=c.get('log') if k in ('C01', 'C02', 'C03') else None, zdiv=c.get('stats', {}).get('zdiv') if k in ('C01', 'C02', 'C03') else None, cc=cc, run=run, gc=s.pick([-1, 0, 300]), flags=1)

    def run(self, case, eng):
        img = []
        for c in case['cc']:
            r = eng[c].req([['compile', 0, case['flags'], 1, case['src']]])[0]
            if r[0] != b'0':
                img.append((r[0], r[2]))
            else:
                img.append((r[0], eng[c].req([['compile', 0, case['flags'], 1, case['src']], ['getbuf', 0]])[1][0]))
        if img[0] != img[1]:
            raise Violation('compiled differently by %s (%d, %d bytes) and %s (%d, %d bytes)' % (case['cc'][0], int(img[0][0]), len(img[0][1]), case['cc'][1], int(img[1][0]), len(img[1][1])))
        if img[0][0] != b'0':
            return False, [case['kind'], 'not compiled']
        res = []
        for c in case['run']:
            ops = [['seed', 1], ['newstate', 0, 2000, 1, case['gc'], 0], ['setbuf', 0, img[0][1]], ['tight', 0], ['run', 0, 0, 0, 0], ['log']]
            r = eng[c].req(ops)
            if r[4][3] == b'1':
                return False, [case['kind'], 'suspended']
            if r[-1][0] != b'0':
                raise Violation('%s leaks %r' % (c, r[-1]))
            res.append((r[4], r[5][0].decode('latin-1')))
        a, b = res
        z = case['zdiv']
        if 'trapdiv' in case['run'] and (z is not None or case['log'] is None):
            t, o = res if case['run'][0] == 'trapdiv' else res[::-1]
            if z is not None:
                if t[0][:2] != [b'NULL', b'%d' % DIVZERO] or t[1] != ''.join(l + '\n' for l in case['log'].split('\n')[:z]):
                    raise Violation('divides by zero after %d lines, but trapdiv gives %r, others %r' % (z, t, o))
                return True, [case['kind'], 'divides by zero']
            if t[0][1] == b'%d' % DIVZERO and o[1].startswith(t[1]):
                return False, [case['kind'], 'divides by zero']
        if a != b:
            raise Violation('behaves differently: %s %r, %s %r' % (case['run'][0], a, case['run'][1], b))
        if case['log'] is not None and a[1] != case['log']:
            raise Violation('unlike the reference: %r, expected %r' % (a[1], case['log']))
        return len(a[1]) > 0, [case['kind']] + case['run']

    def render(self, case):
        return '// compiled by %s run by %s flags=%d gc=%d\n%s' % (case['cc'], case['run'], case['flags'], case['gc'], case['src'].decode('latin-1'))


PROP = C04()
