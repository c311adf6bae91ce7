"""Compile options change what an image carries, never what it does."""
from ..core import *
from .. import lang, gen


class C21(Prop):
    id = 'C21'
    configs = ['default', 'compact', 'slices', 'amalgam']
    quick = 9000
    thorough = 250000
    rule = ('a case is a generated program compiled with two of the 16 option combinations and run; behaviour and final globals are compared with the reference interpreter; '
            'non-trivial when the program prints something')
    assumptions = []

    def gen(self, s):
        g = gen.Gen(s, gotos=s.draw(2), **s.pick([dict(), dict(funcs=3, stmts=8), dict(loops=0, stmts=5, funcs=1)]))
        p = g.program()
        r = lang.Render(redundant=(lambda: s.chance(1, 20)))
        r.bare = lambda: s.draw(2)
        src = r.prog(p)
        it = lang.Interp(p)
        it.run()
        G = {k: lang.dump(v) for k, v in it.G.items() if k[0] == 'g'}
        f = s.draw(16)
        return dict(src=src, log=it.log(), G=G, flags=[f, f ^ (1 + s.draw(15))], cfg=s.pick(self.configs), pad=s.pick(['', '', '\n', '// \xe9\xff end', ' ']), gc=s.pick([-1, 0]))

    def run(self, case, eng):
        e = eng[case['cfg']]
        src = (case['src'] + case['pad']).encode('latin-1')
        names = sorted(case['G'])
        for f in case['flags']:
            r = e.req([['compile', 0, f, 1, src]])
            if r[0][0] != b'0':
                raise Violation('[%s] does not compile with options %d: %r' % (case['cfg'], f, r[0]))
            r = e.req([['newstate', 0, 2000, 1, case['gc'], 0], ['compile', 0, f, 1, src], ['getbuf', 0], ['tight', 0], ['valid', 0], ['run', 0, 0, 0, 0], ['log']] + [['global', 0, n] for n in names])
            img = r[2][0]
            if r[4][0] != b'1':
                raise Violation('[%s] options %d: image not valid' % (case['cfg'], f))
            if r[5][:2] != [b'ok', b'0']:
                raise Violation('[%s] options %d: %r' % (case['cfg'], f, r[5]))
            if r[6][0].decode('latin-1') != case['log']:
                raise Violation('[%s] options %d\n got: %s\nwant: %s' % (case['cfg'], f, r[6][0].decode('latin-1'), case['log']))
            if ((src in img) != bool(f & 4)) and len(src) > 40:
                raise Violation('[%s] options %d: source embedded: %s' % (case['cfg'], f, src in img))
            for i, n in enumerate(names):
                v = r[7 + i][0].decode('latin-1')
                want = case['G'][n] if f & 1 else 'NULL'
                if v != want:
                    raise Violation('[%s] options %d: global %s is %s, expected %s' % (case['cfg'], f, n, v, want))
            if r[-1] != [b'0', b'0']:
                raise Violation('leak %r' % r[-1])
        return len(case['log']) > 0, ['options %d' % f for f in case['flags']]

    def render(self, case):
        return '// %s options %s gc=%d\n%s' % (case['cfg'], case['flags'], case['gc'], case['src'])


PROP = C21()
