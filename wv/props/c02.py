from ..core import *
from .. import lang, gen


class C02(Prop):
    id = 'C02'
    configs = ['default', 'compact', 'amalgam']
    quick = 15000
    thorough = 300000
    rule = ('a case is one generated structured program; non-trivial when the model executed at least one loop iteration; '
            'distinct by the whole generated choice sequence')

    def gen(self, s):
        g = gen.Gen(s, gotos=s.draw(2))
        p = g.program()
        r = lang.Render(redundant=(lambda: s.chance(1, 10)))
        r.bare = lambda: s.draw(2)
        src = r.prog(p)
        it = lang.Interp(p)
        ret = it.run()
        return dict(src=src, log=it.log(), stats=it.stats, cfg=s.pick(self.configs))

    def run(self, case, eng):
        r = eng[case['cfg']].script(case['src'], stack=2000)
        if r.cerr:
            raise Violation('compile error %s %s' % (r.cerr, r.msg))
        if r.err or r.log != case['log']:
            raise Violation('[%s] err=%s\n got: %s\nwant: %s' % (case['cfg'], r.err, r.log, case['log']))
        if r.leak:
            raise Violation('leak %s' % r.leak)
        return case['stats']['iters'] > 0, [k for k, v in case['stats'].items() if v]

    def finding(self, fid, eng):
        if self.id == 'C02' and fid == 'foreach-recursion':
            r = eng['default'].script('function f( n ) { var a[] = { 1, 2 }; for ( var v : a ) { out( n, v ); if ( n ) { f( n - 1 ); } } return 0; }\nf( 1 );\n')
            return r.log != 'i1 i1\ni0 i1\ni0 i2\ni1 i2\ni0 i1\ni0 i2\n'

    def render(self, case):
        return case['src']


PROP = C02()
