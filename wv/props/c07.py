"""Hash tables behave as finite maps."""
from ..core import *
from .. import cont


class C07(Prop):
    id = 'C07'
    main = 't'
    configs = ['default', 'compact', 'really', 'amalgam']
    quick = 30000
    thorough = 600000
    rule = ('a case is a history of 2..40 container operations (tables first) with a model; non-trivial when at least 5 '
            'different kinds of operation ran')
    assumptions = ['keys are integers and strings; float keys, and reading a key that is not there, are left out of the model']

    def gen(self, s):
        na, nt = (s.int(0, 1), s.int(1, 3)) if self.main == 't' else (s.int(1, 3), s.int(0, 1))
        h = cont.History(s, na, nt, 40)
        src, log = h.build()
        return dict(src=src, log=log, cfg=s.pick(self.configs), gc=s.pick([-1, -1, 0, 300]), cl=sorted(h.classes))

    def run(self, case, eng):
        r = eng[case['cfg']].script(case['src'], stack=500, gc=case['gc'])
        if r.cerr or r.err:
            raise Violation('[%s] error compile=%s run=%s %s' % (r.cfg, r.cerr, r.err, r.msg))
        if cont.canon(r.log) != cont.canon(case['log']):
            a, b = cont.canon(r.log).split('\n'), cont.canon(case['log']).split('\n')
            for i in range(max(len(a), len(b))):
                x, y = (a[i] if i < len(a) else '<end>'), (b[i] if i < len(b) else '<end>')
                if x != y:
                    raise Violation('[%s] line %d: got %s expected %s' % (r.cfg, i + 1, x[:400], y[:400]))
        if r.leak:
            raise Violation('[%s] %d blocks leaked' % (r.cfg, r.leak))
        return len(case['cl']) >= 5, case['cl'] + [case['cfg']]

    def finding(self, fid, eng):
        if self.id == 'C07' and fid == 'table-capacity':
            try:
                r = eng['default'].script('var h = {:};\nfor ( var i = 0; i < 8000; ++i ) { h["k" + i] = i; }\nout( h._count );\n')
                return r.log != 'i8000\n'
            except EngineCrash:
                return True

    def render(self, case):
        return '// %s gc=%s\n' % (case['cfg'], case['gc']) + case['src']


PROP = C07()
