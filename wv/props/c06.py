"""Suspending and resuming never changes what a program does."""
from ..core import *
from .. import lang, gen
from .c01 import expect


class C06(Prop):
    id = 'C06'
    configs = ['default', 'compact', 'slices', 'cslices', 'amslices']
    quick = 20000
    thorough = 400000
    rule = ('a case is a generated program either with explicit yields (arguments and answers checked against the model) or '
            'run under an instruction budget / host-forced suspensions, or calls of one context under changing budgets; non-trivial when it was suspended at least once')
    assumptions = []

    def gen(self, s):
        kind = s.pick(['yield', 'yield', 'slice', 'slice', 'force', 'both', 'yield', 'slice', 'both', 'budget'])
        if kind == 'budget':
            return self.gen_budget(s)
        y = 3 if kind in ('yield',) else 0
        g = gen.Gen(s, yields=y, funcs=4, stmts=9, gotos=s.draw(2))
        p = g.program()
        src = lang.Render().prog(p)
        it = lang.Interp(p)
        it.run()
        cfg = s.pick(self.configs if kind == 'yield' else ['slices', 'cslices', 'amslices'])
        sl = s.pick([1, 2, 3, 5, 7, 10, 20, 50]) if kind in ('slice', 'both') else 0
        fy = s.int(1, 4) if kind in ('force', 'both') else 0
        return dict(src=src, log=it.log(), cfg=cfg, kind=kind, slice=sl, fy=fy, y=it.yields, gc=s.pick([-1, -1, 0]))

    def gen_budget(self, s):
        # the budget is changed, and switched off, between calls of the same context
        src = 'function work( n ) { var t = 0; for( var i = 0; i < n; ++i ) { t += i; } return t; }\nfunction deep( n ) { if ( n < 1 ) { return 0; } return n + deep( n - 1 ); }\nvar g = work( %d );\n' % s.int(0, 40)
        calls = []
        for _ in range(s.int(1, 8)):
            f = s.pick(['work', 'work', 'deep'])
            n = s.pick([0, 1, 3, 10, 60, 300]) if f == 'work' else s.draw(30)
            calls.append((s.pick([0, 0, 1, 2, 3, 7, 20, 100]), f, n, n * (n - 1) // 2 if f == 'work' else n * (n + 1) // 2))
        return dict(kind='budget', cfg=s.pick(['slices', 'cslices', 'amslices']), src=src, first=s.pick([0, 5, 100, 1000]), calls=calls, slice=None, fy=None, gc=s.pick([-1, 0]))

    def run_budget(self, case, eng):
        e = eng[case['cfg']]
        ops = [['newstate', 0, 1000, 1, case['gc'], case['first']], ['compile', 0, 1, 1, case['src'].encode()], ['run', 0, 0, 0, 0]]
        if case['first']:
            ops += [['cont', 0]] * 300
        idx = []
        for sl, f, n, _ in case['calls']:
            ops.append(['slice', 0, sl])
            ops.append(['call', 0, f, 'i%d' % n])
            k = 0
            if sl:
                k = (n * 12 + 60) // sl + 2
                ops += [['cont', 0]] * k
            idx.append((len(ops) - k - 1, k))
        ops.append(['killstate', 0])
        r = e.req(ops)
        some = False
        for (i, k), (sl, f, n, v) in zip(idx, case['calls']):
            w = '[%s] %s( %d ) with a budget of %d ' % (case['cfg'], f, n, sl)
            a = r[i]
            if not sl and a[2] != b'0':
                raise Violation(w + 'was suspended')
            if sl and f == 'work' and n > 3 * sl + 10 and a[2] != b'1':
                raise Violation(w + 'was not suspended')
            res = a
            j = i
            while res[2] == b'1':
                some = True
                j += 1
                if j > i + k:
                    raise Violation(w + 'is not done after %d continuations' % k)
                res = r[j]
            if res[0] != b'i%d' % v or res[1] != b'0':
                raise Violation(w + 'gave %s error %s, expected %d' % (res[0], res[1], v))
        if r[-1] != [b'0', b'0']:
            raise Violation('leak %r' % r[-1])
        return some, ['budget', case['cfg']]

    def run(self, case, eng):
        if case['kind'] == 'budget':
            return self.run_budget(case, eng)
        e = eng[case['cfg']]
        if case['kind'] == 'yield':
            r = e.script(case['src'], stack=2000, ymode=2, gc=case['gc'])
            expect(r, case['log'])
            if r.yields != case['y']:
                raise Violation('%d suspensions, %d yield statements executed' % (r.yields, case['y']))
            return case['y'] > 0, ['yield', case['cfg']]
        r = e.script(case['src'], stack=2000, ymode=0, slice=case['slice'], forceyield=case['fy'], gc=case['gc'])
        expect(r, case['log'])
        return r.yields > 0, [case['kind'], case['cfg']]

    def render(self, case):
        return '// %s slice=%s force=%s gc=%s\n' % (case['cfg'], case['slice'], case['fy'], case['gc']) + ('// budget %s, then %s\n' % (case['first'], case['calls']) if case['kind'] == 'budget' else '') + case['src']


PROP = C06()
