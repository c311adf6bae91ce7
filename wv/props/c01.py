"""Scalar expressions: every operator x operand location x operand type x use,
plus deep random expressions, against a model of C-like int32/float32/string
arithmetic."""
from ..core import *
from .. import lang, gen
from ..lang import *

ARITH = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
CMP = ['<', '>', '<=', '>=', '==', '!=']
LOG = ['&&', '||']
LOCS = ['lit', 'var', 'elc', 'elv', 'hash', 'mem', 'nest', 'call', 'expr', 'gvar', 'param']


class Build:
    def __init__(self, s):
        self.s = s
        self.p = Prog()
        self.n = 0
        self.stats = []

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def value(self, t):
        s = self.s
        if t == 'i':
            return gen.ilit(s)[1]
        if t == 'f':
            return gen.flitn(s)[1]
        return gen.slit(s)[1]

    def place(self, loc, v, st, fn, lval=False):
        """make an operand holding v at location loc: returns its node;
        declarations go to st (statements) / self.p"""
        s, p = self.s, self.p
        lit = ('lit', v)
        t = 'i' if isinstance(v, int) else 'f' if isinstance(v, float) else 's'

        def decl(node):
            nm = self.name('v')
            if fn is not None:
                fn.locals_.append(nm)
            st.append((node[0], nm) + tuple(node[1:]))
            return ('var', nm)
        if loc == 'gvar':
            nm = self.name('g')
            self.gl.append(('decl', nm, lit))
            return ('gvar', nm) if s.draw(2) else ('var', nm)
        if loc == 'param':
            if fn is None:
                loc = 'var'
            else:
                nm = self.name('p')
                fn.params.append(nm)
                self.args.append(lit)
                return ('var', nm)
        if loc == 'lit':
            return lit
        if loc == 'var':
            return decl(('decl', lit))
        if loc == 'elc':
            k = s.draw(3)
            a = decl(('declarr', [('lit', 77)] * k + [lit] + [('lit', 3)] * s.draw(2)))
            return ('idx', a, ('lit', k))
        if loc == 'elv':
            k = s.draw(3)
            a = decl(('declarr', [('lit', 77)] * k + [lit]))
            i = decl(('decl', ('lit', k)))
            return ('idx', a, s.pick([i, ('bin', '+', i, ('lit', 0))]))
        if loc == 'hash':
            k = s.pick([b'k', 4, 300, b'some'])
            h = decl(('decl', ('hash', [(('lit', 1), ('lit', 55)), (('lit', k), lit)])))
            if isinstance(k, bytes) and s.draw(2):
                return ('mem', h, k.decode())
            if s.draw(2):
                return ('idx', h, decl(('decl', ('lit', k))))
            return ('idx', h, ('lit', k))
        if loc == 'mem':
            sn = self.name('S')
            p.structs[sn] = StructDef(sn, [], [('aa', None), ('bb', None)], ['i', t])
            p.order.append(('s', sn))
            return ('mem', decl(('decl', ('new', sn, [], [('bb', lit)]))), 'bb')
        if loc == 'nest':
            a = decl(('declarr', [('arr', [('lit', 5), lit]), ('arr', [('lit', 6)])]))
            return ('idx', ('idx', a, ('lit', 0)), ('lit', 1))
        if loc == 'call':
            f = Func(self.name('f'), [], [], t)
            f.body = [('return', lit)]
            p.funcs[f.name] = f
            p.order.append(('f', f.name))
            return ('call', f.name, [])
        if loc == 'expr':
            a = decl(('decl', lit))
            if t == 's':
                return ('par', ('bin', '+', a, ('lit', b'')))
            return s.pick([('bin', '+', a, ('lit', 0)), ('bin', '-', a, ('lit', 0)), ('bin', '*', a, ('lit', 1)), ('par', a)])
        raise KeyError(loc)

    def probe(self, fn):
        """statements of one probe"""
        s = self.s
        st = []
        kind = s.weighted([(6, 'bin'), (3, 'casg'), (2, 'cond'), (2, 'inc'), (2, 'un'), (3, 'chain')])
        lv = ['var', 'elc', 'elv', 'hash', 'mem', 'nest', 'gvar', 'param']
        if kind == 'inc':
            t = s.pick(['i', 'i', 'f'])
            a = self.place(s.pick(lv), self.value(t), st, fn)
            e = ('inc', s.pick(['pre', 'post']), s.pick([1, -1]), a)
            r = self.res(fn)
            st.append(('decl', r, e))
            st.append(self.out(('var', r), a))
            st.append(('expr', ('inc', s.pick(['pre', 'post']), s.pick([1, -1]), a)))
            st.append(self.out(a))
            return st, 'inc'
        ta, tb = s.pick([('i', 'i'), ('i', 'i'), ('i', 'f'), ('f', 'i'), ('f', 'f'), ('s', 's'), ('s', 'i'), ('i', 's')])
        if kind == 'un':
            if ta == 's':
                ta = 'i'
            a = self.place(s.pick(LOCS), self.value(ta), st, fn)
            if ta == 'i':
                e = s.pick([('un', '-', a), ('un', '!', a), ('un', '~', a), ('cast', 'float', a), ('cast', 'int', a)])
            else:
                e = s.pick([('un', '-', a), ('un', '!', a), ('cast', 'float', a), ('cast', 'int', a)])
            if s.draw(2):
                b = self.place(s.pick(LOCS), self.value('i'), st, fn)
                e = ('bin', s.pick(['+', '-', '*', '<', '>=']), *s.pick([(e, b), (b, e)]))
            st += self.use(e, fn)
            if a[0] != 'call':
                st.append(self.out(a))
            return st, 'un'
        if kind == 'chain':
            k = s.int(3, 6)
            fl = s.draw(3) == 0
            e = None
            ops = []
            for i in range(k):
                x = self.place(s.pick(LOCS), self.value('f' if fl and s.draw(2) else 'i'), st, fn)
                if e is None:
                    e = x
                else:
                    op = s.pick(['+', '-', '*', '/'] + (CMP[:4] if fl else ['&', '|', '^', '%', '<<', '>>'] + CMP + LOG))
                    if op in ('<<', '>>'):
                        x = ('lit', s.int(0, 31))
                    if op == '%':
                        x = ('bin', '|', x, ('lit', 1))
                    e = ('bin', op, e, x) if s.draw(2) else ('bin', op, x, e) if op not in ('<<', '>>', '%') else ('bin', op, e, x)
            st += self.use(e, fn)
            return st, 'chain'
        if 's' in (ta, tb):
            ops = ['+'] if ta != tb else ['+', '==', '!=']
            if kind == 'casg':
                ops = ['+'] if ta == 's' else []
                if not ops:
                    ta, ops = 's', ['+']
            if kind == 'cond':
                ta = tb = 's'
                ops = ['==', '!=']
        elif 'f' in (ta, tb):
            ops = ['+', '-', '*', '/'] + ([] if kind == 'casg' else CMP + LOG)
        else:
            ops = ARITH + ([] if kind == 'casg' else CMP + LOG)
        op = s.pick(ops)
        va, vb = self.value(ta), self.value(tb)
        if op in ('<<', '>>'):
            vb = s.int(0, 31)
        if op == '%' and vb == 0:
            vb = 3
        if s.chance(1, 5) and type(va) == type(vb) and op not in ('<<', '>>', '%'):
            vb = va
        la = s.pick(lv if kind == 'casg' else LOCS)
        lb = s.pick(LOCS)
        a = self.place(la, va, st, fn)
        same = s.chance(1, 12) and op not in ('<<', '>>', '%')
        b = a if same else self.place(lb, vb, st, fn)
        if kind == 'casg':
            e = ('asg', op, a, b)
            if s.draw(3) == 0:
                r = self.res(fn)
                st.append(('decl', r, e))
                st.append(self.out(('var', r), a))
            else:
                st.append(('expr', e))
                st.append(self.out(a))
            if b[0] != 'call' and not same:
                st.append(self.out(b))
            return st, 'casg'
        e = ('bin', op, a, b)
        if kind == 'cond':
            st += self.use(e, fn, cond=True)
        else:
            st += self.use(e, fn, strres=(op == '+' and 's' in (ta, tb)))
        st.append(self.out(*[x for x in (a, b) if x[0] != 'call']) if not (a[0] == 'call' and b[0] == 'call') else ('empty',))
        self.stats.append('%s:%s%s' % (op, ta, tb))
        return st, 'bin'

    def res(self, fn):
        r = self.name('r')
        if fn is not None:
            fn.locals_.append(r)
        return r

    def out(self, *a):
        return ('expr', ('host', 'out', list(a)))

    def use(self, e, fn, cond=False, strres=False):
        s = self.s
        k = s.draw(10)
        if cond:
            k = s.pick([6, 7, 8])
        if strres:
            k = s.draw(6)
        if k in (0, 3):
            return [self.out(e)]
        if k == 1:
            r = self.res(fn)
            return [('decl', r, e), self.out(('var', r))]
        if k == 2:
            r = self.res(fn)
            return [('decl', r, None), ('expr', ('asg', '', ('var', r), e)), self.out(('var', r))]
        if k == 4:
            r = self.res(fn)
            return [('declarr', r, [('lit', 1), e]), self.out(('var', r))]
        if k == 5:
            r = self.res(fn)
            return [('decl', r, None), ('expr', ('asg', '', ('var', r), ('host', 'hstr', [e]))), self.out(('var', r), e)]
        if k == 6:
            return [('if', [(e, [self.out(('lit', 1))])], [self.out(('lit', 0))])]
        if k == 7:
            r = self.res(fn)
            return [('decl', r, ('lit', 0)),
                    ('while', e, [('expr', ('asg', '+', ('var', r), ('lit', 1))), ('break',)]), self.out(('var', r))]
        if k == 8:
            return [('if', [(('un', '!', ('par', e)), [self.out(('lit', 1))])], [self.out(('lit', 0))])]
        f = self.identity()
        return [self.out(('call', f, [e]))]

    def identity(self):
        for f in self.p.funcs.values():
            if f.name == 'ident':
                return 'ident'
        f = Func('ident', ['q'], ['i'], 'i')
        f.body = [('return', ('var', 'q'))]
        self.p.funcs['ident'] = f
        self.p.order.append(('f', 'ident'))
        return 'ident'

    def build(self):
        s, p = self.s, self.p
        self.gl = []
        main = []
        kinds = []
        for _ in range(s.int(1, 6)):
            if s.draw(2):
                fn = Func(self.name('f'), [], [], 'i')
                self.args = []
                st, k = self.probe(fn)
                if fn.params and s.draw(4) == 0:
                    pass
                fn.body = st
                p.funcs[fn.name] = fn
                p.order.append(('f', fn.name))
                main.append(('expr', ('call', fn.name, self.args)))
            else:
                self.args = []
                st, k = self.probe(None)
                main += st
            kinds.append(k)
        p.order = [('st', g) for g in self.gl] + p.order
        p.pre = len(self.gl)
        p.main = self.gl + main
        return kinds + self.stats


class C01(Prop):
    id = 'C01'
    configs = ['default', 'compact', 'amalgam']
    quick = 40000
    thorough = 800000
    rule = ('a case is a program of 1-6 probes (or one deep-expression program); non-trivial when the model evaluated at '
            'least one operator without hitting an undefined combination and the engine printed at least one result; '
            'distinct by the whole generated choice sequence')
    assumptions = ['operators on operand combinations the documentation leaves open (bit operators and % on floats, shift '
                   'counts outside 0..31, % by zero, comparison of NaN, float equality within 1e-5) are excluded',
                   'string + float excluded here (text form of floats is C19)']

    def gen(self, s):
        if s.draw(4) == 3:
            g = gen.Gen(s, edepth=5, loops=0, stmts=8, funcs=2, foreach=0, switch=0)
            p = g.program()
            cl = ['deep']
        else:
            b = Build(s)
            cl = b.build()
            p = b.p
        r = lang.Render(redundant=(lambda: s.chance(1, 10)))
        src = r.prog(p)
        it = lang.Interp(p)
        it.run()
        return dict(src=src, log=it.log(), cfg=s.pick(self.configs), cl=cl, stats=it.stats)

    def run(self, case, eng):
        r = eng[case['cfg']].script(case['src'], stack=2000)
        expect(r, case['log'])
        return bool(case['log']), case['cl'] + [case['cfg']]

    def render(self, case):
        return case['src']


def expect(r, log):
    if r.cerr:
        raise Violation('[%s] compile error %s %s' % (r.cfg, r.cerr, r.msg))
    if r.err or r.log != log:
        raise Violation('[%s] err=%s\n got: %s\nwant: %s' % (r.cfg, r.err, r.log, log))
    if r.leak:
        raise Violation('[%s] %s allocations still live after the state was destroyed' % (r.cfg, r.leak))


PROP = C01()
