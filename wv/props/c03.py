"""Variables, scoping, calls, arguments, recursion vs. the reference model."""
from ..core import *
from .. import lang, gen
from ..lang import *
from .c01 import expect


def out(*a):
    return ('expr', ('host', 'out', list(a)))


class Scope:
    """functions with many parameters and locals, shadowing, recursion that
    keeps locals alive across the call, arguments of every kind"""

    def __init__(self, s):
        self.s = s
        self.p = Prog()
        self.cl = set()

    def build(self):
        s, p = self.s, self.p
        G = []
        types = {}
        pre = []
        for i in range(s.int(1, 6)):
            n = 'g%d' % i
            k = s.draw(6)
            if k < 3:
                pre.append(('decl', n, gen.ilit(s))); types[n] = 'i'
            elif k == 3:
                pre.append(('decl', n, gen.slit(s))); types[n] = 's'
            elif k == 4:
                pre.append(('declarr', n, [gen.ilit(s) for _ in range(3)])); types[n] = 'a'
            else:
                pre.append(('decl', n, ('hash', [(('lit', 1), gen.ilit(s)), (('lit', b'k'), gen.ilit(s))]))); types[n] = 'h'
            G.append(n)
        nf = s.int(1, 5)
        sigs = []
        for i in range(nf):
            np_ = s.weighted([(6, s.int(0, 4)), (1, s.int(5, 14))])
            sigs.append(('f%d' % i, np_))
        for i in range(nf):
            p.funcs['f%d' % i] = self.function(i, sigs, G, types)
        main = []
        for _ in range(s.int(1, 8)):
            main.append(self.callst(s.pick(sigs), G, types, None))
            if s.draw(3) == 0:
                n = s.pick(G)
                if types[n] == 'i':
                    main.append(('expr', ('asg', s.pick(['', '+', '*']), ('var', n), gen.ilit(s))))
        main.append(out(*[('var', g) for g in G]))
        p.main = pre + main
        p.pre = len(pre)
        order = [('f', 'f%d' % i) for i in range(nf)]
        order = s.shuffle(order)
        p.order = [('st', x) for x in pre] + order
        return p

    def atom(self, env, depth=0):
        """integer valued argument expression from the names in env"""
        s = self.s
        ints = [x for x, t in env if t == 'i']
        k = s.draw(6)
        if k < 3 and ints:
            return s.pick(ints)
        if k == 3 and ints:
            return ('bin', s.pick(['+', '-', '*', '^']), s.pick(ints), gen.ilit(s))
        return gen.ilit(s)

    def callst(self, sig, G, types, env):
        s = self.s
        name, np_ = sig
        e = env if env is not None else [(('var', g), types[g]) for g in G]
        n = np_
        if s.chance(1, 4):
            n = s.int(0, np_)
            self.cl.add('missing-args')
        elif s.chance(1, 8):
            n = np_ + s.int(1, 2)
            self.cl.add('extra-args')
        args = [('lit', s.int(0, 3))]
        for i in range(1, n):
            if s.draw(4) == 0:
                x, t = s.pick(e)
                args.append(x)
                self.cl.add('arg-' + t)
            else:
                args.append(self.atom(e))
        return out(('call', name, args[:n]))

    def function(self, i, sigs, G, types):
        s = self.s
        name, np_ = sigs[i]
        f = Func(name, [], [], 'i')
        names = []
        for k in range(np_):
            n = 'p%d' % k
            if k and s.chance(1, 5):
                n = s.pick(G)
                self.cl.add('shadow-param')
                if n in names:
                    n = 'p%d' % k
            names.append(n)
        f.params = names
        body = []
        nl = s.weighted([(6, s.int(0, 5)), (1, s.int(10, 60))])
        locs = []
        env = [(('var', n), '?') for n in names[1:]]
        ienv = []
        if np_:
            ienv.append((('var', names[0]), 'i'))
        for k in range(nl):
            n = 'l%d' % k
            if s.chance(1, 8) and nl < 10:
                n = s.pick(G)
                if n in names or n in locs:
                    n = 'l%d' % k
                else:
                    self.cl.add('shadow-local')
            if n in locs:
                continue
            locs.append(n)
            if s.draw(4) == 0:
                body.append(('decl', n, None))
            else:
                body.append(('decl', n, self.atom(ienv)))
            ienv.append((('var', n), 'i'))
        f.locals_ = list(locs)
        hidden = set(names) | set(locs)
        # globals, reached directly or with :: when shadowed
        genv = []
        for g in G:
            genv.append((('gvar', g) if g in hidden or s.draw(3) == 0 else ('var', g), types[g]))
        env_all = ienv + genv
        if env:
            body.append(out(*[x for x, _ in env[:8]]))
        if locs:
            body.append(out(*[('var', l) for l in locs[:10]]))
        # mutations
        for _ in range(s.int(0, 4)):
            k = s.draw(5)
            if k == 0 and names[1:]:
                # assign to a parameter: never visible to the caller
                body.append(('expr', ('asg', '', ('var', s.pick(names[1:])), self.atom(ienv))))
                self.cl.add('assign-param')
            elif k == 1 and ienv:
                x = s.pick(ienv)[0]
                if x[1] != (names[0] if names else None):
                    body.append(('expr', ('asg', s.pick(['+', '-', '^']), x, self.atom(ienv))))
            elif k == 2:
                x, t = s.pick(genv)
                if t == 'i':
                    body.append(('expr', ('asg', s.pick(['', '+', '-']), x, self.atom(ienv))))
                elif t == 'a':
                    body.append(('expr', ('asg', '', ('idx', x, ('lit', s.draw(3))), self.atom(ienv))))
                elif t == 'h':
                    body.append(('expr', ('asg', '', ('idx', x, ('lit', s.pick([1, b'k', 7]))), self.atom(ienv))))
                self.cl.add('write-global')
            elif k == 3 and ienv:
                x = s.pick(ienv)[0]
                if x[1] != (names[0] if names else None):
                    body.append(('expr', ('inc', s.pick(['pre', 'post']), s.pick([1, -1]), x)))
            else:
                body.append(out(*[x for x, _ in s.shuffle(env_all)[:3]]))
        # calls: recursion bounded by the first parameter, others only to later functions
        if np_ and s.draw(2):
            p0 = ('var', names[0])
            j = s.pick([k for k in range(len(sigs)) if sigs[k][1] >= 1])
            tn, tp = sigs[j]
            args = [('bin', '-', ('bin', '&', p0, ('lit', 3)), ('lit', 1))]
            n = tp if s.draw(3) else s.int(1, tp)
            for k in range(1, n):
                args.append(s.pick([x for x, _ in env_all + env]) if s.draw(2) else self.atom(ienv))
            r = 'r0'
            f.locals_.append(r)
            body.append(('if', [(('bin', '>', p0, ('lit', 0)), [('decl', r, ('call', tn, args)), out(('var', r))])], None))
            self.cl.add('recursion' if j == i else 'mutual')
            # locals must have survived
            body.append(out(*[x for x, _ in (ienv + env)[:8]]))
        if s.draw(5):
            ret = self.atom(ienv)
            if s.draw(4) == 0 and genv:
                ret = s.pick([x for x, _ in env_all])
            body.append(('return', ret))
        else:
            self.cl.add('no-return')
        f.body = body
        return f


class C03(Prop):
    id = 'C03'
    configs = ['default', 'compact', 'amalgam']
    quick = 30000
    thorough = 600000
    rule = ('a case is a generated program of 1-6 functions and the calls to them; non-trivial when at least one script '
            'function was called; distinct by choice sequence')
    assumptions = ['arguments are passed by value, containers by reference to the same container',
                   'a variable declared without a value is 0 when its function is entered',
                   'a name declared inside a block belongs to the whole function']

    def gen(self, s):
        if s.draw(3) == 2:
            g = gen.Gen(s, funcs=6, stmts=8, edepth=2)
            p = g.program()
            cl = ['mixed']
        else:
            b = Scope(s)
            p = b.build()
            cl = sorted(b.cl)
        src = lang.Render().prog(p)
        it = lang.Interp(p)
        it.run()
        return dict(src=src, log=it.log(), cfg=s.pick(self.configs), cl=cl, calls=it.stats['calls'], stats=it.stats)

    def run(self, case, eng):
        r = eng[case['cfg']].script(case['src'], stack=4000)
        expect(r, case['log'])
        return case['calls'] > 0, case['cl'] + [case['cfg']]

    def render(self, case):
        return case['src']


PROP = C03()
