"""Modules imported into one another behave like one program with private globals."""
import re
from ..core import *
from .. import lang, gen
from ..lang import Prog


class Mod:
    pass


def rename(src, old, new):
    """token-wise, string literals stay"""
    return re.sub(r'"(?:\\.|[^"\\])*"|\b%s\b' % old, lambda m: new if m.group(0) == old else m.group(0), src, flags=re.S)


def imglit(b):
    """a string literal with these bytes"""
    o, num = '', False
    for c in b:
        if 32 <= c < 127 and c not in (34, 92) and not (num and 48 <= c <= 57):
            o += chr(c)
            num = False
        else:
            o += '\\0%d' % c
            num = True
    return '"%s"' % o


class C17(Prop):
    id = 'C17'
    configs = ['default', 'compact', 'slices', 'amalgam']
    quick = 8000
    thorough = 160000
    rule = ('a case is a main program and one to three imported modules (by the host before or after main ran, or by main itself through '
            'sys::importCompile or sys::importByteCode, also from inside a function) whose functions call each other in any direction, followed by host calls into any '
            'module; non-trivial when at least one call crossed modules')
    assumptions = ['the top-level code of an imported module calls only its own functions; imported code does not yield']

    def gen(self, s):
        nm = s.int(1, 3)
        g = gen.Gen(s, funcs=3, stmts=6, globals=4, shadow=1, depth=2, edepth=2)
        names = ['main'] + ['m%d' % i for i in range(nm)]
        how = {}
        order = s.shuffle(names)
        late = None
        if s.draw(3) == 0 and nm > 1:
            late = 'm%d' % (nm - 1)
            order.remove(late)
            order.append(late)
        mods = {}
        allf = {}
        owner = {}
        fbody = []
        for m in order:
            p = Prog()
            p.funcs = dict(allf)
            M = Mod()
            M.name, M.p = m, p
            g.p, g.vars, g.loc, g.fn = p, [], None, None
            hold, p.funcs = p.funcs, {}
            pre = [g.decl(('a', 'i'), 'g')]
            p.funcs = hold
            for _ in range(s.int(1, 4)):
                oh, g.o = g.o, dict(g.o, structs=0)
                hold, p.funcs = p.funcs, {}
                pre.append(g.decl(None, 'g'))
                p.funcs = hold
                g.o = oh
            top = []
            if m != 'main':
                hold, p.funcs = p.funcs, {}
                top = g.stmts(s.int(0, 4), 2)
                p.funcs = hold
                top = [x for x in top if x[0] != 'return']
            for st in pre:
                p.order.append(('st', st))
            for st in top:
                p.order.append(('st', st))
            if s.draw(2):
                g.structdef()
            M.own = []
            for _ in range(s.int(1, 3)):
                f = g.function(pure=bool(s.draw(2)), rec=bool(s.chance(1, 5)))
                allf[f.name] = f
                owner[f.name] = m
                called = set(re.findall(r"'call', '(\w+)'", repr(f.body)))
                f.intomain = m != 'main' and any(owner[c] == 'main' or allf[c].intomain for c in called if c != f.name)
                M.own.append(f.name)
            # shows the module's globals
            vs = [v for v in g.vars if not v.hidden]
            args = []
            for v in vs:
                if isinstance(v.t, tuple) and v.t[0] == 'S':
                    args += [('mem', ('var', v.name), f) for f, _ in p.structs[v.t[1]].fields]
                else:
                    args.append(('var', v.name))
            sh = lang.Func('show_' + m, [], [], 'i')
            sh.done, sh.pure = False, False
            sh.body = [('expr', ('host', 'out', args[i:i + 6])) for i in range(0, len(args), 6)] + [('return', ('lit', len(args)))]
            p.funcs[sh.name] = sh
            p.order.append(('f', sh.name))
            M.show = sh
            M.vars, M.pre, M.top = g.vars, pre, top
            mods[m] = M
        # main's own code, seeing every function but those of a late module
        M = mods['main']
        # main's global code is still running when it calls: no way back into main
        for k, v in allf.items():
            if v.intomain:
                M.p.funcs.pop(k, None)
        M.p.funcs.update({k: v for k, v in allf.items() if owner[k] != late and not v.intomain})
        g.p, g.vars, g.loc, g.fn = M.p, M.vars, None, None
        main = [x for x in g.stmts(s.int(2, 7), 2) if x[0] != 'return']
        for k in list(allf):
            f = allf[k]
            if owner[k] != 'main' and owner[k] != late and not f.intomain and s.draw(2):
                ok, c = g.trycall(f)
                if ok:
                    main.insert(s.draw(len(main) + 1) if False else len(main), ('expr', ('host', 'out', [c])))
        M.p.main = M.pre + main
        M.p.pre = len(M.pre)
        # the vars main declared on the way are not visible to show_main; fine
        R = lang.Render()
        src = {}
        cut = {}
        for m, M in mods.items():
            src[m] = R.prog(M.p)
        # the same names in several modules
        ren = {}
        if s.draw(2):
            for m, M in mods.items():
                gv = [v.name for v in M.vars if v in M.vars[:len(M.pre)]]
                t = s.pick(gv)
                src[m] = rename(src[m], t, 'same')
        if s.draw(2):
            for m, M in mods.items():
                t = s.pick(M.own)
                if not any(re.search(r'\b%s\b' % t, x) for n, x in src.items() if n != m):
                    src[m] = rename(src[m], t, 'samef')
                    ren[t] = 'samef'
        # how each module gets in
        steps = []
        early = [m for m in names[1:] if m != late]
        early = s.shuffle(early)
        byscript = s.draw(3) == 0
        model = Prog()
        for M in mods.values():
            model.structs.update(M.p.structs)
            model.funcs.update(M.p.funcs)
        it = lang.Interp(model)
        exp = []
        mark = [0]

        def delta():
            t = it.out[mark[0]:]
            mark[0] = len(it.out)
            return ''.join(x + '\n' for x in t)
        pre_main = ''
        if byscript:
            infn = s.draw(2)
            scr = []
            for i, m in enumerate(early):
                lit = lang.strlit(src[m].encode('latin-1'))
                imp = 'Compile'
                if s.draw(3) == 0:
                    imp = 'ByteCode'
                    lit = '@IMG%s@' % m
                if infn:
                    scr.append('function ld%d( a, b ) { var q = a + 1; var z = "k" + b; out( 7 + sys::import%s( %s ), q, z, a, b ); return q; }\n'
                               'out( "ld", ld%d( %d, "x%d" ) );\n' % (i, imp, lit, i, i + 3, i))
                else:
                    scr.append('sys::import%s( %s );\n' % (imp, lit))
            pre_main = ''.join(scr)
            for i, m in enumerate(early):
                for st in mods[m].pre + mods[m].top:
                    it.st(st)
                if infn:
                    it.emit('i7 i%d "kx%d" i%d "x%d"' % (i + 4, i, i + 3, i))
                    it.emit('"ld" i%d' % (i + 4))
            for st in mods['main'].p.main:
                it.st(st)
            steps.append(('exec', delta()))
        else:
            for m in early:
                for st in mods[m].pre + mods[m].top:
                    it.st(st)
                steps.append(('imp', m, delta()))
            for st in mods['main'].p.main:
                it.st(st)
            steps.append(('exec', delta()))
        for m in (['main'] if byscript else ['main'] + early):
            v = it.call(mods[m].show.name, [])
            steps.append(('call', m, mods[m].show.name, [], lang.dump(v), delta()))
        if late:
            for st in mods[late].pre + mods[late].top:
                it.st(st)
            steps.append(('imp', late, delta()))
        callable_ = [m for m in names if not (byscript and m in early)]
        for _ in range(s.int(0, 8)):
            m = s.pick(callable_)
            k = s.pick(mods[m].own)
            f = allf[k]
            if any(isinstance(t, tuple) for t in f.ptypes):
                continue
            args, av = [], []
            for t in f.ptypes:
                if t == 'i':
                    v = s.int(-5, 60)
                    args.append('i%d' % v)
                elif t == 'f':
                    v = s.int(-40, 40) / 4.0
                    args.append('f%08x' % lang.fbits(v))
                else:
                    v = s.bytes(s.int(0, 5), b'abcxyz')
                    args.append(b's' + v)
                av.append(v)
            v = it.call(k, av)
            steps.append(('call', m, ren.get(k, k), args, lang.dump(v), delta()))
        for m in (['main'] if byscript else names):
            v = it.call(mods[m].show.name, [])
            steps.append(('call', m, mods[m].show.name, [], lang.dump(v), delta()))
        src['main'] = (src['main'] if not pre_main else pre_main + src['main'])
        cross = sum(1 for m in names for k in owner if owner[k] != m and re.search(r'\b%s\(' % k, src[m]))
        return dict(src=src, steps=steps, names=names, gc=s.pick([-1, 0, 0, 300]), cfg=s.pick(self.configs), cross=cross, script=byscript,
                    own=s.draw(2))

    def run(self, case, eng):
        e = eng[case['cfg']]
        names = case['names']
        ops = [['newstate', 0, 2000, 1, case['gc'], 0]]
        src = dict(case['src'])
        img = re.findall('@IMG(.*?)@', src['main'])
        for m in img:
            r = e.req([['compile', 0, 0, 1, src[m]], ['getbuf', 0]])
            if r[0][0] != b'0':
                raise Violation('compile %s: %r' % (m, r[0]))
            src['main'] = src['main'].replace('@IMG%s@' % m, imglit(r[1][0]))
        for i, m in enumerate(names):
            ops.append(['compile', i, 1, 1, src[m]])
        nc = len(ops)
        ops.append(['newctx', 0, 0, 0, case['own']])
        for st in case['steps']:
            if st[0] == 'imp':
                i = names.index(st[1])
                ops.append(['import', 0, i, case['own'], i])
            elif st[0] == 'exec':
                ops.append(['exec', 0])
            else:
                ops.append(['call', names.index(st[1]), st[2]] + st[3])
            ops.append(['log'])
        r = e.req(ops)
        for i in range(len(names)):
            if r[1 + i][0] != b'0':
                raise Violation('compile %s: %r' % (names[i], r[1 + i]))
        if r[nc][0] != b'ok':
            raise Violation('newContext %r' % r[nc])
        k = nc + 1
        for st in case['steps']:
            a, lg = r[k], r[k + 1][0].decode('latin-1')
            k += 2
            want = st[-1]
            if lg != want:
                raise Violation('[%s] step %r\n got: %s\nwant: %s\n(%r)' % (case['cfg'], st[:3], lg, want, a))
            if st[0] == 'imp' and (a[0] != b'ok' or a[1] != b'0'):
                raise Violation('import %s: %r' % (st[1], a))
            if st[0] == 'exec' and (a[0] == b'NULL' or a[1] != b'0'):
                raise Violation('execution of main: %r' % a)
            if st[0] == 'call' and (a[0].decode('latin-1') != st[4] or a[1] != b'0'):
                raise Violation('[%s] call %r: got %r want %s' % (case['cfg'], st[1:4], a, st[4]))
        if r[-1][0] != b'0':
            raise Violation('leak %r' % r[-1])
        return case['cross'] > 0, ['script' if case['script'] else 'host', case['cfg']] + (['image imported by a script'] if img else [])

    def render(self, case):
        o = '// %s gc=%s\n' % (case['cfg'], case['gc'])
        for m in case['names']:
            o += '// ---- module %s\n%s' % (m, case['src'][m])
        return o + '// ---- steps\n' + '\n'.join(repr(x)[:300] for x in case['steps'])


PROP = C17()
