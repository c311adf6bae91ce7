"""With stack protection, running out of stack is an error and nothing else."""
from ..core import *
from .. import lang, gen

OVER = b'38'


class C13(Prop):
    id = 'C13'
    configs = ['slices', 'cslices', 'amslices']
    quick = 36000
    thorough = 300000
    rule = ('a case runs a generated program, or generated unbounded recursion, with a generated small stack, then calls into it again; '
            'non-trivial when the stack ran out or the run completed within a stack less than 4 values larger than one that ran out')
    assumptions = []

    def gen(self, s):
        kind = s.pick(['prog', 'prog', 'prog', 'rec', 'rec', 'hostargs', 'import'])
        cfg = s.pick(self.configs)
        size = s.int(4, 40) if s.draw(3) else s.int(4, 200)
        gc = s.pick([-1, 0])
        if kind == 'prog':
            g = gen.Gen(s, funcs=4, stmts=6)
            p = g.program()
            it = lang.Interp(p)
            it.run()
            return dict(kind=kind, src=lang.Render().prog(p), log=it.log(), size=size, cfg=cfg, gc=gc,
                        slice=s.pick([0, 0, 1, 3, 10]))
        # unbounded recursion through generated frames
        n = s.int(1, 3)
        fs = []
        for i in range(n):
            np_, nl = s.int(0, 8), s.draw(8)
            ps = ['p%d' % k for k in range(np_)]
            ls = ['l%d' % k for k in range(nl)]
            b = ''.join('  var %s = %s;\n' % (l, s.pick(['1', '"s"', '2.5', 'q', 'D'] + ps)) for l in ls)
            na = s.draw(10)
            pool = ps + ls + ['1', '"t"', 'q', '3 + D']
            call = 'f%d( %s )' % ((i + 1) % n, ', '.join(s.pick(pool) for _ in range(na)))
            b += '  D++;\n'
            k = s.draw(6)
            if k == 0:
                b += '  return %s;\n' % call
            elif k == 1:
                b += '  return 1 + %s;\n' % call
            elif k == 2:
                b += '  %s;\n' % call
            elif k == 3:
                b += '  out( "x", 1 + ( 2 + ( 3 + %s ) ) );\n' % call
            elif k == 4:
                b += '  var z[] = { 1, 2, 3 }; z[1] = %s; return z;\n' % call
            else:
                b += '  var st = new SS( 1, %s ); return st.m;\n' % call
            fs.append('function f%d( %s ) {\n%s}\n' % (i, ', '.join(ps), b))
        src = 'var D = 0; var q = "global"; struct SS( x, y ) { var m = y; var n = x; }\n' + ''.join(fs)
        src += 'function ping( a, b ) { return a + b * 2; }\nfunction wide( %s ) { var s = 0; s = w0 + w1; return s; }\n' % ', '.join('w%d' % i for i in range(s.pick([2, 5, 20, 60])))
        nargs = s.int(0, 60)
        if kind == 'import':
            mod = src + 'function go( a ) { return f0( a, 2 ); }\n'
            src = 'var D = 0; function ping( a, b ) { return a + b * 2; }\nfunction deep( n ) { if ( n <= 0 ) { return go( 1 ); } return deep( n - 1 ) + 1; }\n'
            return dict(kind=kind, src=src, mod=mod, size=size, cfg=cfg, gc=gc, n=s.draw(12), slice=0)
        return dict(kind=kind, src=src, size=size, cfg=cfg, gc=gc, nargs=nargs, slice=s.pick([0, 0, 0, 2]))

    def run(self, case, eng):
        e = eng[case['cfg']]
        k = case['kind']
        if k == 'prog':
            r = e.script(case['src'], stack=case['size'], gc=case['gc'], slice=case['slice'])
            if r.cerr:
                raise Violation('compile error %s' % r.msg)
            if r.leak:
                raise Violation('leak %s' % r.leak)
            if r.err == 0:
                if r.log != case['log']:
                    raise Violation('[%s size %d] got: %s\nwant: %s' % (case['cfg'], case['size'], r.log, case['log']))
                # did it need most of the stack?
                return e.script(case['src'], stack=max(4, case['size'] - 4)).err == 38, ['fits']
            if r.err != 38:
                raise Violation('[%s size %d] error %s' % (case['cfg'], case['size'], r.err))
            if not case['log'].startswith(r.log):
                raise Violation('[%s size %d] before the stack ran out\n got: %s\nwant a prefix of: %s' % (case['cfg'], case['size'], r.log, case['log']))
            return True, ['overflow']
        st = ['newstate', 0, case['size'], 1, case['gc'], 0]
        ops = [st, ['compile', 0, 1, 1, case['src']], ['run', 0, 0, 0, 0]]
        n0 = len(ops)
        if k == 'import':
            ops += [['compile', 1, 1, 1, case['mod']], ['import', 0, 1, 0], ['call', 0, 'deep', 'i%d' % case['n']],
                    ['call', 0, 'ping', 'i1', 'i2'], ['call', 0, 'deep', 'i0'], ['call', 0, 'ping', 'i3', 'i4']]
            want = [('o', n0 + 2), (b'i5', n0 + 3), ('o', n0 + 4), (b'i11', n0 + 5)]
        elif k == 'rec':
            ops += [['slice', 0, case['slice']], ['call', 0, 'f0', 'i1', 'i2']]
            if case['slice']:
                # continue until it stops
                ops += [['cont', 0]] * 3
                ops += [['slice', 0, 0], ['cont', 0]]
            else:
                ops += [['call', 0, 'ping', 'i1', 'i2'], ['call', 0, 'f0'], ['call', 0, 'ping', 'i3', 'i4']]
            want = [] if case['slice'] else [('o', n0 + 1), (b'i5', n0 + 2), ('o', n0 + 3), (b'i11', n0 + 4)]
        else:
            ops += [['call', 0, 'wide'] + ['i%d' % (i + 1) for i in range(case['nargs'])],
                    ['call', 0, 'ping', 'i1', 'i2']]
            want = [('w', n0), (b'i5', n0 + 1)]
        r = e.req(ops)
        if r[1][0] != b'0':
            raise Violation('compile %r' % r[1])
        if r[2][0] != b'ok':
            if r[2][1] != OVER:
                raise Violation('run %r' % r[2])
            return True, ['tiny']
        if k == 'import' and r[n0 + 1][0] != b'ok':
            if r[n0 + 1][1] != OVER:
                raise Violation('import %r' % r[n0 + 1])
            return True, ['tiny']
        for w, i in want:
            x = r[i]
            if w == 'o':
                if x[0] != b'NULL' or x[1] != OVER:
                    raise Violation('[%s size %d] unbounded recursion gave %r' % (case['cfg'], case['size'], x))
            elif w == 'w':
                ok = b'i%d' % ((1 if case['nargs'] > 0 else 0) + (2 if case['nargs'] > 1 else 0))
                if not (x[0] == ok and x[1] == b'0') and not (x[0] == b'NULL' and x[1] == OVER):
                    raise Violation('[%s size %d] call with %d arguments gave %r' % (case['cfg'], case['size'], case['nargs'], x))
            elif case['size'] >= 12:
                if x[0] != w or x[1] != b'0':
                    raise Violation('[%s size %d] call after the overflow gave %r, want %r' % (case['cfg'], case['size'], x, w))
            elif not (x[0] == w and x[1] == b'0') and x[1] != OVER:
                raise Violation('[%s size %d] call after the overflow gave %r, want %r' % (case['cfg'], case['size'], x, w))
        if r[-1][0] != b'0':
            raise Violation('leak %r' % r[-1])
        return True, [k]

    def render(self, case):
        return '// %s %s stack=%d gc=%s\n%s%s' % (case['kind'], case['cfg'], case['size'], case['gc'], case['src'], case.get('mod', ''))


PROP = C13()
