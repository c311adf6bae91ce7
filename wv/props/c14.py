"""An allocation that fails is an error and nothing else (WRENCH_HANDLE_MALLOC_FAIL)."""
from ..core import *
from .. import lang, gen

MF = b'49'

LIBS = ['x = str::mid( "hello world" + x, 1, 6 );', 'x = str::format( "%d-%s-%x", D, "abc", 255 );', 'x = str::concat( "a", "b", x );',
        'x = str::left( "hello" + D, 3 );', 'x = str::right( "hello" + D, 3 );', 'x = str::toupper( "abc" + D );', 'x = str::trim( "  q" + D + "  " );',
        'x = str::insert( "abcdef", "XY", 2 );', 'str::sprintf( x, "%5d|%s", D, "zz" );', 'x = str::trimleft( "  k" ); x = str::trimright( "k  " );',
        'h = { 1: "one", "two": 2, 3: { 4, 5 } };', 'hash::add( h, "n" + D, "v" + D );', 'h["k" + D] = "v" + D; h[D] = D;', 'hash::clear( h ); h = { 1: 2 };',
        'a = { 1, "two", 3.5 };', 'list::push_front( a, "e" + D );', 'array::insert( a, 1, 3 );', 'a[ 5 + D ] = "grown";', 'var b[20]; b[25] = D; a = b;',
        'array::clear( a ); a[3] = 1;', 'list::push( a, "p" + D ); list::pop( a );', 'queue::push( a, 7 );', 'stack::push( a, 8 );',
        'h = new SS( D, "m" + D ) { k = 3 }; h = 0;', 's = new SS( D, "m" + D ); s.k = "kk" + s.m;', 'f( "arg" + D, a );', 'x = f( "q", a );',
        'x = hstr( 1, "two", D );', 'x = std::serialize( h ); var y = 0; y = std::deserialize( x ); out( y ); x = 1;', 'x = "s" + "t" + D;',
        'foreachtest();', 'switch ( "s" + D ) { case "s3": x = "three"; break; default: x = "other"; }', 'x = "literal"; x = x + x + x;',
        'msg::write( "box" + D, D ); out( msg::read( "box" + D ) );', 'D = D + math::abs( 3 );', 'x = str::chr( x, 65 );', 'x = D + "tail"; x += "more";',
        'array::remove( a, 0 ); array::truncate( a, 2 );', 'h[1] = { 1, 2, 3 }; h[2] = h[1];', 'a[0] = { 1: 2 }; a[0][5] = "deep" + D;']


class C14(Prop):
    id = 'C14'
    configs = ['mfail', 'ammfail']
    quick = 30000
    thorough = 300000
    rule = ('a case runs a generated program once to count its allocations, then again with one chosen allocation failing (or that and all later ones), '
            'then once more without failure in the same state; non-trivial when the injected failure happened while the program was running')
    assumptions = ['the compiler and function registration are not covered by the malloc-failure option; allocations are made to fail from context '
                   'creation on']

    def gen(self, s):
        kind = s.pick(['prog', 'prog', 'lib', 'lib', 'lib', 'call', 'import'])
        cfg = s.pick(self.configs)
        gc = s.pick([-1, 0, 500])
        where = s.draw(1000)
        sticky = s.draw(2)
        if kind == 'prog':
            g = gen.Gen(s, funcs=3, stmts=6)
            p = g.program()
            it = lang.Interp(p)
            it.run()
            return dict(kind=kind, src=lang.Render().prog(p), log=it.log(), cfg=cfg, gc=gc, where=where, sticky=sticky)
        body = ''.join('D++; ' + s.pick(LIBS) + ' out( D, x );\n' for _ in range(s.int(1, 10)))
        src = ('var D = 0; var x = "x"; var h = { 1: 2 }; var a[] = { 1, 2, 3 }; var s = 0; struct SS( p, q ) { var m = q; var k = p; }\n'
               'function f( p, q ) { var l = "loc" + p; q[1] = l; return l + q[0]; }\n'
               'function foreachtest() { var t = { 1: 2, 3: 4 }; for ( var k, var v : t ) { x = x + k; } }\n')
        if kind == 'lib':
            src += body
        elif kind == 'call':
            src += 'function work( n, t ) { x = t; D = n;\n%s return x; }\nfunction ping( n ) { return "p" + n; }\n' % body
        else:
            src += body + 'function ping( n ) { return "p" + n; }\n'
        return dict(kind=kind, src=src, log=None, cfg=cfg, gc=gc, where=where, sticky=sticky)

    def run(self, case, eng):
        e = eng[case['cfg']]
        k = case['kind']
        pre = [['newstate', 0, 2000, 1, case['gc'], 0], ['compile', 0, 1, 1, case['src']]]
        act = [['run', 0, 0, 0, 0]]
        if k == 'call':
            pre += act
            act = [['call', 0, 'work', 'i5', 'sarg']]
        elif k == 'import':
            pre += [['compile', 1, 1, 1, 'var M = 5; function ping( n ) { return "p" + n; }'], ['run', 0, 0, 1, 0]]
            act = [['import', 0, 0, 0]]
        r = e.req(pre + [['log'], ['alloc']] + act + [['alloc'], ['log'], ['err', 0]])
        n = len(pre)
        if r[1][0] != b'0':
            raise Violation('compile %r' % r[1])
        n0, n1 = int(r[n + 1][2]), int(r[n + 3][2])
        log = r[n + 4][0]
        if r[n + 5][0] != b'0':
            raise Violation('plain run fails %r' % r[n + 2])
        if case['log'] is not None and log.decode('latin-1') != case['log']:
            raise Violation('plain run\n got: %s\nwant: %s' % (log, case['log']))
        N = n1 - n0
        # a host call makes its arguments first, outside the run
        skip = 0
        if k == 'call':
            skip = 2
        if N <= skip:
            raise Discard('no allocation')
        at = 1 + skip + case['where'] % (N - skip)
        post = [['failat', -1, 0]]
        if k in ('call', 'import'):
            post += [['call', 0, 'ping', 'i4'], ['err', 0]]
        else:
            post += [['log'], ['run', 1, 0, 0, 0], ['log']]
        r = e.req(pre + [['log'], ['failat', at, case['sticky']]] + act + [['err', 0], ['log']] + post)
        a, err, lg = r[n + 2], r[n + 3][0], r[n + 4][0]
        what = '[%s] allocation %d of %d fails%s: ' % (case['cfg'], at, N, ' and all later ones' if case['sticky'] else '')
        if a[0] != b'NULL' or err != MF:
            raise Violation(what + 'result %r, error %r' % (a, err))
        if not log.startswith(lg):
            raise Violation(what + 'output\n%s\nis not a prefix of\n%s' % (lg, log))
        if k in ('call', 'import'):
            x = r[n + 6]
            if x[0] != b'"p4"' or x[1] != b'0':
                raise Violation(what + 'a later call gives %r' % x)
        else:
            x, lg2 = r[n + 7], r[n + 8][0]
            if x[0] != b'ok' or x[1] != b'0' or lg2 != log:
                raise Violation(what + 'a later run gives %r\n got: %s\nwant: %s' % (x, lg2, log))
        if r[-1][0] != b'0':
            raise Violation(what + 'leak %r' % r[-1])
        return at > 2, [k]

    def render(self, case):
        return '// %s %s gc=%s where=%d sticky=%d\n%s' % (case['kind'], case['cfg'], case['gc'], case['where'], case['sticky'], case['src'])


PROP = C14()
