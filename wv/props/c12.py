"""The compiler answers every text, the same way every time, with an image or an error."""
import re
from ..core import *
from .. import lang, gen, cont

TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_][A-Za-z_0-9]*|0[xX][0-9a-fA-F]+|[0-9]+\.?[0-9]*f?|//[^\n]*|/\*.*?\*/|::|<<=|>>=|[-+*/%&|^<>=!]=|&&|\|\||\+\+|--|<<|>>|\s+|.', re.S)

WORDS = ['var', 'if', 'else', 'for', 'while', 'do', 'switch', 'case', 'default', 'break', 'continue', 'return', 'function', 'unit', 'struct', 'new', 'enum',
         'export', 'goto', 'global', 'yield', 'true', 'false', 'null', 'blank', 'int', 'float', '_count', '_hash', '_remove', '_exists', 'a', 'b', 'c', 'f', 'g', 'S',
         'h', 'x', 'str', 'math', 'sys', 'main', '_', '__', '::', '(', ')', '{', '}', '[', ']', ';', ',', ':', '.', '=', '==', '!=', '<', '>', '<=', '>=', '+', '-', '*',
         '/', '%', '&', '|', '^', '~', '!', '&&', '||', '++', '--', '<<', '>>', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '@', '#', '$', '\\', '`',
         '?', '0', '1', '2', '-1', '255', '256', '65536', '0x7fffffff', '4294967296', '99999999999', '1.5', '.5', '1.', '1.5f', '0b101', '017', '0x', '"s"', '""', "'c'",
         "'\\n'", '"a\\"b"', '"', "'", '/*', '*/', '//', '\n', ' ', '\t', '\0', '\x80', '\xff', '"\\', '._count', '.f', '{}', '()', '[]', '{:}', ';;', 'sys::', '::f',
         'str::len(', 'a[', 'f(', '(int)', '(float)', 'x:', 'goto x;', 'new S', 'new S()', '@@', '"\\x"', "''", "'ab'"]

ENDS = ['"x\\0', '"\\012', '"\\n', '"a\\"', "'\\0", "'\\\\", '0x12ab', '0b1010', '01234567', '123.5e', '123.456f', '.5', '-.5', '1.', '/* a *', '/* a **', '// a', 'a::b', '::a', 'a:', 'a.b', 'a._count',
        'label_', 'function', 'a<<=', 'a>>=', 'a==', 'a!=', 'a&&', 'a||', 'a++', 'a--', 'a+=', 'struct S', 'new S', '@a', '{ 1:', 'a[', 'a ( int )', 'true', 'null', '\\', '0', '0x', '0b', 'f( a, b', 'return', 'goto x',
        'case 1:', 'enum { A', 'sys::importCompile(', 'yield(', '"\\x', '"\\x4', '"\\x41', '"\\r\\t\\v', 'a -', 'a*', 'a^', 'a~', 'a%']

SEEDS = ['''struct S( a, b ) { var x = a; var y; function m( q ) { return x + q; } } var s = new S( 1, 2 ); s.x = 3; out( s.x, s.y ); var t = new S { x = 1 }; ''',
         '''enum { A, B = 3, C } enum E { P, Q = 10, R } out( A, B, C ); ''',
         '''function f( a, b ) { if ( a > b ) { return a; } else if ( a == b ) { return; } return f( a + 1, b - 1 ) * 2; } out( f( 1, 5 ) ); ''',
         '''var a[] = { 1, 2, 3 }; var h = { 1: 2, "k": { 3, 4 }, 5: { 6: 7 } }; a[2] = h["k"][0]; for ( var k, var v : h ) { out( k, v ); } for ( var e : a ) out( e ); ''',
         '''var i = 0; top: i++; if ( i < 5 ) goto top; while ( i ) { --i; if ( i % 2 ) continue; else break; } do { i += 2; } while ( i < 9 ); ''',
         '''switch ( i ) { case 1: case 2: out( 1 ); break; case 'x': out( 2 ); case "str": break; default: out( 3 ); } var i; ''',
         '''for ( var j = 0, var k = 3; j < 10; j++, k -= 2 ) { var q[3]; q[1] = j << 2 | k & 3 ^ ~j; } for (;;) { break; } ''',
         '''export var g = 4; export function ef( z ) { yield( z, 2 ); return ::g; } yield; var y = yield( 1 ); ''',
         '''var s = "a\\n\\t\\\\b\\"c\\0" + 'd' + 1.5f + 0x1F + .25; s += str::len( s ); s = str::format( "%d %s", 1, s ); out( s._count, s._hash ); ''',
         '''h = { "x": 1 }; h.x = 2; h.y.z = 3; h.x._remove(); if ( h._exists( "y" ) ) h._remove( "x" ); out( h._count ); ''',
         '''unit u( a ) { global x = a; return x; } /* block */ // line
u( 3 ); ''',
         '''var f2 = (int)3.7 + (float)2 - -1 + !0 + ~5; f2 = f2 = 3; f2++; --f2; f2 <<= 2; f2 >>= 1; f2 ^= 3; f2 |= 8; f2 &= 12; f2 %= 5; f2 *= 2; f2 /= 3; ''',
         '''struct P { var z = 2; } var p = new P(); var q = { new P(), 3 }; function w() { return { 1, 2 }; } w()[0]; sys::importCompile( "x" ); ''',
         '''struct S { var x; } var s = new S(); function n() { var r = new S(); goto e; e: return r; } function o() { var r = new S(); e: if ( r.x ) goto e; } goto e; e: n(); ''']


def mutate(s, toks):
    for _ in range(1 + s.draw(4) + (s.draw(12) if s.chance(1, 5) else 0)):
        n = len(toks)
        k = s.draw(9)
        i = s.draw(n + 1)
        if k == 0:
            del toks[i:i + 1 + s.draw(3)]
        elif k == 1:
            toks.insert(i, s.pick(WORDS))
        elif k == 2 and n:
            toks[min(i, n - 1)] = s.pick(WORDS)
        elif k == 3 and n:
            j, l = s.draw(n), 1 + s.draw(8)
            toks[i:i] = toks[j:j + l]
        elif k == 4 and n:
            j = s.draw(n)
            i = min(i, n - 1)
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 5:
            del toks[i:]
        elif k == 6 and n:
            i = min(i, n - 1)
            t = list(toks[i])
            p = s.draw(len(t) + 1)
            if s.draw(2) and p < len(t):
                t[p] = chr(s.draw(256))
            else:
                t.insert(p, chr(s.draw(256)))
            toks[i] = ''.join(t)
        elif k == 7:
            toks[i:i] = [s.pick(WORDS) for _ in range(s.draw(6))]
        elif k == 8 and n:
            i = min(i, n - 1)
            toks[i] = toks[i] * (1 + s.draw(4) + (s.draw(60) if s.chance(1, 8) else 0))
    return toks


def text(s):
    k = s.weighted([(3, 'seed'), (4, 'prog'), (1, 'soup'), (1, 'bytes'), (1, 'nest'), (1, 'big'), (1, 'cut')])
    if k == 'seed':
        src = ''.join(s.pick(SEEDS) for _ in range(1 + s.draw(2)))
        return k, ''.join(mutate(s, TOK.findall(src)))
    if k == 'prog':
        g = gen.Gen(s, funcs=2, stmts=4, gotos=s.draw(2))
        p = g.program()
        src = lang.Render().prog(p)
        if s.chance(1, 6):
            return 'plain', src
        if s.chance(1, 6):
            # one name is not what it was: a target, a function, a struct that does not exist
            toks = TOK.findall(src)
            i = [i for i, x in enumerate(toks) if x[0].isalpha() and x not in WORDS[:32]]
            if i:
                toks[s.pick(i)] += 'q'
            return 'renamed', ''.join(toks)
        return k, ''.join(mutate(s, TOK.findall(src)))
    if k == 'cut':
        # a text that ends inside one of its tokens
        src = s.pick(['', 'a ', 'var a = ', 'out( ', 'var a = 1; a ', 'var a[] = { ', 'function f( a ) { a ', 'if ( 1 ) ', 'struct S { var x = ', 'var h = { ', 'sys::f( ', 'switch ( 1 ) { case '])
        src += s.pick(['', ' ', '=', '(', '1 + '])
        t = s.pick(ENDS) if s.draw(2) else s.pick(WORDS)
        if s.draw(2):
            t = t[:1 + s.draw(len(t))]
        return k, src + t + (s.pick(ENDS) if s.chance(1, 4) else '')
    if k == 'soup':
        return k, s.pick(['', ' ']).join(s.pick(WORDS) for _ in range(1 + s.draw(30)))
    if k == 'bytes':
        n = s.draw(40)
        if s.draw(2):
            return k, ''.join(chr(s.draw(256)) for _ in range(n))
        return k, ''.join(chr(32 + s.draw(95)) for _ in range(n))
    if k == 'nest':
        d = 1 + s.draw(40)
        o, m, c = s.pick([('(', '1', ')'), ('{ ', '', '}'), ('if ( 1 ) { ', '', '}'), ('-', '1', ''), ('!', 'x', ''), ('a[', '0', ']'), ('f( ', '1', ')'), ('{ 1, ', '2', '}'),
                          ('while ( a ) {', 'break;', '}'), ('switch ( a ) { case 1: ', 'a = 1;', '}'), ('1 + ( ', '2', ')'), ('a = ', '1', ''), ('a.', 'b', ''),
                          ('for ( a : b ) { ', '', '}'), ('function f() {', '', '}'), ('struct f {', '', '}'), ('(int)', '1', ''), ('do {', '', '} while ( a );'),
                          ('{ 1: ', '2', '}')])
        e = s.draw(3)
        body = o * d + m + c * (d if not e else d - e if d > e else d + e)
        return k, s.pick(['', 'var a = 0; var x = 0; function f( q ) { return q; } a = ', 'function g() { var b = ', 'x = ']) + body + s.pick([';', '', '; }', '}'])
    n = 1 + s.draw(300 if s.chance(1, 4) else 40)
    w = s.pick(['var v%d = %d;', 'function f%d() { return %d; }', 'out( "s%d", %d );', 'x%d: goto x%d;', 'struct s%d { var m%d; }', 'enum { e%d = %d }', 'a.m%d = %d;',
                'var a%d[] = { %d };', 'if ( a == %d ) { a = %d; }', 'case %d: out( %d );'])
    body = ' '.join(w % (i, i) for i in range(n))
    if 'case' in w:
        body = 'var a = 3; switch ( a ) { ' + body + ' }'
    if s.draw(3) == 0:
        body = 'function F() { ' + body + ' }'
    if s.draw(4) == 0:
        L = s.pick([1, 10, 63, 64, 65, 127, 255, 256, 1000, 40000])
        body += s.pick(['var %s = 1; ', '"%s"', 'out( "%s" );', 'function %s() {}', 'a.%s = 2;', '// %s', '/* %s */', '0%s', "'%s'"]) % (s.pick('xX1') * L)
    return k, body


REPORT = re.compile(rb'line:(\d+)\nerr: WR_ERR_[a-z_A-Z]+\[(\d+)\]\n')


class C12(Prop):
    id = 'C12'
    configs = ['default', 'compact', 'amalgam']
    quick = 20000
    thorough = 1500000
    rule = ('a case is a text (mutated generated or hand-written programs, texts that end inside a token, token and byte soup, nested, long and numerous constructs) with generated compile '
            'flags, compiled twice (and, when rejected, again below some blank lines); non-trivial when it is not blank and at least 8 bytes long')
    assumptions = ['nesting up to 42 levels']

    def gen(self, s):
        k, src = text(s)
        b = src.encode('latin-1', 'replace')
        return dict(kind=k, src=b, flags=s.pick([0, 0, 0, 8, 1, 2, 4, 15, 3]), nul=s.draw(2), cfg=s.pick(self.configs), report=s.draw(4))

    def run(self, case, eng):
        e = eng[case['cfg']]
        r = e.req([['compile', 0, case['flags'], case['nul'], case['src']], ['compile', 1, case['flags'], 1 - case['nul'], case['src']]])
        a, b = r[0], r[1]
        for x in (a, b):
            if x[3] != b'0':
                raise Violation('compilation leaks %r' % x)
            if x[0] != b'0' and x[1] != b'0':
                raise Violation('an error and an image %r' % x)
            if x[0] == b'0' and int(x[1]) < 4:
                raise Violation('neither an error nor an image %r' % x)
        if a != b:
            raise Violation('two compilations of the same text differ: %r %r' % (a, b))
        tags = [case['kind'], 'error' if a[0] != b'0' else 'image']
        if a[0] != b'0' and a[2] == b'link error [%s]\n' % a[0]:
            tags.append('link error')
        elif a[0] != b'0' and case['report'] and b'\0' not in case['src']:
            k = case['report'] - 1
            c = e.req([['compile', 0, case['flags'], case['nul'], b'\n' * k + case['src']]])[0]
            if c[0] != a[0]:
                raise Violation('%d blank lines in front change the error: %r %r' % (k, a, c))
            la, lc = REPORT.match(a[2]), REPORT.match(c[2])
            if not la or not lc or la.group(2) != a[0] or lc.group(2) != c[0]:
                raise Violation('error report does not name a line and this error: %r %r' % (a, c))
            if int(lc.group(1)) != int(la.group(1)) + k:
                raise Violation('%d blank lines in front, but the reported line goes from %s to %s: %r' % (k, la.group(1).decode(), lc.group(1).decode(), c))
            lines = case['src'].split(b'\n')
            n = int(la.group(1))
            if not 1 <= n <= len(lines):
                raise Violation('reports line %d of %d' % (n, len(lines)))
            if a[2].split(b'\n', 2)[2].startswith(b'%-5d %s\n' % (n, lines[n - 1])) is False:
                raise Violation('reports line %d as %r' % (n, a[2]))
            tags.append('reported')
        if a[0] == b'0':
            r = e.req([['compile', 0, case['flags'], case['nul'], case['src']], ['compile', 1, case['flags'], 1 - case['nul'], case['src']],
                       ['getbuf', 0], ['getbuf', 1], ['valid', 0], ['newstate', 0, 64, 1, -1, 0], ['newctx', 0, 0, 0, 0]])
            g = e.req([['compile', 0, case['flags'], case['nul'], case['src'] + b'\n)']])[0]
            if g[0] == b'0':
                raise Violation('accepted with a stray ) at its end, so not all of the text was read')
            if r[2][0] != r[3][0]:
                raise Violation('two compilations of the same text give different images')
            if r[4][0] != b'1':
                raise Violation('the image is not valid')
            if r[6][0] != b'ok':
                raise Violation('no context for the image: %r' % r[6])
            if r[-1][0] != b'0':
                raise Violation('leak %r' % r[-1])
        return len(case['src'].split()) > 0 and len(case['src']) >= 8, tags

    def render(self, case):
        return '// %s flags=%d nul=%d\n%s' % (case['cfg'], case['flags'], case['nul'], case['src'].decode('latin-1'))


PROP = C12()
