"""A program that breaks a rule of the language is rejected with that rule's error, wherever the mistake is."""
import re
from ..core import *
from .. import lang, gen

EOF, TOK, EXPR, LABEL, STMT, ESC, BRK, CONT, UNDECL, EXPORT, BLANK = 7, 8, 9, 10, 11, 14, 16, 17, 22, 23, 27
GLAB, GTGT, NOCASE, CASEHASH, DUP = 39, 41, 43, 45, 46
REPORT = re.compile(rb'line:(\d+)\nerr: WR_ERR_[a-z_A-Z]+\[(\d+)\]\n')
EX = ['1', '0', 'zx', 'zx + 1', '( zx * 2 )', '"s"', '1.5', 'zx == 3', '-zx', '!zx']


class Marked(lang.Render):
    """renders a program with a mark at every place where a statement can stand"""

    def __init__(self):
        lang.Render.__init__(self)
        self.loop = 0
        self.brk = 0
        self.fn = 0
        self.at = []

    def mark(self):
        self.at.append((self.fn, self.loop, self.brk))
        return '\x01%d\x01' % (len(self.at) - 1)

    def block(self, b, ind):
        o = '{\n'
        for x in b:
            o += self.mark() + self.s(x, ind + 1)
        return o + self.mark() + '  ' * ind + '}'

    def s(self, s, ind=0):
        k = s[0]
        l, b = self.loop, self.brk
        if k in ('while', 'dowhile', 'for', 'foreach'):
            self.loop = self.brk = 1
        elif k == 'switch':
            self.brk = 1
        r = lang.Render.s(self, s, ind)
        self.loop, self.brk = l, b
        return r

    def prog(self, p):
        o = []
        for kind, n in p.order:
            o.append(self.mark())
            if kind == 'f':
                self.fn = 1
                f = p.funcs[n]
                o.append('function %s( %s )\n%s\n' % (n, ', '.join(f.params), self.block(f.body, 0)))
                self.fn = 0
            elif kind == 's':
                sd = p.structs[n]
                o.append('struct %s%s\n{\n%s}\n' % (n, ('( ' + ', '.join(sd.params) + ' )') if sd.params else '',
                         ''.join('  var %s%s;\n' % (f, (' = ' + self.e(i)) if i is not None else '') for f, i in sd.fields)))
            else:
                o.append(self.s(n))
        for x in p.main[getattr(p, 'pre', 0):]:
            o.append(self.mark() + self.s(x))
        return ''.join(o) + self.mark()


def simple(s):
    return s.pick(['zx = 1;', 'out( zx );', 'zx += 2;', 'if ( zx ) { zx = 2; }', ';', 'zx++;', '{ zx = 1; }', 'var zw = 3;'])


def bad(s, fn, loop, brk):
    """(rule, error or None for any, text)"""
    e = lambda: s.pick(EX)
    st = lambda: simple(s)
    r = []

    def a(w, rule, err, *texts):
        r.append((w, (rule, err, texts)))
    a(4, 'undeclared', UNDECL, 'zz = %s;' % e(), 'zz++;', '--zz;', 'zz += %s;' % e(), '::zz = %s;' % e(), 'if ( zx ) { zz = %s; }' % e(), 'for ( zz = 0; zx; ) { zx = 0; }', 'for ( ; zx; zz = 1 ) { zx = 0; }',
      'zx = zz = %s;' % e(), 'while ( zz = 0 ) { }', 'var zq = 1; zqq = 2;', 'var zqq = 1; zq = 2;', 'return zz = 1;', 'zz %s= 2;' % s.pick(['-', '*', '/', '%', '&', '|', '^', '<<', '>>']))
    if not fn:
        a(2, 'undeclared', UNDECL, 'function zf( zp ) { var zl = 1; }\nzl = 2;', 'function zf( zp ) { var zl = 1; }\nzp = 2;', 'function zf() { var zl = 1; }\nfunction zg() { zl = 2; }',
          'function zf() { ::zx = 1; ::zl = 2; var zl = 3; }', 'struct zS { var zm; }\nzm = 2;')
        a(1, 'nested', STMT, 'struct zS { var zm; struct zT { var zn; } }', 'struct zS { function zf() { } }', 'function zf() { function zg() { } }', 'function zf() { struct zS { var zm; } }',
          'function zf() { if ( 1 ) { function zg() { } } }', 'function zf() { while ( 1 ) { struct zS { var zm; } } }')
        a(1, 'label', LABEL, 'function 3f() { }', 'function if() { }', 'struct while { var zm; }', 'struct 1 { var zm; }')
        a(1, 'goto', GTGT, 'function zf() { zl: zx = 1; }\ngoto zl;', 'zl: zx = 1;\nfunction zf() { goto zl; }', 'function zf() { zl: zx = 1; }\nfunction zg() { goto zl; }', 'function zf() { goto zll; zl: zx = 1; }')
        a(1, 'export', EXPORT, 'export 3;', 'export var zq;', 'export zx = 1;', 'export if ( 1 ) { }')
    if not brk:
        a(3, 'break', BRK, 'break;', 'if ( %s ) { break; }' % e(), '{ %s break; }' % st(), 'while ( zx ) { zx = 0; } break;', 'switch ( zx ) { case 1: break; } break;', 'for ( ; zx; ) { zx = 0; break; } if ( zx ) break;',
          'do { zx = 0; break; } while ( zx ); break;', 'if ( 0 ) { } else { break; }')
    if not loop:
        a(3, 'continue', CONT, 'continue;', 'if ( %s ) { continue; }' % e(), 'switch ( zx ) { case 1: continue; }', 'while ( zx ) { zx = 0; continue; } continue;', '{ %s continue; }' % st(), 'switch ( zx ) { default: { continue; } }',
          'do { zx = 0; continue; } while ( zx ); continue;', 'for ( ; zx; ) { zx = 0; continue; } if ( zx ) continue;')
    if not fn:
        a(2 if loop or brk else 1, 'break', BRK, 'function zf() { break; }', 'function zf() { if ( 1 ) { break; } }')
        a(2 if loop or brk else 1, 'continue', CONT, 'function zf() { continue; }', 'function zf() { switch ( zx ) { case 1: continue; } }')
    # switches
    n = s.int(1, 8)
    labs = []
    while len(labs) < n:
        l = s.pick([str(s.draw(20)), '"s%d"' % s.draw(20), "'%s'" % chr(97 + s.draw(20)), str(s.int(256, 70000))])
        if l not in labs:
            labs.append(l)
    if s.draw(2):
        labs.insert(s.draw(n + 1), 'default')
    case = lambda l: ('default: ' if l == 'default' else 'case %s: ' % l) + s.pick(['', st(), 'break; ', st() + ' break; '])
    d = list(labs)
    d.insert(s.draw(len(d) + 1), s.pick(labs))
    a(3, 'duplicate case', DUP, 'switch ( %s ) { %s }' % (e(), ' '.join(case(l) for l in d)))
    a(1, 'statement before the first case', NOCASE, 'switch ( %s ) { %s %s }' % (e(), s.pick(['zx = 1;', 'out( zx );', 'zx++;', 'break;', 'if ( zx ) { zx = 2; }', 'return;', '{ zx = 1; }']), ' '.join(case(l) for l in labs)))
    c = [case(l) for l in labs]
    c.insert(s.draw(len(c) + 1), case(s.pick(['zx', 'zz', 'zx + 1', '( zx )', 'out( 1 )'])))
    a(1, 'case label that is no constant', (CASEHASH, EXPR, TOK), 'switch ( %s ) { %s }' % (e(), ' '.join(c)))
    a(2, 'goto', GTGT, 'goto zl;', 'if ( %s ) { goto zl; }' % e(), 'zll: zx = 1; goto zl;', 'goto zl; zll: zx = 2;', 'zl1: zx = 1; if ( zx == 2 ) goto zl2;')
    a(1, 'goto', (GLAB,), 'goto;', 'goto 1;')
    a(1, 'escape', ESC, 'zx = "\\q";', 'zx = "\\x41";')
    a(1, 'blank', BLANK, 'blank zb = 3;')
    a(1, 'enum', LABEL, 'enum { zA, zA }', 'enum { zA } enum { zA }', 'enum { zA, zB, zA = 2 }', 'enum { 1 }', 'enum { zA = 1, zB, zC, zB }')
    o = s.pick(['+', '*', '/', '%', '&', '|', '^', '<<', '>>', '==', '!=', '<', '>', '<=', '>=', '&&', '||'])
    a(4, 'expression', None, 'var zq = ;', 'var zq = %s %s ;' % (e(), o), 'var zq = %s %s;' % (s.pick(['*', '/', '%', '<<', '>>', '==', '<', '>', '|', '^', '&&', '||']), e()), 'var zq = ( %s;' % e(), 'var zq = %s );' % e(), 'zx = %s %s;' % (e(), s.pick(['1', 'zx', '"s"'])),
      'out( %s;' % e(), 'out( %s ) );' % e(), 'zx = %s + * %s;' % (e(), e()), 'zx[ = 3;', 'zx[ 1 = 3;', 'zx = 1 ];', 'var zq = { 1, 2 ;', 'var zq = { 1 2 };', 'var zq[] = { %s %s };' % (e(), s.pick(['1', 'zx', '"s"', '1.5'])), 'zx = 09;', 'zx = 0b12;', 'zx = 1.2.3;',
      "zx = 'ab';", 'var if = 1;', 'var %s = 1;' % s.pick(['while', 'for', 'switch', 'function', 'struct', 'return', 'break', 'case', 'default', 'else', 'do', 'new', 'var', 'continue']), 'var 3q = 1;', 'zx = 1 @ 2;', 'zx = # 1;', 'zx = %s ? 1 : 2;' % e(), 'zx. = 2;')
    a(4, 'statement', None, '; else { }', 'if ( %s ) { } else { } else { }' % e(), 'case 1:', 'default:', 'if %s { }' % s.pick(EX[:4]), 'if ( %s { }' % e(), 'while %s { }' % s.pick(EX[:4]), 'while ( %s { }' % e(), 'for ( ; ) { }', 'for ( zx = 0 ) { }', 'for zx = 0; zx; zx++ { }', 'for ( zx = 0; zx < 1; zx++; zx++ ) { }',
      'for ( var zk, zv ) { }', 'switch { }', 'switch ( zx ) case 1: break;', 'switch zx { case 1: break; }', 'switch ( zx ) { case 1 break; }', 'do { zx = 0; } while ( zx ) { }', 'do { zx = 0; } zx = 1;', 'do { zx = 0; } until ( zx );', 'return 1 2;', 'return ) ;', 'zx = 1 zx = 2;', 'zx = 1 }', 'var zq, zr;', 'var zq = 1, zr = 2;',
      'struct;', 'struct zS;', 'enum;', 'enum zE;', 'break 1;', 'continue 1;', 'out( 1 ) out( 2 );', '}', ')', ']', '{ zx = 1;', 'zx = "abc;', 'if ( zx ) { zx = 1; ', '/* abc')
    rule, err, t = s.weighted(r)
    return rule, err, t[s.draw(len(t))]


class C29(Prop):
    id = 'C29'
    configs = ['default', 'compact', 'amalgam']
    quick = 20000
    thorough = 300000
    rule = ('a case is a generated correct program and the same program with one mistake at a generated place; non-trivial when the correct program compiles and has at least 3 places')

    def gen(self, s):
        g = gen.Gen(s, funcs=s.int(1, 3), stmts=s.int(1, 5), gotos=s.draw(2))
        p = g.program()
        m = Marked()
        text = 'var zx = 0;\n' + m.prog(p)
        if s.draw(6) == 0:
            text = 'var zx = 0;\n\x010\x01'
            m.at = [(0, 0, 0)]
        i = s.draw(len(m.at))
        rule, err, t = bad(s, *m.at[i])
        if s.draw(4) == 0:
            t = t.replace(' ', s.pick(['\n', '  ', '\t', ' /* c */ ', '\r\n'])) if '"' not in t and "'" not in t else t
        a, b = text.split('\x01%d\x01' % i)
        clean = lambda x: re.sub('\x01\\d+\x01', '', x)
        a, b = clean(a), clean(b)
        return dict(good=a + b, src=a + '\n' + t + '\n' + b, rule=rule, err=err, t=t, at=m.at[i], n=len(m.at), first=a.count('\n') + 2,
                    flags=8 if rule == 'undeclared' and s.draw(4) == 0 else s.pick([0, 0, 1, 2, 4, 7]), cfg=s.pick(self.configs), b=b)

    def run(self, case, eng):
        r = eng[case['cfg']].req([['compile', 0, case['flags'], 1, case['good'].encode('latin-1')], ['compile', 1, case['flags'], 1, case['src'].encode('latin-1')]])
        if r[0][0] != b'0':
            raise Violation('the correct program is rejected: %r' % r[0])
        x = r[1]
        if case['flags'] & 8:
            if x[0] != b'0':
                raise Violation('rejected though variables need no declaration: %s\n%r' % (case['t'], x[2]))
            return case['n'] >= 3, ['no declarations needed']
        if x[0] == b'0':
            raise Violation('accepted with the mistake (%s): %s' % (case['rule'], case['t']))
        if x[1] != b'0':
            raise Violation('an image besides the error %r' % x)
        err = case['err']
        if err is not None:
            err = err if isinstance(err, tuple) else (err,)
            if int(x[0]) not in err:
                raise Violation('mistake (%s) reported as error %s, not %s: %s\n%r' % (case['rule'], x[0], err, case['t'], x[2]))
        if r[-1][0] != b'0':
            raise Violation('leak %r' % r[-1])
        g = REPORT.match(x[2])
        if g:
            n = int(g.group(1))
            if n < case['first']:
                raise Violation('reported on line %d, but nothing is wrong before line %d: %r' % (n, case['first'], x[2]))
        at = case['at']
        return case['n'] >= 3, [case['rule'], 'in function' if at[0] else 'at top level'] + (['in loop'] if at[1] else []) + (['in switch'] if at[2] and not at[1] else [])

    def render(self, case):
        return '// %s flags=%d: %s\n%s' % (case['cfg'], case['flags'], case['rule'], case['src'])


PROP = C29()
