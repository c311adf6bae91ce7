"""No script, however odd, can make the VM touch memory it does not own."""
from ..core import *

VALS = ['0', '1', '-1', '7', '2147483647', '-2147483648', '1.5', '0.0', '-3.25', '""', '"abc"', "'c'", 'str', 'arr', 'tab', 'st', 'st.x', 'tab[1]', 'arr[1]', 'arr[0]',
        'nest', 'nest[1]', 'nest[0]', 'tab["k"]', 'n', 'fl', 'st.q', 'nest["d"]', 'big', 'str[0]', 'tab.k', 'undef', 'e1', 'KA']
LV = ['n', 'fl', 'str', 'arr', 'tab', 'st', 'nest', 'arr[0]', 'arr[3]', 'tab[2]', 'tab["k"]', 'st.x', 'st.nope', 'nest[1]', 'tab.m', 'l1', 'l2', 'arr[n]', 'tab[str]', 'tab[fl]', 'str[1]', 'n[2]',
      'fl["q"]', 'arr[-1]', 'arr[str]', 'l1[n]', 'tab[arr]', 'st[1]', 'st["x"]', 'arr[tab]', 'l1["z"]', 'l2.y', 'str["k"]', 'undef[1]', 'str.x', 'nest.d']
# libraries that only compute
PURE = ['str::len', 'str::strlen', 'str::left', 'str::right', 'str::mid', 'str::format', 'str::isspace', 'str::isdigit', 'str::isalpha', 'str::tolower', 'str::toupper',
        'str::trim', 'str::trimleft', 'str::trimright', 'str::insert', 'str::chr', 'str::strchr', 'str::concat', 'str::num', 'str::mem', 'array::count', 'hash::count', 'hash::exists', 'list::count',
        'list::peek', 'stack::peek', 'queue::peek', 'std::serialize', 'std::deserialize', 'std::rand', 'math::sin', 'math::pow', 'math::abs', 'math::atan2', 'math::ldexp', 'math::fmod', 'math::sqrt',
        'math::iscale', 'math::floor', 'msg::peek', 'sys::isFunction', 'hstr', 'hsum', 'argc', 'out', 'tst::log', 'time::ms', 'hctx', 'hnone', 'std::srand', 'math::trunc', 'math::log']
# functions that change something: called with plain variables and literals only, nothing else in the statement
ACT = ['str::sprintf', 'str::printf', 'array::clear', 'array::remove', 'array::insert', 'array::truncate', 'hash::clear', 'hash::add', 'hash::remove', 'list::clear', 'list::pop', 'list::push_back',
       'list::push_front', 'list::pop_back', 'queue::push', 'queue::pop', 'stack::push', 'msg::read', 'msg::write', 'msg::clear', 'sys::importByteCode', 'f', 'g', 'S', 'k', 'f', 'g', 'k', 'nosuch', 'no::such']
PLAIN = ['n', 'fl', 'str', 'arr', 'tab', 'st', 'nest', 'l1', 'l2', 'undef', 'big', '0', '1', '-1', '2', '30', '"abc"', '""', '1.5', '2147483647', '-2147483648', "'c'", 'KA']
SCALAR = ['0', '1', '-1', '2', '30', '"abc"', '""', '1.5', '2147483647', '-2147483648', "'c'", 'KA', 'big', '0.0', '"a longer string of text"', '-3.25']
PURESC = [f for f in PURE if f not in ('list::peek', 'stack::peek', 'queue::peek', 'std::deserialize', 'msg::peek', 'hctx')]
PLV = ['n', 'fl', 'str', 'arr', 'tab', 'st', 'nest', 'l1', 'l2']
OPS = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '==', '!=', '<', '>', '<=', '>=', '&&', '||']
AOPS = ['=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=']


class T:
    """well-formed, badly typed programs"""
    def __init__(self, s):
        self.s = s
        self.d = 0

    def e(self, d=2):
        s = self.s
        if d <= 0:
            return s.pick(VALS)
        k = s.draw(12)
        if k <= 3:
            return s.pick(VALS)
        if k <= 5:
            return '( %s %s %s )' % (self.e(d - 1), s.pick(OPS), self.e(d - 1))
        if k == 6:
            return '%s( %s )' % (s.pick(PURE), ', '.join(self.e(d - 1) for _ in range(s.draw(5))))
        if k == 7:
            return '( %s( %s ) )' % (s.pick(['-', '!', '~', '(int)', '(float)']), self.e(d - 1))
        if k == 8:
            return '%s[%s]' % (s.pick(PLV), self.e(0))
        if k == 9:
            return s.pick(LV) + s.pick(['._count', '._hash', '._exists( %s )' % self.e(0)])
        return s.pick(LV)

    def sc(self, d=2):
        """never a container, so that no container comes to contain itself"""
        s = self.s
        k = s.draw(6)
        if k <= 1 or d <= 0:
            return s.pick(SCALAR)
        if k <= 3:
            return '( %s %s %s )' % (self.e(d - 1), s.pick(OPS), self.e(d - 1))
        if k == 4:
            return '( %s( %s ) )' % (s.pick(['-', '!', '~', '(int)', '(float)']), self.e(d - 1))
        return '%s( %s )' % (s.pick(PURESC), ', '.join(self.e(d - 1) for _ in range(s.draw(5))))

    def lv(self):
        s = self.s
        if s.draw(5) == 0:
            return '%s[%s]' % (s.pick(PLV), self.e(0))
        return s.pick(LV)

    def block(self, d, infn, n=None):
        return '{ ' + ' '.join(self.st(d - 1, infn) for _ in range(n or self.s.int(1, 3))) + ' }'

    def st(self, d, infn=False):
        s = self.s
        k = s.draw(16 if d > 0 else 9)
        if k <= 1:
            return 'out( %s );' % self.e()
        if k <= 4:
            t = self.lv()
            if t in PLV:
                return '%s %s %s;' % (t, s.pick(AOPS) if s.draw(2) else '=', self.e())
            return '%s %s %s;' % (t, s.pick(AOPS) if s.draw(2) else '=', self.sc())
        if k == 5:
            return '%s = %s;' % (self.lv(), s.pick(['{ %s, %s }', '{ "k": %s, 1: %s }', '{ -5: %s, "z": %s }', 'new S( %s, %s )', 'new S { x = %s, q = %s }', 'new P { x = %s, y = %s }']) % (self.sc(1), self.sc(1)))
        if k == 6:
            fn = s.pick(ACT)
            c = '%s( %s );' % (fn, ', '.join(s.pick(PLAIN if not i or '::' not in fn else SCALAR) for i in range(s.draw(5))))
            return s.pick(['', '', 'n = ', 'l1 = ', 'l2 = ', 'str = ', 'tab = ', 'var l1 = ']) + c
        if k == 7:
            return '%s%s;' % (s.pick(['', '', 'var ']), s.pick(['l1 = %s', 'l2 = %s']) % self.e())
        if k == 8:
            if s.draw(3) == 0:
                return s.pick(['%s++;', '%s--;', '++%s;', '--%s;', '%s._remove( 1 );', '%s._remove( "k" );', '%s._remove( n );']) % self.lv()
            return s.pick(['yield();', 'yield( %s );' % self.e(1), 'return;' if infn else ';', 'return %s;' % self.e(1) if infn else ';', 'n = 0;', 'arr = { 1, 2, 3 };', 'tab = { 1: 2, "k": "v" };',
                           'var l1[%s];' % s.pick(['0', '1', '5', 'n']), 'st = new S( 1, 2 );', 'str = "abc";', 'f();'])
        if k == 9:
            return 'if ( %s ) %s else %s' % (self.e(), self.block(d, infn), self.block(d, infn))
        if k == 10:
            return 'for ( var %s : %s ) %s' % (s.pick(['v1', 'v2']), s.pick(['arr', 'tab', 'str', 'st', 'n', 'nest', 'l1']), self.block(d, infn))
        if k == 11:
            return 'for ( var k1, var v1 : %s ) %s' % (s.pick(['arr', 'tab', 'str', 'st', 'n', 'nest', 'l1']), self.block(d, infn))
        if k == 12:
            return 'for ( var i%d = 0; i%d < %d; i%d++ ) %s' % (d, d, s.draw(6), d, self.block(d, infn))
        if k == 13:
            return 'switch ( %s ) { case 1: %s break; case "abc": %s case 0: %s break; %s }' % (self.e(), self.st(d - 1, infn), self.st(d - 1, infn), self.st(d - 1, infn), s.pick(['', 'default: n = 3;']))
        if k == 14:
            return 'while ( %s ) { %s %s }' % (self.e(1), self.st(d - 1, infn), s.pick(['break;', '', '', 'continue;']))
        return 'do %s while ( %s );' % (self.block(d, infn), self.e(1))

    def prog(self):
        s = self.s
        out = ['var n = 3; var fl = 1.5; var str = "hello"; var arr[] = { 1, "two", 3.5 }; var tab = { 1: 10, "k": "val" }; var nest = { 0: { 1, 2 }, 1: { 5: 6 }, "d": { 7, 8 } }; var l1; var l2; '
               'var v1; var v2; var k1; var st = 0; var big = 2000; var undef; enum { e1 = 4, KA }\n'
               'struct S( p, q ) { var x = p; var q = q; var z; }\nstruct P { var x; var y = 3; }\n']
        for fn, a in (('f', ''), ('g', ' p '), ('k', ' p, q ')):
            if s.draw(2) or fn != 'k':
                body = ' '.join(self.st(1, True) for _ in range(s.draw(3)))
                out.append('function %s(%s) { var l1; var l2; %s return %s; }\n' % (fn, a, body, self.e(1)))
        out.append('st = new S( 1, "q" );\n')
        out += [self.st(2) + '\n' for _ in range(s.int(1, 12))]
        return ''.join(out)


class C25(Prop):
    id = 'C25'
    configs = ['slices', 'cslices', 'amslices']
    quick = 25000
    thorough = 600000
    cpu_hang = 5
    rule = ('a case is a generated program that applies operators, indexing, loops and library functions to values of any type, run under an instruction budget and stack protection, suspended and '
            'resumed, then destroyed; non-trivial when at least some of it ran')
    assumptions = ['no container contains itself', 'programs that use more than 600 MB or 5 s are not judged']

    def gen(self, s):
        cfg = s.pick(self.configs)
        src = T(s).prog()
        kind = 'types'
        return dict(kind=kind, src=src.encode('latin-1', 'replace'), cfg=cfg, gc=s.pick([-1, 0, 0, 300]), flags=s.pick([1, 0, 8, 9, 9]), stack=s.pick([2000, 2000, 60]),
                    slice=s.pick([200, 50, 7]), maxy=s.pick([3, 10]))

    def run(self, case, eng):
        e = eng[case['cfg']]
        try:
            r = e.script(case['src'], flags=case['flags'], gc=case['gc'], stack=case['stack'], slice=case['slice'], maxy=case['maxy'], ymode=1, cap=600000000)
        except EngineCrash as x:
            if any(w in str(x) for w in ('ENGINE-OOM', 'log too large', 'ENGINE-HANG')):
                raise Discard('uses too much memory or time')
            raise
        if r.cerr:
            return False, [case['kind'], 'not compiled']
        if r.leak:
            raise Violation('leak %r' % r.leak)
        return True, [case['kind'], 'error %d' % r.err if r.err else 'ran']

    def render(self, case):
        return '// %s flags=%d gc=%d stack=%d slice=%d maxy=%d\n%s' % (case['cfg'], case['flags'], case['gc'], case['stack'], case['slice'], case['maxy'], case['src'].decode('latin-1'))


PROP = C25()
