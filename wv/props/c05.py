"""Garbage collection is invisible, and memory stays bounded."""
from ..core import *
from .. import lang, gen
from ..lang import *
from .c01 import expect

HINTS = [0, 1, 30, 200, 1500, 1000000000, -1]


def churn(s):
    """a loop body that allocates and drops; retains a bounded amount.
    returns (declarations, body) source text with %N% iterations"""
    decl, body = [], []
    k = s.int(1, 4)
    for i in range(k):
        c = s.draw(12)
        if c == 0:
            body.append('var s%d = "abc" + i; x = x + s%d._count;' % (i, i))
        elif c == 1:
            body.append('var a%d[] = { i, i + 1, i + 2 }; x = x + a%d[1];' % (i, i))
        elif c == 2:
            body.append('var h%d = { "k": i, 7: i * 2 }; x = x + h%d["k"];' % (i, i))
        elif c == 3:
            decl.append('struct S%d { var m; var n; }' % i)
            body.append('var t%d = new S%d() { m = i, n = "q" + i }; x = x + t%d.m;' % (i, i, i))
        elif c == 4:
            decl.append('function f%d( a ) { var l = "loc" + a; var q[] = { l, a }; return q; }' % i)
            body.append('var r%d = f%d( i ); x = x + r%d._count;' % (i, i, i))
        elif c == 5:
            decl.append('var keep%d[] = { 0, 0, 0, 0 };' % i)
            body.append('keep%d[i & 3] = "v" + i;' % i)
        elif c == 6:
            decl.append('var kh%d = { 0: 0 };' % i)
            body.append('kh%d[i & 7] = { i, "t" + i };' % i)
        elif c == 7:
            body.append('var b%d[%d]; b%d[0] = i;' % (i, s.int(1, 50), i))
        elif c == 8:
            decl.append('var kr%d = { 0: 0 };' % i)
            body.append('kr%d[ "key" + (i & 15) ] = i; kr%d._remove( "key" + ((i + 5) & 15) );' % (i, i))
        elif c == 9:
            body.append('var g%d[] = { 1 }; for ( var j%d = 0; j%d < %d; ++j%d ) { g%d[j%d] = j%d; }' % (i, i, i, s.int(2, 20), i, i, i, i))
        elif c == 10:
            body.append('var w%d[] = { { i, "n" + i }, { "m": { i } } }; for ( var e%d : w%d ) { x = x + 1; }' % (i, i, i))
        else:
            body.append('var u%d = str::toupper( "low" + i ); x = x + str::strlen( u%d );' % (i, i))
    wrap = s.draw(2)
    src = '\n'.join(decl) + '\nvar x = 0;\n'
    loop = 'for ( var i = 0; i < %%N%%; ++i )\n{\n  %s\n  x = x & 65535;\n}\n' % '\n  '.join(body)
    if wrap:
        src += 'function go()\n{\n' + loop.replace('var x', 'x') + '}\ngo();\n'
    else:
        src += loop
    return src + 'out( x );\n'


def graph(s):
    """objects linked into arbitrary (cyclic) graphs while everything that
    becomes unreachable is collected; returns (source, expected log)"""
    src, log = [], []
    kinds = [s.draw(3) for _ in range(s.int(1, 5))]
    inf = s.draw(2)

    class N:
        def __init__(self, k, i):
            self.k, self.id, self.l = k, i, [None, None]
    uid = [0]

    def new(k):
        uid[0] += 1
        i = uid[0]
        txt = ['{ "id%d" + 0, 0, 0 }' % i, '{ "id": "id%d" + 0, "p": 0, "q": 0 }' % i, 'new T() { id = "id%d" + 0 }' % i][k]
        return N(k, 'id%d0' % i), txt

    def acc(k, which):
        if k == 0:
            return '[%d]' % [0, 1, 2][which]
        f = ['id', 'p', 'q'][which]
        return '["%s"]' % f if k == 1 and s.draw(2) else '.' + f
    src.append('struct T { var id; var p; var q; }')
    V = []
    ind = '  ' if inf else ''
    body = []
    for i, k in enumerate(kinds):
        n, t = new(k)
        V.append(n)
        body.append('var n%d%s = %s;' % (i, '[]' if k == 0 else '', t))

    def path(i):
        n, t = V[i], 'n%d' % i
        while s.draw(3):
            w = s.draw(2)
            if n.l[w] is None:
                break
            t += acc(n.k, w + 1)
            n = n.l[w]
        return n, t
    for _ in range(s.int(3, 25)):
        c = s.draw(6)
        i = s.draw(len(V))
        if c < 3:
            a, ta = path(i)
            b, tb = path(s.draw(len(V)))
            w = s.draw(2)
            body.append('%s%s = %s;' % (ta, acc(a.k, w + 1), tb))
            a.l[w] = b
        elif c == 3:
            k = s.draw(3)
            n, t = new(k)
            a, ta = path(i)
            w = s.draw(2)
            if k == 0:
                body.append('var tmp[] = %s; %s%s = tmp; tmp = 0;' % (t, ta, acc(a.k, w + 1)))
            else:
                body.append('%s%s = %s;' % (ta, acc(a.k, w + 1), t))
            a.l[w] = n
        elif c == 4:
            # rebind a root
            b, tb = path(s.draw(len(V)))
            body.append('n%d = %s;' % (i, tb))
            V[i] = b
        else:
            a, ta = path(i)
            body.append('out( %s%s );' % (ta, acc(a.k, 0)))
            log.append('"%s"' % a.id)
    for i in range(len(V)):
        a, ta = path(i)
        body.append('out( %s%s );' % (ta, acc(a.k, 0)))
        log.append('"%s"' % a.id)
    if inf:
        src.append('function go()\n{')
        src += [ind + b for b in body]
        src.append('}\ngo();')
    else:
        src += body
    return '\n'.join(src) + '\n', ''.join(l + '\n' for l in log)


class C05(Prop):
    id = 'C05'
    configs = ['default', 'compact', 'slices', 'amalgam']
    quick = 12000
    thorough = 250000
    rule = ('a case is either a generated program run under 3 collection thresholds (0 = collect on every allocation) and '
            'compared with the reference model, or a generated (cyclic) object graph under mutation, or an allocation loop run for N and 6N iterations; non-trivial when the '
            'program allocated at least one container or string')
    assumptions = ['"bounded": 6 times the iterations may raise the high-water mark of live heap by at most 30% + 40 KB '
                   'beyond the shorter run, with retained data bounded by construction']

    def gen(self, s):
        if s.draw(8) == 7:
            return dict(kind='churn', src=churn(s), n=s.int(300, 700), gc=s.pick([-1, -1, 2000, 20000]), cfg=s.pick(self.configs))
        if s.draw(4) == 3:
            src, log = graph(s)
            return dict(kind='prog', src=src, log=log, cfg=s.pick(self.configs), hints=[0, s.pick(HINTS)])
        g = gen.Gen(s, strings=1, arrays=1, hashes=1, structs=1, funcs=4, loops=1, stmts=12, edepth=3)
        p = g.program()
        src = lang.Render().prog(p)
        it = lang.Interp(p)
        it.run()
        h = [0] + [s.pick(HINTS) for _ in range(2)]
        return dict(kind='prog', src=src, log=it.log(), cfg=s.pick(self.configs), hints=h)

    def run(self, case, eng):
        e = eng[case['cfg']]
        if case['kind'] == 'prog':
            for h in case['hints']:
                r = e.script(case['src'], stack=2000, gc=h)
                try:
                    expect(r, case['log'])
                except Violation as v:
                    raise Violation('threshold %d: %s' % (h, v))
            return ('"' in case['src'] or '{' in case['src']), ['prog', case['cfg']]
        a = e.script(case['src'].replace('%N%', str(case['n'])), stack=500, gc=case['gc'])
        b = e.script(case['src'].replace('%N%', str(case['n'] * 6)), stack=500, gc=case['gc'])
        for r in (a, b):
            if r.cerr or r.err:
                raise Violation('error %s %s %s' % (r.cerr, r.err, r.msg))
            if r.leak:
                raise Violation('leak %d' % r.leak)
        if b.peak > a.peak * 1.3 + 40000:
            raise Violation('[%s] high-water mark grew with the iteration count: %d iterations %d bytes, %d iterations %d bytes (threshold %d)'
                            % (case['cfg'], case['n'], a.peak, case['n'] * 6, b.peak, case['gc']))
        return True, ['churn', case['cfg']]

    def render(self, case):
        return case['src']


PROP = C05()
