"""Structs: constructed frames with named members, wherever they are defined, kept or reached from."""
from ..core import *

NAMES = ['a', 'b', 'x', 'y', 'red', 'green', 'blue', 'member1', 'member2', 'n0', 'n1', 'k', 'len', 'next', 'val', 'name', 'count', 'id', 'p1', 'p2', 'left', 'right', 'sum', 'tag', 'flag', 'data', 'pos', 'w', 'h', 'zz']


class St:
    def __init__(self, d):
        self.d, self.m = d, {}


def esc(b):
    return '"%s"' % b


def dump(v):
    if isinstance(v, int):
        return 'i%d' % v
    if isinstance(v, str):
        return esc(v)
    if isinstance(v, list):
        return '[%s]' % ','.join(dump(x) for x in v)
    if isinstance(v, dict):
        return '{%s}' % ','.join(sorted('%s:%s' % (dump(k), dump(x)) for k, x in v.items()))
    return '<>'


def lit(v):
    return str(v) if isinstance(v, int) else '"%s"' % v


def reach(v, t):
    if v is t:
        return True
    if isinstance(v, St):
        return any(reach(x, t) for x in v.m.values())
    return False


class Def:
    def __init__(self, name, mod):
        self.name, self.mod, self.params, self.members = name, mod, [], []

    def text(self):
        o = 'struct %s%s\n{\n' % (self.name, '( %s )' % ', '.join(self.params) if self.params else '')
        for n, i in self.members:
            k = i[0]
            if k == 'none':
                o += ' var %s;\n' % n
            elif k == 'lit':
                o += ' var %s = %s;\n' % (n, lit(i[1]))
            elif k == 'par':
                o += ' var %s = %s;\n' % (n, self.params[i[1]])
            elif k == 'paradd':
                o += ' var %s = %s + %d;\n' % (n, self.params[i[1]], i[2])
            elif k == 'mem':
                o += ' var %s = %s * %d;\n' % (n, i[1], i[2])
            elif k == 'if':
                o += ' var %s;\n if ( %s > %d ) { %s = %s; } else { %s = %s; }\n' % (n, self.params[i[1]], i[2], n, lit(i[3]), n, lit(i[4]))
            elif k == 'loop':
                o += ' var %s = %d;\n while ( %s < %s ) { %s += %d; }\n' % (n, i[2], n, self.params[i[1]], n, i[3])
            elif k == 'arr':
                o += ' var %s[] = { %s };\n' % (n, ', '.join(lit(x) for x in i[1]))
            elif k == 'hash':
                o += ' var %s = { %s };\n' % (n, ', '.join('"%s": %s' % (a, lit(b)) for a, b in i[1].items()))
            elif k == 'cnt':
                o += ' ::%s = ::%s + 1;\n var %s = ::%s;\n' % (self.mod['cnt'], self.mod['cnt'], n, self.mod['cnt'])
            elif k == 'new':
                o += ' var %s = new %s( %s );\n' % (n, i[1].name, ', '.join(lit(x) for x in i[2]))
        return o + '}\n'

    def make(self, args):
        a = (list(args) + [0] * 9)[:len(self.params)]
        s = St(self)
        for n, i in self.members:
            k = i[0]
            if k == 'none':
                v = 0
            elif k == 'lit':
                v = i[1]
            elif k == 'par':
                v = a[i[1]]
            elif k == 'paradd':
                v = a[i[1]] + i[2]
            elif k == 'mem':
                v = s.m[i[1]] * i[2]
            elif k == 'if':
                v = i[3] if a[i[1]] > i[2] else i[4]
            elif k == 'loop':
                v = i[2]
                while v < a[i[1]]:
                    v += i[3]
            elif k == 'arr':
                v = list(i[1])
            elif k == 'hash':
                v = dict(i[1])
            elif k == 'cnt':
                self.mod['n'] += 1
                v = self.mod['n']
            elif k == 'new':
                v = i[1].make(i[2])
            s.m[n] = v
        return s


class C20(Prop):
    id = 'C20'
    configs = ['default', 'compact', 'slices', 'amalgam']
    quick = 20000
    thorough = 600000
    rule = ('a case is one to five generated struct definitions (constructors with parameters, conditions, loops, containers, nested structs and module counters), in the script itself or in modules it imports, and up to 30 generated '
            'operations (new in all its forms, member reads and writes through variables, arrays, tables, functions and other structs, aliasing, host instances) against a model; non-trivial when at least two instances '
            'exist and a member was changed after construction')
    assumptions = ['structs that reach themselves are not built']

    def scal(self, s):
        return s.int(-50, 50) if s.draw(3) else ''.join(s.pick('abcXY 01') for _ in range(s.draw(6)))

    def gen(self, s):
        nmod = s.pick([0, 0, 1, 2])
        mods = [dict(cnt='cnt%d' % i, n=100 * i, init=100 * i) for i in range(nmod + 1)]
        defs = []
        for i in range(s.int(1, 5)):
            d = Def('S%d' % i, mods[s.draw(nmod + 1)])
            d.params = ['p%s' % c for c in 'qrst'[:s.draw(4)]]
            for n in s.shuffle(NAMES)[:s.pick([1, 2, 3, 4, 6, 9, 14])]:
                ints = [m for m, x in d.members if x[0] in ('paradd', 'loop', 'cnt', 'par') or (x[0] == 'lit' and isinstance(x[1], int))]
                ks = ['none', 'none', 'lit', 'lit', 'cnt', 'arr', 'hash'] + (['par', 'par', 'paradd', 'if', 'loop'] if d.params else []) + (['mem'] if ints else [])
                inner = [e for e in defs if e.mod is d.mod]
                if inner:
                    ks.append('new')
                k = s.pick(ks)
                p = s.draw(len(d.params)) if d.params else 0
                if k == 'lit':
                    x = (k, self.scal(s))
                elif k == 'par':
                    x = (k, p)
                elif k == 'paradd':
                    x = (k, p, s.int(1, 9))
                elif k == 'mem':
                    x = (k, s.pick(ints), s.int(0, 5))
                elif k == 'if':
                    x = (k, p, s.int(0, 9), self.scal(s), self.scal(s))
                elif k == 'loop':
                    x = (k, p, s.int(0, 5), s.int(1, 4))
                elif k == 'arr':
                    x = (k, [self.scal(s) for _ in range(s.int(1, 3))])
                elif k == 'hash':
                    x = (k, {q: self.scal(s) for q in s.subset(['ka', 'kb', 'kc'])} or {'ka': 1})
                elif k == 'new':
                    e = s.pick(inner)
                    x = (k, e, [s.int(0, 20) for _ in range(s.int(0, len(e.params)))])
                else:
                    x = (k,)
                d.members.append((n, x))
            defs.append(d)
        texts = []
        for m in mods:
            texts.append('var %s = %d;\n' % (m['cnt'], m['init']) + ''.join(d.text() for d in defs if d.mod is m))
        src = ''.join('sys::importCompile( "%s" );\n' % t.replace('"', '\\"').replace('\n', ' ') for t in texts[1:])
        src += texts[0]
        enums = []
        if s.draw(2):
            v = 0
            parts = []
            for i in range(s.int(1, 5)):
                if s.draw(3) == 0:
                    v = s.int(0, 100)
                    parts.append('e%d = %d' % (i, v))
                else:
                    parts.append('e%d' % i)
                enums.append(('e%d' % i, v))
                v += 1
            src += 'enum { %s };\n' % ', '.join(parts)
        scope = s.draw(2)
        self.s = s
        V = {}
        out = []
        L = []
        st = dict(new=0, chg=0)
        fnames = {}
        funcs = []

        def val():
            """(text, value) of a scalar"""
            if enums and s.draw(5) == 0:
                return s.pick(enums)
            v = self.scal(s)
            return lit(v), v

        def intv():
            v = s.int(0, 30)
            return lit(v), v

        def paths():
            r = []

            def walk(t, o, dep):
                r.append((t, o))
                if dep < 3:
                    for n, x in o.m.items():
                        if isinstance(x, St):
                            walk(t + '.' + n, x, dep + 1)
            for n in sorted(V):
                if isinstance(V[n], St):
                    walk(n, V[n], 0)
                elif isinstance(V[n], list):
                    for i, x in enumerate(V[n]):
                        if isinstance(x, St):
                            walk('%s[%d]' % (n, i), x, 0)
                elif isinstance(V[n], dict):
                    for k, x in V[n].items():
                        if isinstance(x, St):
                            walk(s.pick(['%s["%s"]', '%s.%s']) % (n, k), x, 0)
            return r

        def newx():
            d = s.pick(defs)
            n = len(d.params)
            if s.draw(5) == 0:
                n = s.draw(n + 1)
            a = [intv() for _ in range(n)]
            o = d.make([x for _, x in a])
            st['new'] += 1
            t = 'new %s( %s )' % (d.name, ', '.join(x for x, _ in a))
            k = s.draw(4)
            names = [m for m, _ in d.members]
            ini = []
            if k == 2:
                for m in s.shuffle(s.subset(names)):
                    x, v = ival()
                    ini.append('%s = %s' % (m, x))
                    o.m[m] = v
            elif k == 3:
                for m in names[:s.int(1, len(names))]:
                    x, v = ival()
                    ini.append(x)
                    o.m[m] = v
            if ini:
                t += ' { %s%s }' % (', '.join(ini), s.pick(['', ',']))
            return t, o

        def ival():
            ps = paths()
            if ps and s.draw(4) == 0:
                return s.pick(ps)
            return val()
        for i in range(3):
            V['v%d' % i] = 0
        V['arr'] = [0, 0, 0]
        V['h'] = {'k0': 0, 'k1': 0}
        decl = 'var v0 = 0; var v1 = 0; var v2 = 0; var arr[3]; var h = { "k0": 0, "k1": 0 }; var t = 0;\n'

        def slot():
            k = s.draw(5)
            if k < 3:
                return 'v%d' % s.draw(3)
            return 'arr[%d]' % s.draw(3) if k == 3 else 'h["k%d"]' % s.draw(2)

        def put(t, v):
            if t[0] == 'v':
                V[t] = v
            elif t[0] == 'a':
                V['arr'][int(t[4])] = v
            else:
                V['h'][t[3:5]] = v
        for _ in range(s.int(2, 30)):
            ps = paths()
            k = s.weighted([(5, 'new'), (6, 'set'), (5, 'get'), (2, 'alias'), (2, 'fset'), (1, 'mk'), (1, 'loop'), (2, 'setst'), (1, 'op'), (1, 'miss')])
            if k == 'new' or not ps:
                # v2 = new ... must be a plain assignment
                x, o = newx()
                t = slot()
                L.append('%s = %s;' % (t, x))
                put(t, o)
            elif k == 'set':
                t, o = s.pick(ps)
                m = s.pick(sorted(o.m))
                v = o.m[m]
                st['chg'] += 1
                if isinstance(v, list) and s.draw(2):
                    i = s.draw(len(v))
                    x, y = val()
                    L.append('%s.%s[%d] = %s;' % (t, m, i, x))
                    v[i] = y
                elif isinstance(v, dict) and s.draw(2):
                    q = s.pick(['ka', 'kb', 'kd'])
                    x, y = val()
                    L.append(s.pick(['%s.%s["%s"] = %s;', '%s.%s.%s = %s;'] if q in v else ['%s.%s["%s"] = %s;']) % (t, m, q, x))
                    v[q] = y
                elif isinstance(v, int) and s.draw(2):
                    n = s.int(1, 9)
                    op = s.draw(4)
                    L.append(['%s.%s += %d;', '%s.%s -= %d;', '++%s.%s;', '%s.%s++;'][op] % ((t, m, n) if op < 2 else (t, m)))
                    o.m[m] = v + (n if op == 0 else -n if op == 1 else 1)
                elif isinstance(v, str) and s.draw(2) and len(v) < 50:
                    L.append('%s.%s = %s.%s + "+";' % (t, m, t, m))
                    o.m[m] = v + '+'
                else:
                    x, y = val()
                    L.append('%s.%s = %s;' % (t, m, x))
                    o.m[m] = y
            elif k == 'get':
                t, o = s.pick(ps)
                ms = [m for m in o.m if not isinstance(o.m[m], St)]
                if not ms:
                    continue
                ms = [s.pick(ms) for _ in range(s.int(1, 3))]
                L.append('out( %s );' % ', '.join('%s.%s' % (t, m) for m in ms))
                out.append(' '.join(dump(o.m[m]) for m in ms))
            elif k == 'op':
                t, o = s.pick(ps)
                ms = [m for m in o.m if isinstance(o.m[m], int)]
                if not ms:
                    continue
                m, n = s.pick(ms), s.pick(ms)
                L.append('t = %s.%s + %s.%s * 2; out( t );' % (t, m, t, n))
                out.append(dump(o.m[m] + o.m[n] * 2))
            elif k == 'miss':
                # a name the struct does not have reads as 0 and cannot be written
                t, o = s.pick(ps)
                ms = [m for m in NAMES + ['m%d' % i for i in range(12)] if m not in o.m]
                for m in s.shuffle(ms)[:s.int(1, 5)]:
                    if s.draw(2):
                        L.append('%s.%s = %s;' % (t, m, val()[0]))
                    if s.draw(3):
                        L.append('out( %s.%s );' % (t, m))
                        out.append('i0')
            elif k == 'alias':
                t, o = s.pick(ps)
                d = slot()
                L.append('%s = %s;' % (d, t))
                put(d, o)
            elif k == 'setst':
                t, o = s.pick(ps)
                u, q = s.pick(ps)
                if reach(q, o):
                    continue
                m = s.pick(sorted(o.m))
                L.append('%s.%s = %s;' % (t, m, u))
                o.m[m] = q
            elif k == 'fset':
                t, o = s.pick(ps)
                m = s.pick(sorted(o.m))
                f = fnames.get(m)
                if not f:
                    f = fnames[m] = 'set_%s' % m
                    funcs.append('function %s( s, x ) { s.%s = x; return s.%s; }\n' % (f, m, m))
                x, y = val()
                L.append('out( %s( %s, %s ) );' % (f, t, x))
                o.m[m] = y
                st['chg'] += 1
                out.append(dump(y))
            elif k == 'mk':
                d = s.pick(defs)
                f = fnames.get(d)
                n = len(d.params)
                if not f:
                    f = fnames[d] = 'mk_%s' % d.name
                    pn = ['a%d' % i for i in range(n)]
                    funcs.append('function %s( %s ) { var other = 5; var s = new %s( %s ); var more = other + 1; s.%s = more; return s; }\n' % (f, ', '.join(pn), d.name, ', '.join(pn), d.members[0][0]))
                a = [intv() for _ in range(n)]
                o = d.make([x for _, x in a])
                o.m[d.members[0][0]] = 6
                st['new'] += 1
                t = slot()
                L.append('%s = %s( %s );' % (t, f, ', '.join(x for x, _ in a)))
                put(t, o)
            elif k == 'loop':
                d = s.pick(defs)
                n = s.pick([3, 60])
                args = ', '.join('i%d' % len(L) for _ in d.params)
                for i in range(n):
                    o = d.make([i] * len(d.params))
                t = 'v%d' % s.draw(3)
                L.append('for ( var i%d = 0; i%d < %d; ++i%d ) { %s = new %s( %s ); }' % (len(L), len(L), n, len(L), t, d.name, args))
                put(t, o)
        for t, o in paths()[:12]:
            ms = [m for m in o.m if not isinstance(o.m[m], St)]
            if ms:
                L.append('out( %s );' % ', '.join('%s.%s' % (t, m) for m in ms))
                out.append(' '.join(dump(o.m[m]) for m in ms))
        src += ''.join(funcs)
        if scope:
            src += 'function body()\n{\n%s%s\n}\nbody();\n' % (decl, '\n'.join(L))
        else:
            src += decl + '\n'.join(L) + '\n'
        # instances made by the host, of the script's own structs
        host = []
        own = [d for d in defs if d.mod is mods[0]]
        for _ in range(s.draw(4)):
            if not own:
                break
            d = s.pick(own)
            n = s.draw(len(d.params) + 1)
            a = [s.int(0, 30) for _ in range(n)]
            o = d.make(a)
            ms = [s.pick([m for m, _ in d.members] + ['m%d' % s.draw(12)]) for _ in range(s.int(1, 4))]
            host.append((d.name, a, ms, ['NULL' if m not in o.m else dump(o.m[m]) for m in ms]))
        return dict(src=src, out=out, host=host, cfg=s.pick(self.configs), gc=s.pick([-1, 0, 500]), flags=s.pick([1, 1, 0, 3]), nt=st['new'] >= 2 and st['chg'] > 0, nmod=nmod, stack=s.pick([100, 300]))

    def run(self, case, eng):
        e = eng[case['cfg']]
        ops = [['newstate', 0, case['stack'], 1, case['gc'], 0], ['compile', 0, case['flags'], 1, case['src'].encode()], ['run', 0, 0, 0, 0], ['log']]
        for n, a, ms, _ in case['host']:
            ops.append(['struct', 0, n] + ['i%d' % x for x in a] + ['|'] + ms)
        ops.append(['killstate', 0])
        r = e.req(ops)
        if r[1][0] != b'0':
            raise Violation('[%s] does not compile: %s' % (case['cfg'], r[1]))
        if r[2][1] != b'0':
            raise Violation('[%s] ends in error %s' % (case['cfg'], r[2][1]))
        g = r[3][0].decode('latin-1').split('\n')[:-1]
        if g != case['out']:
            for i, (x, y) in enumerate(zip(g + [None] * 99, case['out'])):
                if x != y:
                    raise Violation('[%s] output line %d is %s, expected %s' % (case['cfg'], i, x, y))
            raise Violation('[%s] too much output' % case['cfg'])
        for i, (n, a, ms, w) in enumerate(case['host']):
            if [x.decode('latin-1') for x in r[4 + i]] != ['ok'] + w:
                raise Violation('[%s] host instance %s%s: members %s are %s, expected %s' % (case['cfg'], n, a, ms, r[4 + i], w))
        if r[-1] != [b'0', b'0']:
            raise Violation('leak %r' % r[-1])
        return case['nt'], ['modules:%d' % case['nmod']] + (['host'] if case['host'] else [])

    def render(self, case):
        return '// %s gc=%d stack=%d flags=%d host=%s\n' % (case['cfg'], case['gc'], case['stack'], case['flags'], case['host']) + case['src']


PROP = C20()
